"""Symbolic interpreter for the Scheme half of MPB (mpb/mpb.scm.in and the libctl library it uses).

The source text is read from the working tree on every run.  Numbers are exact rationals or polynomials over
symbolic inputs; a conditional on a symbolic comparison forks the run (feasibility decided by z3); every `check`
is the query  path-condition AND NOT condition.  A satisfiable query is replayed by running the same text in the
real Guile interpreter with the model's values."""
import sys, os, re, json, time, threading, subprocess, tempfile, shutil, traceback
from fractions import Fraction as F
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VP_REPO","/repo")
LIBCTL="/usr/share/libctl"
QUICK=os.environ.get("VERIF_TIER","quick")!="thorough"
class SchemeError(Exception): pass
class Unmodelled(Exception): pass
class Infeasible(Exception): pass
class Cut(Exception): pass
class Throw(SchemeError):
    def __init__(s,key,args): s.key=key; s.args_=args; Exception.__init__(s,"throw %s"%(key,))
# ---------------------------------------------------------------- data
class Sy(str): __slots__=()
_sy={}
def sy(n):
    r=_sy.get(n)
    if r is None: r=_sy[n]=Sy(n)
    return r
class Pair:
    __slots__=("a","d")
    def __init__(s,a,d): s.a=a; s.d=d
class Nil:
    def __repr__(s): return "()"
NIL=Nil()
class Unspec:
    def __repr__(s): return "#<unspecified>"
UNS=Unspec()
class Char(str): pass
class MStr:      # strings are immutable here
    pass
class Cplx:
    __slots__=("re","im")
    def __init__(s,re,im): s.re=re; s.im=im
def pylist(l):
    r=[]
    while isinstance(l,Pair): r.append(l.a); l=l.d
    if l is not NIL: raise SchemeError("improper list")
    return r
def mklist(xs,tail=NIL):
    for x in reversed(xs): tail=Pair(x,tail)
    return tail
# ---------------------------------------------------------------- numbers
class P:
    """polynomial: {sorted tuple of variable numbers: Fraction}, not constant"""
    __slots__=("t",)
    def __init__(s,t): s.t=t
class Root:
    """non-negative square root of a number that is not a perfect square"""
    __slots__=("r",)
    def __init__(s,r): s.r=r
class SB:
    """symbolic boolean: z3 term"""
    __slots__=("z",)
    def __init__(s,z): s.z=z
NUM=(int,F,P,Root,Cplx)
def isnum(x): return isinstance(x,NUM) and not isinstance(x,bool)
def norm(t):
    t={m:c for m,c in t.items() if c!=0}
    if not t: return 0
    if len(t)==1 and () in t: return t[()]
    return P(t)
class World:
    """state of one path"""
    cur=None
W=lambda: World.cur
def poly(x):
    if isinstance(x,P): return x.t
    if isinstance(x,Root): return W().rootvar(x.r).t
    if isinstance(x,bool) or not isinstance(x,(int,F)): raise SchemeError("wrong type argument: not a number: %r"%(x,))
    return {():F(x)} if x!=0 else {}
def add(a,b):
    if isinstance(a,(int,F)) and isinstance(b,(int,F)): return nb(a)+nb(b)
    if isinstance(a,Cplx) or isinstance(b,Cplx): return cx(add(re_(a),re_(b)),add(im_(a),im_(b)))
    t=dict(poly(a))
    for m,c in poly(b).items(): t[m]=t.get(m,0)+c
    return norm(t)
def nb(x):
    if isinstance(x,bool): raise SchemeError("wrong type argument: boolean where a number is expected")
    return x
def neg(a):
    if isinstance(a,(int,F)): return -nb(a)
    if isinstance(a,Cplx): return cx(neg(a.re),neg(a.im))
    return norm({m:-c for m,c in poly(a).items()})
def sub(a,b): return add(a,neg(b))
def mul(a,b):
    if isinstance(a,(int,F)) and isinstance(b,(int,F)): return nb(a)*nb(b)
    if isinstance(a,Cplx) or isinstance(b,Cplx): return cx(sub(mul(re_(a),re_(b)),mul(im_(a),im_(b))),add(mul(re_(a),im_(b)),mul(im_(a),re_(b))))
    if isinstance(a,Root) and isinstance(b,Root) and same(a.r,b.r): return a.r
    t={}; pa=poly(a); pb=poly(b); alg=W().alg
    for m,c in pa.items():
        for n,d in pb.items():
            k=tuple(sorted(m+n)); e=c*d
            if alg and len(k)>1:
                kk=list(k); i=0
                while i+1<len(kk):
                    if kk[i]==kk[i+1] and kk[i] in alg: e*=alg[kk[i]]; del kk[i:i+2]
                    else: i+=1
                k=tuple(kk)
            t[k]=t.get(k,0)+e
    return norm(t)
def same(a,b):
    d=sub(a,b); return isinstance(d,(int,F)) and d==0
def div(a,b):
    if isinstance(b,Cplx):
        n=add(mul(b.re,b.re),mul(b.im,b.im)); a=mul(a,cx(b.re,neg(b.im))); return cx(div(re_(a),n),div(im_(a),n))
    if isinstance(a,Cplx): return cx(div(a.re,b),div(a.im,b))
    nb(a); nb(b)
    if isinstance(b,(int,F)):
        if b==0: raise SchemeError("division by zero")
        r=mul(a,1/F(b)); 
        return int(r) if isinstance(r,F) and r.denominator==1 else r
    if not isnum(b): raise SchemeError("wrong type argument: not a number")
    return W().divide(a,b)
def cx(re,im):
    if isinstance(im,(int,F)) and im==0: return re
    return Cplx(re,im)
def re_(x): return x.re if isinstance(x,Cplx) else x
def im_(x): return x.im if isinstance(x,Cplx) else 0
def isqrt(x):
    from math import isqrt as q
    x=F(x); n,d=x.numerator,x.denominator; a,b=q(n),q(d)
    return F(a,b) if a*a==n and b*b==d else None
def fix(x): return int(x) if isinstance(x,F) and x.denominator==1 else x
def sqrt(x):
    if isinstance(x,(int,F)):
        if x<0: return cx(0,sqrt(-x))
        r=isqrt(x)
        if r is not None: return fix(r)
        return W().algroot(F(x))
    if isinstance(x,P):
        if len(x.t)==1:
            (m,c),=x.t.items()
            if len(m)==2 and m[0]==m[1]:
                r=isqrt(c)
                if r is not None: return mul(r,absv(P({(m[0],):F(1)})))
        return Root(x)
    raise Unmodelled("sqrt")
def zz(x):
    """z3 term"""
    t=poly(x); w=W(); k0=tuple(t.items()); r=w.zcache.get(k0)
    if r is None: r=w.zcache[k0]=zz_(t,w)
    return r
def zz_(t,w):
    if not t: return z3.RealVal(0)
    ts=[]
    for m,c in t.items():
        k=z3.RealVal("%d/%d"%(F(c).numerator,F(c).denominator))
        for v in m: k=k*w.zv[v] if not (k is not None and z3.is_rational_value(k) and k.as_fraction()==1) else w.zv[v]
        ts.append(k)
    return z3.Sum(ts) if len(ts)>1 else ts[0]
def cmp(op,a,b):
    """op in <,<=,=; result bool or SB"""
    if isinstance(a,Cplx) or isinstance(b,Cplx):
        if op!="=": raise SchemeError("comparison of complex numbers")
        return band(cmp("=",re_(a),re_(b)),cmp("=",im_(a),im_(b)))
    if not isnum(a) or not isnum(b): raise SchemeError("wrong type argument in comparison")
    if isinstance(a,Root) or isinstance(b,Root):
        ra=a.r if isinstance(a,Root) else (a*a if isinstance(a,(int,F)) and a>=0 else None)
        rb=b.r if isinstance(b,Root) else (b*b if isinstance(b,(int,F)) and b>=0 else None)
        if ra is not None and rb is not None: a,b=ra,rb
        elif isinstance(a,(int,F)): return op!="="     # negative < root
        elif isinstance(b,(int,F)): return False
    d=sub(a,b)
    if isinstance(d,(int,F)): return {"<":d<0,"<=":d<=0,"=":d==0}[op]
    # scale to a canonical positive-leading form so that equal conditions give equal terms
    z=zz(d); 
    return SB(z<0 if op=="<" else z<=0 if op=="<=" else z==0)
def band(a,b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return SB(z3.And(a.z,b.z))
def bnot(a):
    if isinstance(a,SB): return SB(z3.Not(a.z))
    return a is False
def absv(x):
    if isinstance(x,(int,F)): return abs(nb(x))
    if isinstance(x,Root): return x
    if isinstance(x,Cplx): return sqrt(add(mul(x.re,x.re),mul(x.im,x.im)))
    return neg(x) if W().truth(cmp("<",x,0)) else x
class World:
    cur=None
    def __init__(s,prefix,stat,args):
        s.prefix=prefix; s.pos=0; s.dec=[]; s.pend=[]; s.stat=stat; s.args=args
        s.zv=[]; s.names={}; s.inputs=[]; s.alg={}; s.roots={}; s.divs={}; s.out=[]; s.pc=[]; s.ints=set()
        s.solver=z3.Solver(); s.model=None; s.zcache={}; s.solver.set("timeout",30000 if QUICK else 120000); s.checks=[]; s.reached=set(); s.fresh=0
    def var(s,name,isint=False):
        i=len(s.zv); z=z3.Int(name) if isint else z3.Real(name); s.zv.append(z3.ToReal(z) if isint else z); s.names[i]=name
        if isint: s.ints.add(i)
        return i,z
    def assert_(s,z):
        s.solver.add(z); s.pc.append(z)
        if s.model is not None and not z3.is_true(s.model.eval(z,model_completion=True)): s.model=None
    def input(s,name,isint=False,lo=None,hi=None):
        if any(n==name for n,_ in s.inputs): raise Unmodelled("duplicate input "+name)
        i,z=s.var(name,isint); s.inputs.append((name,z))
        if lo is not None: s.assert_(z>=int(lo)); s.assert_(z<=int(hi))
        return P({(i,):F(1)})
    def algroot(s,c):
        if c not in s.roots:
            # c = n/d = (n*d)/d^2 ; take out square factors
            n=c.numerator*c.denominator; k=1; f=2
            while f*f<=n:
                while n%(f*f)==0: n//=f*f; k*=f
                f+=1
            key=("alg",n)
            if key not in s.roots:
                i,z=s.var("sqrt%d"%n); s.assert_(z>0); s.assert_(z*z==n); s.alg[i]=F(n); s.roots[key]=i
            s.roots[c]=norm({(s.roots[key],):F(k,c.denominator)})
        return s.roots[c]
    def rootvar(s,r):
        k=tuple(sorted(r.t.items()))
        if k not in s.roots:
            i,z=s.var("root!%d"%len(s.zv)); s.assert_(z>=0); s.assert_(z*z==zz(r)); s.roots[k]=P({(i,):F(1)})
        return s.roots[k]
    def divide(s,a,b):
        tb=poly(b)
        if len(tb)==1:
            (m,c),=tb.items()
            if len(m)==1 and m[0] in s.alg: return div(mul(a,P({m:F(1)})),c*s.alg[m[0]])
        if s.truth(cmp("=",b,0)): raise SchemeError("division by zero")
        lead=tb[min(tb)]; a=mul(a,1/F(lead)); b=mul(b,1/F(lead)); tb=poly(b)
        if isinstance(b,(int,F)): return a
        if isinstance(a,P) and set(tb)==set(a.t):      # proportional
            q={a.t.get(m,0)/c for m,c in tb.items()}
            if len(q)==1: return fix(q.pop())
        if isinstance(a,(int,F)) and a==0: return 0
        k=(tuple(sorted(poly(a).items())),tuple(sorted(tb.items())))
        if k not in s.divs:
            i,z=s.var("quot!%d"%len(s.zv)); s.assert_(z*zz(b)==zz(a)); s.divs[k]=P({(i,):F(1)})
        return s.divs[k]
    def isint(s,x):
        if isinstance(x,(int,F)): return F(x).denominator==1
        if isinstance(x,P): return all(F(c).denominator==1 and all(v in s.ints for v in m) for m,c in x.t.items())
        return False
    # -------- branching
    def sat(s,*z):
        s.stat["feas"]+=1; t=time.time(); r=s.solver.check(*z); s.stat["time"]+=time.time()-t
        return r
    def truth(s,c):
        if not isinstance(c,SB): return c is not False
        if s.pos<len(s.prefix):
            b=s.prefix[s.pos]; s.pos+=1; s.dec.append(b)
        else:
            if s.stat["nodes"]>s.stat["maxnodes"]: raise Cut("node limit")
            s.stat["nodes"]+=1
            g=None; mt=None; nz=z3.Not(c.z)
            if s.model is not None:
                v=s.model.eval(c.z,model_completion=True); g=True if z3.is_true(v) else False if z3.is_false(v) else None
            if g is True: rt=z3.sat; mt=s.model; rf=s.sat(nz)
            else:
                rt=s.sat(c.z); mt=s.solver.model() if rt==z3.sat else None
                rf=z3.sat if g is False else s.sat(nz)
                if rt==z3.unsat and g is None and rf==z3.sat: s.model=s.solver.model()
            if rt!=z3.unsat: s.model=mt
            if rt==z3.unsat and rf==z3.unsat: raise Infeasible()
            if rt==z3.unsat: b=("f",False)
            elif rf==z3.unsat: b=("f",True)
            else:
                b=("b",True); s.pend.append(s.dec+[("b",False)])
            s.dec.append(b); s.pos+=1
        if b[0]=="b": s.assert_(c.z if b[1] else z3.Not(c.z))
        return b[1]
    def conc(s,x):
        """fork over the integer values of x"""
        x=fix(x)
        if isinstance(x,int): return x
        if not isinstance(x,P): raise Unmodelled("integer expected")
        z=zz(x)
        while True:
            if s.pos<len(s.prefix):
                b=s.prefix[s.pos]; s.pos+=1; s.dec.append(b)
            else:
                if s.sat()!=z3.sat: raise Infeasible()
                v=s.solver.model().eval(z,model_completion=True)
                if not z3.is_rational_value(v) or v.denominator_as_long()!=1: raise Unmodelled("non-integer value where an integer is needed")
                v=v.numerator_as_long(); b=("v",v)
                if s.sat(z!=v)!=z3.unsat: s.pend.append(s.dec+[("n",v)])
                s.dec.append(b); s.pos+=1
            if b[0]=="v": s.assert_(z==b[1]); return b[1]
            s.assert_(z!=b[1])
    def round(s,x,mode):
        import math
        x=fix(x)
        if isinstance(x,int): return x
        if isinstance(x,F): return {"round":lambda v:round(v),"floor":math.floor,"ceiling":math.ceil,"truncate":math.trunc}[mode](x)
        if s.isint(x): return x
        i,z=s.var("int!%d"%len(s.zv),True); q=s.zv[i]; zx=zz(x); p=P({(i,):F(1)})
        if mode=="truncate": mode="ceiling" if s.truth(cmp("<",x,0)) else "floor"
        if mode=="floor": s.assert_(q<=zx); s.assert_(zx<q+1)
        elif mode=="ceiling": s.assert_(q>=zx); s.assert_(zx>q-1)
        else:
            h=z3.RealVal("1/2"); s.assert_(zx-q<=h); s.assert_(q-zx<=h)
            s.assert_(z3.Implies(z3.Or(zx-q==h,q-zx==h),z%2==0))
        return s.conc(p)
    def quotient(s,a,b,what):
        a,b=fix(a),fix(b)
        if isinstance(a,int) and isinstance(b,int):
            if b==0: raise SchemeError("division by zero")
            q=abs(a)//abs(b)*(1 if (a<0)==(b<0) else -1)
            return {"q":q,"r":a-q*b,"m":a%b}[what]
        if not (s.isint(a) and s.isint(b)): raise Unmodelled("quotient of non-integers")
        if s.truth(cmp("=",b,0)): raise SchemeError("division by zero")
        na=s.truth(cmp("<",a,0)); nbb=s.truth(cmp("<",b,0)); A=neg(a) if na else a; B=neg(b) if nbb else b
        k=("iq",tuple(sorted(poly(A).items())),tuple(sorted(poly(B).items())))
        if k not in s.divs:
            i,z=s.var("iquo!%d"%len(s.zv),True); q=s.zv[i]; s.assert_(q>=0); s.assert_(q*zz(B)<=zz(A)); s.assert_(zz(A)<q*zz(B)+zz(B)); s.divs[k]=P({(i,):F(1)})
        q=s.divs[k]; q=neg(q) if na!=nbb else q
        if what=="q": return q
        r=sub(a,mul(q,b))
        if what=="m" and na!=nbb and not s.truth(cmp("=",r,0)): r=add(r,b)
        return r
    # -------- obligations
    def check(s,label,c):
        s.stat["obl"]+=1; s.stat["labels"][label]=s.stat["labels"].get(label,0)+1
        if not isinstance(c,SB):
            if c is not False: s.stat["triv"]+=1; return
            z=z3.BoolVal(True)
        else: z=z3.Not(c.z)
        t=time.time(); s.stat["queries"]+=1; r=s.solver.check(z); s.stat["time"]+=time.time()-t
        if r==z3.unsat: s.stat["unsat"]+=1; return
        if r==z3.unknown: s.stat["unknown"]+=1; s.stat["undis"].append((label,"solver gave no answer")); return
        s.stat["sat"]+=1
        s.stat["cex"].append((label,s.values(s.solver.model())))
    def values(s,m):
        r={}
        for n,z in s.inputs:
            v=m.eval(z,model_completion=True)
            if z3.is_int_value(v): r[n]=str(v.as_long())
            elif z3.is_rational_value(v): r[n]="%d/%d"%(v.numerator_as_long(),v.denominator_as_long())
            else: v=v.approx(20); r[n]="%d/%d"%(v.numerator_as_long(),v.denominator_as_long())
        return r
def W(): return World.cur
def truth(c): return c is not False if not isinstance(c,SB) else World.cur.truth(c)
# ---------------------------------------------------------------- reader
TOK=re.compile(r'''\s+|;[^\n]*|\#!.*?!\#|\#\|.*?\|\#|(?P<str>"(?:[^"\\]|\\.)*")|(?P<char>\#\\(?:[A-Za-z]+|.))|(?P<vec>\#\()|(?P<par>[()\[\]])|(?P<q>'|`|,@|,)|(?P<atom>[^\s()\[\]";]+)''',re.S)
def read_all(text):
    toks=[]; pos=0
    while pos<len(text):
        m=TOK.match(text,pos)
        if not m: raise Unmodelled("reader: "+text[pos:pos+20])
        pos=m.end()
        for k in ("str","char","vec","par","q","atom"):
            v=m.group(k)
            if v is not None: toks.append((k,v,m.start(),m.end())); break
    i=0; out=[]
    def rd():
        nonlocal i
        k,v,st,en=toks[i]; i+=1
        if k=="par" and v in "([":
            xs=[]; tail=NIL
            while True:
                if i>=len(toks): raise Unmodelled("reader: unbalanced")
                if toks[i][1] in (")","]") and toks[i][0]=="par": i+=1; break
                if toks[i][:2]==("atom","."): i+=1; tail=rd(); continue
                xs.append(rd())
            return mklist(xs,tail)
        if k=="vec":
            xs=[]
            while not(toks[i][0]=="par" and toks[i][1]==")"): xs.append(rd())
            i+=1; return xs
        if k=="q": return mklist([sy({"'":"quote","`":"quasiquote",",":"unquote",",@":"unquote-splicing"}[v]),rd()])
        if k=="str": return v[1:-1].encode().decode("unicode_escape")
        if k=="char": n=v[2:]; return Char({"space":" ","newline":"\n","nl":"\n","tab":"\t","ht":"\t","cr":"\r","vt":"\v"}.get(n,n))
        return atom(v)
    while i<len(toks):
        st=toks[i][2]; x=rd(); out.append((x,text[st:toks[i-1][3]]))
    return out
def atom(v):
    if v in("#t","#true"): return True
    if v in("#f","#false"): return False
    if v.startswith("#:"): return sy(v)
    if re.fullmatch(r'[+-]?\d+',v): return int(v)
    if re.fullmatch(r'[+-]?\d+/\d+',v): return fix(F(v))
    if re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?',v): return fix(F(v))
    return sy(v)
# ---------------------------------------------------------------- evaluator (compiles to Python closures)
class Env:
    __slots__=("d","up")
    def __init__(s,d,up): s.d=d; s.up=up
class Closure:
    __slots__=("pars","rest","body","env","name","opt")
    def __init__(s,pars,rest,body,env,opt=()): s.pars=pars; s.rest=rest; s.body=body; s.env=env; s.name=None; s.opt=opt
class Prim:
    __slots__=("f","name","arity")
    def __init__(s,f,name,arity=None): s.f=f; s.name=name; s.arity=arity
class TC:
    __slots__=("f","a")
    def __init__(s,f,a): s.f=f; s.a=a
class Interp:
    def __init__(s): s.glob={}; s.macros={}; s.mcache={}
    # ---- application
    def apply(s,f,a):
        while True:
            if isinstance(f,Closure):
                n=len(f.pars); d=dict(zip(f.pars,a))
                if len(a)<n or (f.rest is None and len(a)>n+len(f.opt)): raise SchemeError("wrong number of arguments to %s"%(f.name or "procedure"))
                e=Env(d,f.env); k=n
                for nm,df in f.opt:
                    if k<len(a): d[nm]=a[k]; k+=1
                    else: d[nm]=s.force(df(e)) if df else False
                if f.rest is not None: d[f.rest]=mklist(a[k:])
                r=f.body(e)
            elif isinstance(f,Prim): r=f.f(*a)
            else: raise SchemeError("wrong type to apply: %r"%(f,))
            if isinstance(r,TC): f,a=r.f,r.a; continue
            return r
    def force(s,r):
        while isinstance(r,TC): r=s.apply(r.f,r.a)
        return r
    def ev(s,x): return s.force(s.comp(x,None)(None))
    # ---- compile
    def comp(s,x,sc,tail=False):
        if isinstance(x,Sy): return s.ref(x)
        if not isinstance(x,Pair): return lambda e:x
        h=x.a
        if isinstance(h,Sy):
            if h in s.macros and not (sc and any(h in q for q in sc)):
                return s.comp(s.apply(s.macros[h],pylist(x.d)),sc,tail)
            m=getattr(s,"sf_"+SPECIAL.get(h,"none"),None)
            if m and not (sc and any(h in q for q in sc)): return m(x,sc,tail)
        f=s.comp(h,sc); a=[s.comp(y,sc) for y in pylist(x.d)]; frc=s.force; app=s.apply
        if tail: return lambda e: TC(frc(f(e)),[frc(y(e)) for y in a])
        def call(e): return app(frc(f(e)),[frc(y(e)) for y in a])
        return call
    def ref(s,x):
        g=s.glob
        def r(e):
            while e is not None:
                if x in e.d: return e.d[x]
                e=e.up
            try: return g[x]
            except KeyError: raise Unmodelled("unbound variable "+x)
        return r
    def body(s,forms,sc,tail):
        if not forms: return lambda e:UNS
        cs=[s.comp(f,sc,tail and i==len(forms)-1) for i,f in enumerate(forms)]
        if len(cs)==1: return cs[0]
        frc=s.force; last=cs[-1]; init=cs[:-1]
        def b(e):
            for c in init: frc(c(e))
            return last(e)
        return b
    def lam(s,params,forms,sc):
        ps=[]; rest=None; opt=[]; mode=0
        p=params
        while isinstance(p,Pair):
            q=p.a
            if q=="#:optional": mode=1
            elif q=="#:rest": rest=p.d.a; break
            elif isinstance(q,Pair): opt.append((q.a,s.comp(q.d.a,(sc or ())+({},))))
            elif mode: opt.append((q,None))
            else: ps.append(q)
            p=p.d
        if isinstance(p,Sy): rest=p
        scope=set(ps)|{n for n,_ in opt}|({rest} if rest else set())
        nsc=(sc or ())+(scope,)
        b=s.body(forms,nsc,True)
        return lambda e: Closure(ps,rest,b,e,opt)
    def sf_quote(s,x,sc,t): v=x.d.a; return lambda e:v
    def sf_if(s,x,sc,t):
        l=pylist(x.d); c=s.comp(l[0],sc); a=s.comp(l[1],sc,t); b=s.comp(l[2],sc,t) if len(l)>2 else (lambda e:UNS); frc=s.force
        return lambda e: a(e) if truth(frc(c(e))) else b(e)
    def sf_define(s,x,sc,t):
        tgt=x.d.a
        if isinstance(tgt,Pair):
            while isinstance(tgt.a,Pair): # curried define
                return s.sf_define(mklist([sy("define"),tgt.a,Pair(sy("lambda"),Pair(tgt.d,x.d.d))]),sc,t)
            name=tgt.a
            if sc: sc[-1].add(name)
            v=s.lam(tgt.d,pylist(x.d.d),sc)
        else:
            name=tgt
            if sc and isinstance(sc[-1],set): sc[-1].add(name)
            v=s.comp(x.d.d.a,sc) if x.d.d is not NIL else (lambda e:UNS)
        g=s.glob; frc=s.force
        def d(e):
            r=frc(v(e))
            if isinstance(r,Closure) and r.name is None: r.name=name
            if e is None: g[name]=r
            else: e.d[name]=r
            return UNS
        return d
    def sf_set(s,x,sc,t):
        name=x.d.a; v=s.comp(x.d.d.a,sc); g=s.glob; frc=s.force
        def st(e):
            r=frc(v(e)); q=e
            while q is not None:
                if name in q.d: q.d[name]=r; return UNS
                q=q.up
            if name not in g: raise Unmodelled("set! of unbound "+name)
            g[name]=r; return UNS
        return st
    def sf_lambda(s,x,sc,t): return s.lam(x.d.a,pylist(x.d.d),sc)
    def sf_begin(s,x,sc,t): return s.body(pylist(x.d),sc,t)
    def sf_let(s,x,sc,t):
        if isinstance(x.d.a,Sy):
            name=x.d.a; bs=[pylist(b) for b in pylist(x.d.d.a)]; forms=pylist(x.d.d.d)
            fl=s.lam(mklist([b[0] for b in bs]),forms,(sc or ())+({name},)); iv=[s.comp(b[1],sc) for b in bs]; frc=s.force
            def nl(e):
                ne=Env({},e); f=fl(ne); f.name=name; ne.d[name]=f
                a=[frc(v(e)) for v in iv]
                return TC(f,a) if t else s.apply(f,a)
            return nl
        bs=[pylist(b) if isinstance(b,Pair) else [b,UNS] for b in pylist(x.d.a)]; iv=[s.comp(b[1],sc) for b in bs]; ns=[b[0] for b in bs]
        scope=set(ns); b=s.body(pylist(x.d.d),(sc or ())+(scope,),t); frc=s.force
        return lambda e: b(Env({n:frc(v(e)) for n,v in zip(ns,iv)},e))
    def sf_letstar(s,x,sc,t):
        bs=pylist(x.d.a)
        if len(bs)<=1: return s.sf_let(x,sc,t)
        return s.comp(mklist([sy("let"),mklist([bs[0]]),Pair(sy("let*"),Pair(mklist(bs[1:]),x.d.d))]),sc,t)
    def sf_letrec(s,x,sc,t):
        bs=[pylist(b) for b in pylist(x.d.a)]; nsc=(sc or ())+({b[0] for b in bs},); iv=[(b[0],s.comp(b[1],nsc)) for b in bs]; b=s.body(pylist(x.d.d),nsc,t); frc=s.force
        def r(e):
            ne=Env({},e)
            for n,v in iv: ne.d[n]=frc(v(ne))
            return b(ne)
        return r
    def sf_cond(s,x,sc,t):
        cl=[]; frc=s.force
        for c in pylist(x.d):
            l=pylist(c)
            if l[0]=="else": cl.append((None,s.body(l[1:],sc,t),0))
            elif len(l)==1: cl.append((s.comp(l[0],sc),None,1))
            elif l[1]=="=>": cl.append((s.comp(l[0],sc),s.comp(l[2],sc),2))
            else: cl.append((s.comp(l[0],sc),s.body(l[1:],sc,t),0))
        def f(e):
            for c,b,k in cl:
                if c is None: return b(e)
                v=frc(c(e))
                if truth(v):
                    return b(e) if k==0 else v if k==1 else s.apply(frc(b(e)),[v])
            return UNS
        return f
    def sf_case(s,x,sc,t):
        k=s.comp(x.d.a,sc); cl=[]; frc=s.force
        for c in pylist(x.d.d): cl.append((None if c.a=="else" else pylist(c.a),s.body(pylist(c.d),sc,t)))
        def f(e):
            v=frc(k(e))
            for d,b in cl:
                if d is None or any(truth(eqv(v,y)) for y in d): return b(e)
            return UNS
        return f
    def sf_and(s,x,sc,t):
        cs=[s.comp(y,sc) for y in pylist(x.d)]; frc=s.force
        def f(e):
            v=True
            for c in cs:
                v=frc(c(e))
                if c is not cs[-1] and not truth(v): return False
            return v
        return f
    def sf_or(s,x,sc,t):
        cs=[s.comp(y,sc) for y in pylist(x.d)]; frc=s.force
        def f(e):
            v=False
            for c in cs:
                v=frc(c(e))
                if c is not cs[-1] and truth(v): return True if isinstance(v,SB) else v
            return v
        return f
    def sf_when(s,x,sc,t):
        c=s.comp(x.d.a,sc); b=s.body(pylist(x.d.d),sc,t); un=x.a=="unless"; frc=s.force
        return lambda e: b(e) if truth(frc(c(e)))!=un else UNS
    def sf_do(s,x,sc,t):
        vs=[pylist(v) for v in pylist(x.d.a)]; te=pylist(x.d.d.a); nsc=(sc or ())+({v[0] for v in vs},)
        iv=[s.comp(v[1],sc) for v in vs]; st=[s.comp(v[2],nsc) if len(v)>2 else None for v in vs]; c=s.comp(te[0],nsc); res=s.body(te[1:],nsc,False); b=s.body(pylist(x.d.d.d),nsc,False); frc=s.force
        def f(e):
            ne=Env({v[0]:frc(i(e)) for v,i in zip(vs,iv)},e)
            while not truth(frc(c(ne))):
                frc(b(ne))
                ne=Env({v[0]:(frc(q(ne)) if q else ne.d[v[0]]) for v,q in zip(vs,st)},e)
            return frc(res(ne))
        return f
    def sf_quasi(s,x,sc,t):
        def q(y):
            if isinstance(y,Pair):
                if y.a=="unquote": return y.d.a
                if isinstance(y.a,Pair) and y.a.a=="unquote-splicing": return mklist([sy("append"),y.a.d.a,q(y.d)])
                return mklist([sy("cons"),q(y.a),q(y.d)])
            return mklist([sy("quote"),y])
        return s.comp(q(x.d.a),sc,t)
    def sf_defmacro(s,x,sc,t):
        if isinstance(x.d.a,Pair): name=x.d.a.a; pars=x.d.a.d; forms=pylist(x.d.d)
        else: name=x.d.a; pars=x.d.d.a; forms=pylist(x.d.d.d)
        s.macros[name]=s.lam(pars,forms,None)(None)
        return lambda e:UNS
    def sf_defined(s,x,sc,t):
        v=s.comp(x.d.a,sc); g=s.glob
        return lambda e: s.force(v(e)) in g
    def sf_receive(s,x,sc,t):
        f=s.lam(x.d.a,pylist(x.d.d.d),sc); v=s.comp(x.d.d.a,sc)
        def r(e):
            vals=s.force(v(e)); vals=vals.v if isinstance(vals,Values) else [vals]
            return s.apply(f(e),vals)
        return r
    def sf_nop(s,x,sc,t): return lambda e:UNS
    def sf_defvar(s,x,sc,t): return s.sf_define(mklist([sy("define"),x.d.a,x.d.d.a]),sc,t)
    def sf_defout(s,x,sc,t):
        name=x.d.a; g=s.glob
        def f(e): g[name]=UNS; return UNS
        return f
class Values:
    def __init__(s,v): s.v=v
SPECIAL={"quote":"quote","if":"if","define":"define","define-public":"define","define*":"define","set!":"set","lambda":"lambda","lambda*":"lambda","begin":"begin","let":"let","let*":"letstar","letrec":"letrec","letrec*":"letrec","cond":"cond","case":"case","and":"and","or":"or","when":"when","unless":"when","do":"do","quasiquote":"quasi","defmacro-public":"defmacro","defmacro":"defmacro","define-macro":"defmacro","defined?":"defined","define-param":"defvar","define-input-var":"defvar","define-input-output-var":"defvar","define-output-var":"defout","define-external-function":"nop","define-class":"nop","use-modules":"nop","receive":"receive"}
# ---------------------------------------------------------------- primitives
def eqv(a,b):
    if a is b: return True
    if isinstance(a,bool) or isinstance(b,bool): return a is b
    if isnum(a) and isnum(b): return cmp("=",a,b)
    if isinstance(a,Sy) or isinstance(b,Sy): return isinstance(a,Sy) and isinstance(b,Sy) and str(a)==str(b)
    if isinstance(a,Char) and isinstance(b,Char): return a==b
    if isinstance(a,str) and isinstance(b,str): return a=="" and b==""
    return False
def equal(a,b):
    if isinstance(a,Pair) and isinstance(b,Pair):
        r=True
        while isinstance(a,Pair) and isinstance(b,Pair):
            r=band(r,equal(a.a,b.a))
            if r is False: return False
            a,b=a.d,b.d
        return band(r,equal(a,b))
    if isinstance(a,list) and isinstance(b,list):
        if len(a)!=len(b): return False
        r=True
        for x,y in zip(a,b):
            r=band(r,equal(x,y))
            if r is False: return False
        return r
    if isinstance(a,str) and isinstance(b,str) and not isinstance(a,Sy) and not isinstance(b,Sy): return type(a)==type(b) and str(a)==str(b)
    return eqv(a,b)
def intp(x):
    if not isnum(x): raise SchemeError("not a number")
    return World.cur.isint(x)
def make_prims(I):
    g=I.glob
    def P_(name,arity=None):
        def dec(f): g[sy(name)]=Prim(f,name,arity); return f
        return dec
    def fold(f,unit):
        def r(*a):
            v=unit
            for x in a: v=f(v,x)
            return v
        return r
    g[sy("+")]=Prim(fold(add,0),"+",0); g[sy("*")]=Prim(fold(mul,1),"*",0)
    def minus(a,*b):
        if not b: return neg(a)
        for x in b: a=sub(a,x)
        return a
    g[sy("-")]=Prim(minus,"-",1)
    def divp(a,*b):
        if not b: return div(1,a)
        for x in b: a=div(a,x)
        return a
    g[sy("/")]=Prim(divp,"/",1)
    def chain(op,sw=False,inv=False):
        def r(*a):
            v=True
            for x,y in zip(a,a[1:]): v=band(v,cmp(op,y,x) if sw else cmp(op,x,y))
            return v
        return r
    g[sy("<")]=Prim(chain("<"),"<"); g[sy(">")]=Prim(chain("<",True),">"); g[sy("<=")]=Prim(chain("<="),"<="); g[sy(">=")]=Prim(chain("<=",True),">="); g[sy("=")]=Prim(chain("="),"=")
    L=lambda n,f,ar=None: g.__setitem__(sy(n),Prim(f,n,ar))
    L("zero?",lambda x:cmp("=",x,0)); L("positive?",lambda x:cmp("<",0,x)); L("negative?",lambda x:cmp("<",x,0))
    L("1+",lambda x:add(x,1)); L("1-",lambda x:sub(x,1))
    L("abs",absv); L("magnitude",absv); L("sqrt",sqrt)
    def mm(sw):
        def r(a,*b):
            for x in b:
                if truth(cmp("<",x,a) if sw else cmp("<",a,x)): a=x
            return a
        return r
    L("min",mm(True)); L("max",mm(False))
    for n in ("round","floor","ceiling","truncate"): L(n,lambda x,n=n:World.cur.round(x,n))
    L("quotient",lambda a,b:World.cur.quotient(a,b,"q")); L("remainder",lambda a,b:World.cur.quotient(a,b,"r")); L("modulo",lambda a,b:World.cur.quotient(a,b,"m"))
    L("exact->inexact",lambda x:x); L("inexact->exact",lambda x:x); L("exact",lambda x:x); L("inexact",lambda x:x)
    def expt(a,b):
        b=World.cur.conc(b); r=1
        for _ in range(abs(b)): r=mul(r,a)
        return div(1,r) if b<0 else r
    L("expt",expt)
    L("even?",lambda x:cmp("=",World.cur.quotient(x,2,"r"),0)); L("odd?",lambda x:bnot(cmp("=",World.cur.quotient(x,2,"r"),0)))
    L("real-part",re_); L("imag-part",im_); L("make-rectangular",cx)
    L("number?",isnum); L("complex?",isnum); L("real?",lambda x:isnum(x) and not isinstance(x,Cplx)); L("rational?",lambda x:isnum(x) and not isinstance(x,Cplx))
    L("integer?",lambda x:isnum(x) and World.cur.isint(x)); L("exact?",lambda x:isinstance(x,int)); L("inexact?",lambda x:not isinstance(x,int))
    class Ang:
        def __init__(s,d): s.d=d
    def angle(d): return Ang(d)
    def polar(r,a):
        if not isinstance(a,Ang): raise Unmodelled("make-polar")
        d=a.d; n=absv(d)
        if isinstance(n,Root): n=World.cur.rootvar(n.r)
        if truth(cmp("=",n,0)): return r
        return mul(r,cx(div(re_(d),n),div(im_(d),n)))
    L("angle",angle); L("make-polar",polar)
    # booleans, symbols
    L("not",bnot); L("eq?",eqv); L("eqv?",eqv); L("equal?",equal)
    L("boolean?",lambda x:isinstance(x,(bool,SB))); L("symbol?",lambda x:isinstance(x,Sy)); L("procedure?",lambda x:isinstance(x,(Closure,Prim)))
    L("string?",lambda x:isinstance(x,str) and not isinstance(x,(Sy,Char))); L("char?",lambda x:isinstance(x,Char))
    L("symbol->string",lambda x:str(x)); L("string->symbol",sy)
    # pairs and lists
    L("cons",Pair); L("pair?",lambda x:isinstance(x,Pair)); L("null?",lambda x:x is NIL); L("list",lambda *a:mklist(a),0)
    def cxr(path):
        def r(x):
            for c in reversed(path):
                if not isinstance(x,Pair): raise SchemeError("c%sr of a non-pair"%path)
                x=x.a if c=="a" else x.d
            return x
        return r
    from itertools import product
    for n in (1,2,3,4):
        for p in product("ad",repeat=n): L("c%sr"%"".join(p),cxr("".join(p)))
    def setcar(p,v): p.a=v; return UNS
    def setcdr(p,v): p.d=v; return UNS
    L("set-car!",setcar); L("set-cdr!",setcdr)
    def islist(x):
        while isinstance(x,Pair): x=x.d
        return x is NIL
    L("list?",islist); L("length",lambda l:len(pylist(l)))
    def append(*a):
        if not a: return NIL
        r=a[-1]
        for x in reversed(a[:-1]): r=mklist(pylist(x),r)
        return r
    L("append",append); L("append!",append); L("reverse",lambda l:mklist(pylist(l)[::-1])); L("reverse!",lambda l:mklist(pylist(l)[::-1])); L("list-copy",lambda l:mklist(pylist(l)))
    def idx(l,i,n):
        i=World.cur.conc(i)
        if i<0 or i>=n: raise SchemeError("index out of range")
        return i
    L("list-ref",lambda l,i:(lambda p:p[idx(p,i,len(p))])(pylist(l)))
    def ltail(l,k):
        for _ in range(World.cur.conc(k)):
            if not isinstance(l,Pair): raise SchemeError("list-tail")
            l=l.d
        return l
    L("list-tail",ltail); L("list-cdr-ref",ltail); L("drop",ltail)
    def lhead(l,k):
        p=pylist(l); k=World.cur.conc(k)
        if k<0 or k>len(p): raise SchemeError("list-head")
        return mklist(p[:k])
    L("list-head",lhead); L("take",lhead); L("last-pair",lambda l:(lambda p:Pair(p[-1],NIL))(pylist(l)) if l is not NIL else NIL); L("last",lambda l:pylist(l)[-1])
    L("cons*",lambda *a:mklist(a[:-1],a[-1])); L("iota",lambda n,st=0,step=1:mklist([add(st,mul(step,i)) for i in range(World.cur.conc(n))])); L("make-list",lambda n,v=UNS:mklist([v]*World.cur.conc(n)))
    def assx(eq):
        def r(k,l,*cmpf):
            while isinstance(l,Pair):
                if truth(eq(k,l.a.a)): return l.a
                l=l.d
            return False
        return r
    def memx(eq):
        def r(k,l):
            while isinstance(l,Pair):
                if truth(eq(k,l.a)): return l
                l=l.d
            return False
        return r
    L("assoc",assx(equal)); L("assq",assx(eqv)); L("assv",assx(eqv)); L("member",memx(equal)); L("memq",memx(eqv)); L("memv",memx(eqv))
    def assref(eq):
        a=assx(eq)
        def r(l,k):
            v=a(k,l); return v.d if v is not False else False
        return r
    L("assoc-ref",assref(equal)); L("assq-ref",assref(eqv)); L("assv-ref",assref(eqv))
    L("delete",lambda x,l:mklist([y for y in pylist(l) if not truth(equal(x,y))]))
    ap=I.apply
    def map_(f,*ls): 
        ls=[pylist(l) for l in ls]; n=min(len(l) for l in ls)
        return mklist([ap(f,[l[i] for l in ls]) for i in range(n)])
    def foreach(f,*ls): map_(f,*ls); return UNS
    L("map",map_); L("for-each",foreach); L("map-in-order",map_); L("append-map",lambda f,*l:append(*pylist(map_(f,*l))))
    L("apply",lambda f,*a:TC(f,list(a[:-1])+pylist(a[-1])))
    L("filter",lambda f,l:mklist([x for x in pylist(l) if truth(ap(f,[x]))])); L("remove",lambda f,l:mklist([x for x in pylist(l) if not truth(ap(f,[x]))]))
    def foldl(f,i,*ls):
        ls=[pylist(l) for l in ls]
        for k in range(min(map(len,ls))): i=ap(f,[l[k] for l in ls]+[i])
        return i
    L("fold",foldl); L("reduce",lambda f,i,l:(lambda p:i if not p else foldl(f,p[0],mklist(p[1:])))(pylist(l)))
    def anyp(f,*ls):
        ls=[pylist(l) for l in ls]
        for k in range(min(map(len,ls))):
            v=ap(f,[l[k] for l in ls])
            if truth(v): return v
        return False
    def everyp(f,*ls):
        ls=[pylist(l) for l in ls]; v=True
        for k in range(min(map(len,ls))):
            v=ap(f,[l[k] for l in ls])
            if not truth(v): return False
        return v
    L("any",anyp); L("every",everyp); L("or-map",anyp); L("and-map",everyp)
    def find(f,l):
        for x in pylist(l):
            if truth(ap(f,[x])): return x
        return False
    L("find",find); L("count",lambda f,l:sum(1 for x in pylist(l) if truth(ap(f,[x]))))
    def sort(l,lt):
        v=isinstance(l,list); xs=list(l) if v else pylist(l); r=[]
        for x in xs:
            i=len(r)
            while i>0 and truth(ap(lt,[x,r[i-1]])): i-=1
            r.insert(i,x)
        return r if v else mklist(r)
    L("sort",sort); L("sort!",sort); L("stable-sort",sort); L("sort-list",sort)
    # vectors
    L("vector",lambda *a:list(a),0); L("vector?",lambda x:isinstance(x,list)); L("make-vector",lambda n,v=UNS:[v]*World.cur.conc(n)); L("vector-length",len)
    def vref(v,i):
        if not isinstance(v,list): raise SchemeError("not a vector")
        return v[idx(v,i,len(v))]
    L("vector-ref",vref)
    def vset(v,i,x): v[idx(v,i,len(v))]=x; return UNS
    L("vector-set!",vset); L("vector->list",lambda v:mklist(v)); L("list->vector",pylist); L("vector-copy",list)
    def vfill(v,x): v[:]=[x]*len(v); return UNS
    L("vector-fill!",vfill)
    # hash tables (association lists with equal?)
    class HT:
        def __init__(s): s.l=[]
    L("make-hash-table",lambda *a:HT())
    def hget(h,k):
        for p in h.l:
            if truth(equal(p[0],k)): return p
        return None
    def hset(h,k,v):
        p=hget(h,k)
        if p: p[1]=v
        else: h.l.append([k,v])
        return v
    for n in ("","q","v"): L("hash%s-ref"%n,lambda h,k,d=False:(lambda p:p[1] if p else d)(hget(h,k))); L("hash%s-set!"%n,hset)
    # strings
    L("string-append",lambda *a:"".join(a)); L("string-length",len); L("string-null?",lambda x:x==""); L("string=?",lambda a,b:str(a)==str(b)); L("substring",lambda x,a,b=None:x[a:b]); L("string-ref",lambda x,i:Char(x[i])); L("string-copy",lambda x:x); L("string-prefix?",lambda a,b:b.startswith(a)); L("make-string",lambda n,c=" ":c*n)
    L("number->string",lambda x,*b:str(x) if isinstance(x,int) else (_ for _ in ()).throw(Unmodelled("number->string")))
    L("file-exists?",lambda f:False)
    # output
    def disp(x,*port): World.cur.out.append(x); return UNS
    L("display",disp); L("write",disp); L("newline",lambda *p:disp("\n")); L("flush-all-ports",lambda *a:UNS); L("force-output",lambda *a:UNS)
    L("current-time",lambda:0)
    # control
    def error(*a): raise SchemeError("error: "+" ".join(str(x) for x in a))
    L("error",error)
    def throw(k,*a): raise Throw(k,list(a))
    L("throw",throw)
    def catch(key,thunk,handler,*pre):
        try: return ap(thunk,[])
        except Throw as t:
            if key is True or key==t.key: return ap(handler,[t.key]+t.args_)
            raise
        except SchemeError as e:
            if key is True: return ap(handler,[sy("misc-error"),str(e)])
            raise
    L("catch",catch)
    L("values",lambda *a:a[0] if len(a)==1 else Values(list(a)))
    L("call-with-values",lambda p,c:(lambda v:ap(c,v.v if isinstance(v,Values) else [v]))(ap(p,[])))
    def dynwind(a,b,c):
        ap(a,[]); r=ap(b,[]); ap(c,[]); return r
    L("dynamic-wind",dynwind)
    def arity(p):
        if isinstance(p,Closure): return mklist([len(p.pars),len(p.opt),p.rest is not None])
        if isinstance(p,Prim) and p.arity is not None: return mklist([p.arity,0,True])
        raise Unmodelled("arity of a primitive")
    L("procedure-minimum-arity",arity); L("procedure-property",lambda p,k:arity(p) if k=="arity" else False)
    # symbolic inputs and obligations (defined in scmreplay.scm for the replay in Guile)
    L("sym-real",lambda n:World.cur.input(str(n))); L("sym-int",lambda n,lo,hi:World.cur.input(str(n),True,lo,hi))
    L("pick-int",lambda n,lo,hi:World.cur.conc(World.cur.input(str(n),True,lo,hi)))
    def assume(c):
        if isinstance(c,SB):
            World.cur.assert_(c.z)
            if World.cur.sat()==z3.unsat: raise Infeasible()
        elif c is False: raise Infeasible()
        return UNS
    L("assume",assume)
    def check(l,c): World.cur.check(l,c); return UNS
    L("check",check); L("check=",lambda l,a,b:check(l,equal(a,b))); L("check<=",lambda l,a,b:check(l,cmp("<=",a,b)))
    def integral(x):
        if isinstance(x,(int,F)): return F(x).denominator==1
        if World.cur.isint(x): return True
        return SB(z3.IsInt(zz(x)))
    L("integral?",integral)
    def orv(*a):
        if any(x is True for x in a): return True
        z=[x.z for x in a if isinstance(x,SB)]
        return SB(z3.Or(z)) if z else False
    def andv(*a):
        r=True
        for x in a: r=band(r,x)
        return r
    L("or*",orv); L("and*",andv)
    def reached(n): World.cur.reached.add(str(n)); return UNS
    L("reached",reached)
    def capt(): r=mklist(World.cur.out); World.cur.out=[]; return r
    L("captured",capt)
    L("show",lambda *a:UNS)
# ---------------------------------------------------------------- program assembly
def htext(h): return "\n".join(open(os.path.join(VERIF,"harness",x)).read() for x in h.split("+"))
SKIPHEADS={"define-external-function","define-class","include","ctl-set-prompt!","if","set!","use-modules","define-property","define-derived-property","define-post-processed-property"}
def source_forms():
    """[(datum,text,file)] of everything the harnesses may use"""
    r=[]
    for f in ("base/utils.scm","base/include.scm","base/vector3.scm","base/matrix3x3.scm","base/math-utils.scm"):
        r+=[(d,t,f) for d,t in read_all(open(os.path.join(LIBCTL,f)).read())]
    r+=[(d,t,"utils/geom.scm") for d,t in read_all(open(LIBCTL+"/utils/geom.scm").read()) if isinstance(d,Pair) and d.a=="define"]
    txt=open(os.path.join(REPO,"mpb","mpb.scm.in")).read()
    txt=re.sub(r'^@\w+@.*$','',txt,flags=re.M).replace("@LIBCTL_DIR@",LIBCTL).replace("@EIGS_DEFAULT_FLAGS@","0").replace("@MPB_VERSION@","x")
    txt=re.sub(r'@\w+@','0',txt)
    r+=[(d,t,"mpb.scm") for d,t in read_all(txt)]
    return [(d,t,f) for d,t,f in r if isinstance(d,Pair) and d.a not in SKIPHEADS and isinstance(d.a,Sy) and (d.a.startswith("def"))]
def names_defined(forms):
    s=set()
    for d,t,f in forms:
        if f=="mpb.scm" and d.a in("define","define-param") : s.add(str(d.d.a.a if isinstance(d.d.a,Pair) else d.d.a))
    return s
class Explorer:
    def __init__(s,harness,args,maxpaths,budget):
        s.harness=harness; s.args=args; s.maxpaths=maxpaths; s.t0=time.time(); s.budget=budget
        s.stat=dict(feas=0,nodes=0,maxnodes=2000000,time=0.0,obl=0,triv=0,queries=0,unsat=0,sat=0,unknown=0,undis=[],cex=[],labels={},paths=0,reached=set(),truncated=0,errors=[])
        s.forms=source_forms(); s.hforms=read_all(htext(harness))
        s.used=set()
    def load(s):
        I=Interp(); make_prims(I)
        for d,t,f in s.forms:
            fn=isinstance(d.d.a,Pair) or d.a in("defmacro-public","defmacro","define-macro")
            try: I.ev(d)
            except (Unmodelled,SchemeError) as e:
                if fn: raise
                I.glob.pop(d.d.a,None)     # variables that need classes etc.: not available to the harness
        for d,t in s.hforms: I.ev(d)
        return I
    def run(s):
        st=s.stat; stack=[[]]; snap=None
        while stack:
            if st["paths"]>=s.maxpaths or time.time()-s.t0>s.budget: st["truncated"]+=len(stack); break
            pre=stack.pop()
            w=World.cur=World(pre,st,s.args); nc=len(st["cex"])
            try:
                if snap is None:
                    I=s.load(); mac=dict(I.macros)
                    if not w.zv: snap=dict(I.glob)
                else: I.glob.clear(); I.glob.update(snap); I.macros=dict(mac)
                I.apply(I.glob[sy("main")],list(s.args)); w.reached.add("end"); st["paths"]+=1
            except Infeasible: pass
            except Cut: st["truncated"]+=1
            except SchemeError as e:
                st["paths"]+=1; r=w.sat(); st["obl"]+=1
                if r==z3.sat: st["cex"].append(("no run-time error ("+str(e)[:120]+")",w.values(w.solver.model())))
                elif r==z3.unknown: st["undis"].append(("no run-time error",str(e)[:200]))
            except Unmodelled as e:
                st["paths"]+=1; st["errors"].append(str(e)[:200])
                if len(st["errors"])>5: break
            st["reached"]|=w.reached
            stack+=w.pend
            if len(st["cex"])>=3: break
        return st
def explore(job):
    h,args,mp,bud=job
    res={}
    def body():
        try: res["st"]=Explorer(h,args,mp,bud).run()
        except Exception as e: res["err"]="".join(traceback.format_exception(e))[-1500:]
    sys.setrecursionlimit(1000000); threading.stack_size(768<<20)
    t=threading.Thread(target=body); t.start(); t.join()
    return job,res
# ---------------------------------------------------------------- replay in Guile
def guile_program(harness,args,values):
    out=["(define %%vals '(%s))"%" ".join('("%s" . %s)'%(k,v) for k,v in values.items())]
    out.append(open(os.path.join(VERIF,"harness","scmreplay.scm")).read())
    for d,t,f in source_forms():
        if d.a in("define-param","define-input-var","define-input-output-var") or (d.a=="define" and not isinstance(d.d.a,Pair) and f in("mpb.scm","utils/geom.scm")):
            nm=d.d.a; 
            # text of the value: re-read from the form
            out.append("(define %s (catch #t (lambda () %s) (lambda a #f)))"%(nm,show(d.d.d.a)))
        elif d.a=="define-output-var": out.append("(define %s #f)"%d.d.a)
        else: out.append(t)
    out.append(htext(harness))
    out.append("(%%run (lambda () (main %s)))"%" ".join(str(a) for a in args))
    return "\n".join(out)
def show(x):
    if x is True: return "#t"
    if x is False: return "#f"
    if isinstance(x,Pair):
        r=[]
        while isinstance(x,Pair): r.append(show(x.a)); x=x.d
        return "("+" ".join(r)+("" if x is NIL else " . "+show(x))+")"
    if x is NIL: return "()"
    if isinstance(x,list): return "#("+" ".join(map(show,x))+")"
    if isinstance(x,Char): return "#\\"+x
    if isinstance(x,Sy): return str(x)
    if isinstance(x,str): return json.dumps(x)
    return str(x)
def guile(harness,args,values):
    d=tempfile.mkdtemp(prefix="vscm.")
    try:
        f=os.path.join(d,"r.scm"); open(f,"w").write(guile_program(harness,args,values))
        try: r=subprocess.run(["guile","--no-auto-compile","-s",f],cwd=d,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=60,env=dict(os.environ,GUILE_WARN_DEPRECATED="no",HOME=d))
        except subprocess.TimeoutExpired as e: return -9,"TIMEOUT"
        return r.returncode,r.stdout
    finally: shutil.rmtree(d,ignore_errors=True)
# ---------------------------------------------------------------- a check
class SCheck:
    def __init__(s,pid): s.pid=pid; s.t0=time.time(); s.jobs=[]; s.assum=[]; s.bounds=[]; s.must={}; s.funcs=[]
    def add(s,harness,args=[[]],maxpaths=None,must_reach=("end",),functions=()):
        for a in args: s.jobs.append((harness,list(a),maxpaths or (20000 if QUICK else 400000),400 if QUICK else 7200))
        s.must[harness]=must_reach; s.funcs+=list(functions)
    def run(s):
        import multiprocessing as mp
        tot=dict(feas=0,time=0.0,obl=0,triv=0,queries=0,unsat=0,sat=0,unknown=0,paths=0,truncated=0); labels={}; undis=[]; viol=[]; errs=[]; reached={}
        nj=len(s.jobs); done=0; samples=[]; broken=0
        with mp.get_context("fork").Pool(int(os.environ.get("VP_NPROC","8"))) as pool:
            for job,res in pool.imap_unordered(explore,s.jobs):
                done+=1
                if "err" in res: errs.append(("%s %s"%(job[0],job[1]),res["err"])); broken+=1; continue
                st=res["st"]
                for k in tot: tot[k]+=st[k]
                for k,v in st["labels"].items(): labels[k]=labels.get(k,0)+v
                undis+=[("%s %s: %s"%(job[0],job[1],l),w) for l,w in st["undis"]]+[("%s %s"%(job[0],job[1]),"not modelled: "+e) for e in st["errors"][:2]]
                reached.setdefault(job[0],set()).update(st["reached"])
                if st["truncated"]: print("TRUNCATED",job[0],job[1],st["truncated"],"paths not explored")
                if os.environ.get("VP_V"): print("JOB",job[0],job[1],"paths",st["paths"],"obl",st["obl"],"trunc",st["truncated"],"t %.1f"%st["time"])
                if len(samples)<4: samples.append(dict(harness=job[0],args=job[1],paths=st["paths"],obligations=st["obl"]))
                seen=set()
                for lab,vals in st["cex"]:
                    if lab in seen or len(viol)>=6: continue
                    seen.add(lab)
                    rc,out=guile(job[0],job[1],vals)
                    fails=re.findall(r"^CHECK-FAILED.*$",out,re.M)
                    if os.environ.get("VP_V"): print("REPLAY",lab,vals,rc,out[-600:])
                    fails=[x for x in fails if lab in x or (lab.startswith("no run-time error") and "run-time error" in x)]
                    if fails and "ASSUMPTION-VIOLATED" not in out:
                        d=os.path.join(VERIF,"replays"); os.makedirs(d,exist_ok=True); fn=os.path.join(d,"%s-%d.json"%(s.pid,len(viol)+1))
                        json.dump(dict(property=s.pid,obligation=lab,scheme_harness=job[0],args=job[1],values=vals,guile_output=out[-3000:],how="python3 /verif/check.py --replay %s"%fn),open(fn,"w"),indent=1)
                        viol.append((lab,fails[:4],fn))
                    else: undis.append(("%s %s: %s"%(job[0],job[1],lab),"counterexample %s not confirmed in Guile: %s"%(vals,out[-200:])))
        for h,m in s.must.items():
            for x in m:
                if x not in reached.get(h,()): undis.append((h,"never reached "+x))
        undis+=errs
        wall=time.time()-s.t0
        for l,w in undis[:12]: print("UNDISCHARGED %s: %s"%(l,w))
        ev=dict(property=s.pid,tier="quick" if QUICK else "thorough",seed=int(os.environ.get("VERIF_SEED","1")),level="other",
            coverage=dict(explanation="Symbolic execution of the Scheme source (mpb/mpb.scm.in of /repo's working tree and the libctl library it uses): numbers are exact symbolic reals or integers, every feasible path within the bounds is followed (z3 decides feasibility), each assertion is negated and decided by z3 over all values; sat answers are replayed in the Guile interpreter on the same source.",
                obligations=tot["obl"],discharged=tot["obl"]-tot["sat"]-tot["unknown"],undischarged=len(undis),undischarged_list=[list(map(str,u)) for u in undis[:20]],paths=tot["paths"],queries=tot["queries"],unsat=tot["unsat"],sat=tot["sat"],unknown=tot["unknown"],decided_concretely_on_path=tot["triv"],branch_feasibility_queries=tot["feas"],solver_time_s=round(tot["time"],2),
                functions_encoded=s.funcs,harnesses=[dict(name=j[0],args=[str(x) for x in j[1]]) for j in s.jobs],obligation_kinds=labels,truncated=tot["truncated"],bounds=s.bounds,samples=samples,reached={k:sorted(v) for k,v in reached.items()}),
            assumptions=s.assum,wall_s=round(wall,2),violations=len(viol))
        d=os.path.join(VERIF,"evidence"); os.makedirs(d,exist_ok=True); json.dump(ev,open(os.path.join(d,s.pid+".json"),"w"),indent=1)
        print("%s: obligations=%d discharged=%d undischarged=%d paths=%d queries=%d feas=%d solver=%.1fs wall=%.1fs"%(s.pid,tot["obl"],ev["coverage"]["discharged"],len(undis),tot["paths"],tot["queries"],tot["feas"],tot["time"],wall))
        for lab,f,fn in viol: print("VIOLATION property=%s replay=%s"%(s.pid,fn)); print("   %s\n   %s"%(lab,"; ".join(f)))
        if not viol and broken==nj: return 2
        return 1 if viol else 0
SCM_ASSUM=["real (exact) arithmetic: rounding in floating point is not modelled","the interpreter in engine/scm.py implements the Scheme subset used; counterexamples are confirmed in the real Guile before they are reported","functions implemented in C are replaced by stand-ins that return arbitrary values or record their calls"]
