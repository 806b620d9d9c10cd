"""Compile /repo sources to LLVM IR with clang, replace every operation on
doubles by a call into the symbolic runtime, and link harness executables."""
import os, re, threading, subprocess, hashlib, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
GUILE = ["-I/usr/include/guile/3.0"]
CFG = {  # name -> config.h directory; extra flags
    "complex": ("complex", []), "inv": ("inv", []), "herm": ("herm", []),
    "mpi": ("mpi", []),
    "invmpi": ("invmpi", []),
}
class BuildError(Exception): pass
WORK = None
def work():
    global WORK
    if WORK is None:
        WORK = tempfile.mkdtemp(prefix="vwork.", dir=os.environ.get("VP_TMP", "/tmp"))
    return WORK
def cleanup():
    if WORK and not os.environ.get("VP_KEEP"): shutil.rmtree(WORK, ignore_errors=True)
CACHE = os.environ.get("VP_CACHE")  # development only
_sq=threading.Lock()
def sphere_quad():
    with _sq:
        d=os.path.join(work(),"geninc"); h=os.path.join(d,"sphere-quad.h")
        if not os.path.exists(h):
            os.makedirs(d,exist_ok=True); src=os.path.join(REPO,"src/util/sphere-quad.c"); txt=open(src).read()
            c=os.path.join(CACHE,"sq."+_key(txt)) if CACHE else None
            if c and os.path.exists(c): out=open(c).read()
            else:
                run(["gcc","-w","-O1"]+["-I"+os.path.join(VERIF,"gen","complex"),"-I"+os.path.join(REPO,"src/util"),"-DHAVE_CONFIG_H",src,"-o",d+"/sq","-lm"]); out=subprocess.run([d+"/sq"],stdout=subprocess.PIPE,text=True,check=True,timeout=100).stdout
                if c: os.makedirs(CACHE,exist_ok=True); open(c,"w").write(out)
            # nodes rounded to 12 digits so that mirror-image nodes cancel exactly over the reals
            out=re.sub(r'-?\d+\.\d+(?:[eE][-+]?\d+)?',lambda m:'%.12f'%float(m.group(0)) if abs(float(m.group(0)))>5e-13 else '0.0',out)
            open(h+".t","w").write(out); os.rename(h+".t",h)
        return d
def incs(cfg):
    g = os.path.join(VERIF, "gen")
    fl = ["-DHAVE_CONFIG_H", "-I"+os.path.join(g, CFG[cfg][0])]
    fl += ["-I"+os.path.join(VERIF,"engine"), "-I"+os.path.join(VERIF,"stubs"), "-I"+os.path.join(VERIF,"harness")]
    if CFG[cfg][0] in ("mpi","invmpi"): fl += ["-I"+os.path.join(VERIF,"stubs","mpi")]
    for d in ("src/util","src/matrices","src/matrixio","src/maxwell","mpb","utils"):
        fl.append("-I"+os.path.join(REPO,d))
    fl += ["-I"+sphere_quad(), "-I"+g, "-I/usr/include/hdf5/serial"] + GUILE + CFG[cfg][1]
    return fl
MATH1 = "sqrt cos sin tan atan acos asin exp log tanh cbrt floor ceil rint trunc fabs".split()
MATHN = "atan2 hypot pow fmod modf ldexp copysign fmin fmax fma".split()
REN = {m: "sr_"+m for m in MATH1+MATHN}
REN.update({"round":"sr_round_","exit":"sr_exit","abort":"sr_abort","malloc":"sr_malloc","nearbyint":"sr_rint",
  "llvm.fabs.f64":"sr_fabs","llvm.sqrt.f64":"sr_sqrt","llvm.floor.f64":"sr_floor","llvm.ceil.f64":"sr_ceil",
  "llvm.fmuladd.f64":"sr_fma","llvm.fma.f64":"sr_fma","llvm.minnum.f64":"sr_fmin","llvm.maxnum.f64":"sr_fmax",
  "llvm.rint.f64":"sr_rint","llvm.copysign.f64":"sr_copysign","llvm.trunc.f64":"sr_trunc","llvm.cos.f64":"sr_cos","llvm.sin.f64":"sr_sin","llvm.pow.f64":"sr_pow",
  "llvm.exp.f64":"sr_exp","llvm.log.f64":"sr_log"})
REN_RE = re.compile(r'@(' + '|'.join(re.escape(k) for k in sorted(REN, key=len, reverse=True)) + r')(?=[\s\(,\)])')
BIN_RE = re.compile(r'^(\s*%[\w\.]+ = )f(add|sub|mul|div|rem) (?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*double ([^,]+), (.+?)(, !.*)?$')
NEG_RE = re.compile(r'^(\s*%[\w\.]+ = )fneg double (.+?)(, !.*)?$')
CMP_RE = re.compile(r'^(\s*)(%[\w\.]+) = fcmp (?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*(\w+) double ([^,]+), (.+?)(, !.*)?$')
TOI_RE = re.compile(r'^(\s*)(%[\w\.]+) = fpto([su])i double (.+?) to i(\d+)(, !.*)?$')
TRUNC_RE = re.compile(r'^(\s*%[\w\.]+ = )fptrunc double (.+?) to float(, !.*)?$')
PRED = {"oeq":0,"ogt":1,"oge":2,"olt":3,"ole":4,"one":5,"ueq":8,"ugt":9,"uge":10,"ult":11,"ule":12,"une":13}
DEF_RE = re.compile(r'^define (dso_local )?(.*?)@([\w\.\$]+)\(')
OPN = {"add":"sr_add","sub":"sr_sub","mul":"sr_mul","div":"sr_div","rem":"sr_fmod"}
def transform(ll, weak=True, export=(), globsec=False, rename=None):
    out=[]; cnt=0; used=set(); nops=0
    decl=set(re.findall(r'^declare [^@]*@([\w\.\$]+)\(', ll, re.M))
    defs=set(re.findall(r'^define [^@]*@([\w\.\$]+)\(', ll, re.M))
    for line in ll.split("\n"):
        if line.startswith("declare"):
            m=re.search(r'@([\w\.\$]+)\(',line)
            if m and (m.group(1) in REN): continue
            out.append(line); continue
        if line.startswith("define"):
            m=re.match(r'define (.*?)@([\w\.\$]+)\(',line)
            nm=m.group(2); pre=m.group(1)
            if "internal" in pre:
                if nm in export or "*" in export:
                    line=line.replace("define internal","define weak",1)
            elif weak and not re.search(r'\b(weak|linkonce_odr|available_externally|linkonce)\b',pre):
                line=line.replace("define","define weak",1)
            out.append(line); continue
        if line.startswith("  "):
            m=BIN_RE.match(line)
            if m:
                f=OPN[m.group(2)]; used.add(f); nops+=1
                out.append(f"{m.group(1)}call double @{f}(double {m.group(3)}, double {m.group(4)}){m.group(5) or ''}"); continue
            m=NEG_RE.match(line)
            if m: used.add("sr_neg"); nops+=1; out.append(f"{m.group(1)}call double @sr_neg(double {m.group(2)}){m.group(3) or ''}"); continue
            m=CMP_RE.match(line)
            if m and m.group(3) not in ("true","false"):
                pr=m.group(3); nops+=1
                if pr in("uno","ord"):   # symbolic reals are never NaN
                    f="sr_uno"; used.add(f); cnt+=1; t=f"%srt{cnt}"
                    out.append(f"{m.group(1)}{t} = call i32 @sr_uno(double {m.group(4)}, double {m.group(5)})")
                    out.append(f"{m.group(1)}{m.group(2)} = icmp {'ne' if pr=='uno' else 'eq'} i32 {t}, 0"); continue
                cnt+=1; t=f"%srt{cnt}"; used.add("sr_fcmp")
                out.append(f"{m.group(1)}{t} = call i32 @sr_fcmp(i32 {PRED[pr]}, double {m.group(4)}, double {m.group(5)}){m.group(6) or ''}")
                out.append(f"{m.group(1)}{m.group(2)} = icmp ne i32 {t}, 0"); continue
            m=TOI_RE.match(line)
            if m:
                used.add("sr_fptosi"); nops+=1; w=int(m.group(5))
                if w==64: out.append(f"{m.group(1)}{m.group(2)} = call i64 @sr_fptosi(double {m.group(4)})")
                else:
                    cnt+=1; t=f"%srt{cnt}"
                    out.append(f"{m.group(1)}{t} = call i64 @sr_fptosi(double {m.group(4)})")
                    out.append(f"{m.group(1)}{m.group(2)} = trunc i64 {t} to i{w}")
                continue
            m=TRUNC_RE.match(line)
            if m: used.add("sr_fptrunc"); out.append(f"{m.group(1)}call float @sr_fptrunc(double {m.group(2)})"); continue
            if "@" in line:
                def rr(mm):
                    if mm.group(1) in defs: return mm.group(0)
                    used.add(REN[mm.group(1)]); return "@"+REN[mm.group(1)]
                line=REN_RE.sub(rr,line)
        elif line.startswith("@"):
            if globsec and re.match(r'@[\w\.\$]+ = (.*\b)?global ',line) and "external" not in line:
                line=re.sub(r'(, align \d+)', r', section "srglob"\1', line, count=1)
        out.append(line)
    sig={"sr_neg":"double @sr_neg(double)","sr_fcmp":"i32 @sr_fcmp(i32, double, double)","sr_uno":"i32 @sr_uno(double, double)","sr_fptosi":"i64 @sr_fptosi(double)","sr_fptrunc":"float @sr_fptrunc(double)",
      "sr_exit":"void @sr_exit(i32)","sr_malloc":"ptr @sr_malloc(i64)","sr_abort":"void @sr_abort()","sr_ldexp":"double @sr_ldexp(double, i32)","sr_modf":"double @sr_modf(double, ptr)","sr_fma":"double @sr_fma(double, double, double)"}
    two={"sr_add","sr_sub","sr_mul","sr_div","sr_fmod","sr_atan2","sr_hypot","sr_pow","sr_copysign","sr_fmin","sr_fmax"}
    for u in sorted(used):
        if re.search(r'^declare [^@]*@'+u+r'\(', ll, re.M): continue
        s=sig.get(u) or (f"double @{u}(double, double)" if u in two else f"double @{u}(double)")
        out.append("declare "+s)
    return "\n".join(out), nops
FUNCS=set(); NOPS=0
def run(cmd, **kw):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
    if r.returncode: raise BuildError(" ".join(cmd)+"\n"+r.stdout[-3000:])
    return r.stdout
def _key(*a):
    h=hashlib.sha256()
    for x in a: h.update(str(x).encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def prep_source(src):
    """'mu.c' is generated from epsilon.c exactly as mpb/Makefile.am does."""
    return src
_mul=threading.Lock()
def mu_c():
    with _mul: return _mu_c()
def _mu_c():
    if os.path.exists(os.path.join(work(),"mu.c")): return os.path.join(work(),"mu.c")
    mk=open(os.path.join(REPO,"mpb/Makefile.am")).read()
    m=re.search(r'^mu\.c:.*\n\t(.*)$',mk,re.M)
    out=os.path.join(work(),"mu.c"); src=os.path.join(REPO,"mpb/epsilon.c")
    cmd=m.group(1) if m else "$(PERL) -pe 's/epsilon/mu/g;s/eps_inv/mu_inv/g' $< > $@"
    cmd=cmd.replace("$(PERL)","perl").replace("$(SED)","sed").replace("$<",src).replace("$@",out).replace("$$","$").replace("$(srcdir)",os.path.join(REPO,"mpb"))
    run(["sh","-c",cmd],cwd=os.path.join(REPO,"mpb")); return out
def compile_one(src, cfg, native, flags=(), weak=True, export=(), globsec=False, isrepo=True):
    """returns object path"""
    global NOPS
    w=work()
    base=os.path.basename(src)
    fl=incs(cfg)+list(flags)
    if isrepo and base=="medium.c": mu_c(); fl+=["-I"+work()]
    if isrepo and base=="mu.c": fl+=["-I"+os.path.join(REPO,"mpb")]
    srcpath=src
    pre=subprocess.run([CLANG,"-E","-P"]+fl+(["-DSR_NATIVE"] if native else [])+[srcpath],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    if pre.returncode: raise BuildError("preprocess "+src+"\n"+pre.stderr[-3000:])
    rtsrc=open(os.path.join(VERIF,"engine/irx.py")).read()
    key=_key(pre.stdout,native,flags,weak,export,globsec,rtsrc,isrepo)
    with _klock: lk=_keylocks.setdefault(key,threading.Lock())
    with lk: return _compile_keyed(src,native,weak,export,globsec,isrepo,w,base,key,pre.stdout)
_klock=threading.Lock(); _keylocks={}
COMMON=["-w","-g0","-ffp-contract=off","-fno-builtin","-fno-math-errno","-fno-vectorize","-fno-slp-vectorize"]
def _compile_keyed(src,native,weak,export,globsec,isrepo,w,base,key,pretext):
    obj=os.path.join(w,base+"."+key+".o")
    meta=obj+".fn"
    cobj=os.path.join(CACHE,base+"."+key+".o") if CACHE else None
    def note():
        global NOPS
        if isrepo and os.path.exists(meta):
            for l in open(meta):
                f=l.split()
                if f[0]=="F": FUNCS.add(os.path.basename(src)+":"+f[1])
                else: NOPS+=int(f[1])
    if os.path.exists(obj): note(); return obj
    if cobj and os.path.exists(cobj):
        shutil.copy(cobj,obj); shutil.copy(cobj+".fn",meta); note(); return obj
    ipath=os.path.join(w,base+"."+key+".i.c"); open(ipath,"w").write(pretext)
    ll=os.path.join(w,base+"."+key+".ll")
    run([CLANG,"-std=gnu11","-O0","-Xclang","-disable-O0-optnone","-S","-emit-llvm"]+COMMON+[ipath,"-o",ll])
    txt=open(ll).read()
    fns=re.findall(r'^define [^@]*@([\w\.\$]+)\(',txt,re.M)
    n=0
    if not native:
        txt,n=transform(txt,weak,export,globsec)
    else:
        # same linkage changes, no instrumentation
        txt=native_linkage(txt,weak,export)
    open(ll,"w").write(txt)
    run([CLANG,"-O1","-fno-vectorize","-fno-slp-vectorize","-w","-c",ll,"-o",obj])
    open(meta,"w").write("".join("F %s\n"%f for f in fns)+"N %d\n"%n)
    os.unlink(ll); os.unlink(ipath)
    if cobj:
        os.makedirs(CACHE,exist_ok=True); shutil.copy(obj,cobj+".t%d"%os.getpid()); shutil.copy(meta,cobj+".fn"); os.rename(cobj+".t%d"%os.getpid(),cobj)
    note(); return obj
def native_linkage(ll,weak,export):
    out=[]; decl=set(re.findall(r'^(?:declare|define) [^@]*@([\w\.\$]+)\(', ll, re.M))
    for line in ll.split("\n"):
        if line.startswith("declare"):
            m=re.match(r'declare [^@]*@(exit|abort|malloc)\(',line)
            if m and "sr_"+m.group(1) in decl: continue
        if line.startswith("define"):
            m=re.match(r'define (.*?)@([\w\.\$]+)\(',line)
            if "internal" in m.group(1):
                if m.group(2) in export or "*" in export: line=line.replace("define internal","define weak",1)
            elif weak and not re.search(r'\b(weak|linkonce_odr)\b',m.group(1)): line=line.replace("define","define weak",1)
        line=line.replace("@exit(","@sr_exit(").replace("@abort(","@sr_abort(").replace("@malloc(","@sr_malloc(") if not line.startswith("define") else line
        out.append(line)
    return "\n".join(out)
_nexe=[0]
_rt={}
_rtl=threading.Lock()
def rt_obj(native):
    with _rtl: return _rt_obj(native)
def _rt_obj(native):
    if native in _rt: return _rt[native]
    w=work(); src=os.path.join(VERIF,"engine","native.c" if native else "rt.cpp")
    h=_key(open(src).read(),open(os.path.join(VERIF,"engine/sym.h")).read(),open(os.path.join(VERIF,"engine/nom.h")).read())
    o=os.path.join(w,("nat." if native else "rt.")+h+".o")
    c=os.path.join(CACHE,os.path.basename(o)) if CACHE else None
    if c and os.path.exists(c): shutil.copy(c,o)
    else:
        run((["gcc","-O1","-w"] if native else ["g++","-O1","-w"])+["-c",src,"-o",o])
        if c: os.makedirs(CACHE,exist_ok=True); shutil.copy(o,c)
    _rt[native]=o; return o
def polyx():
    with _rtl:
        if "polyx" in _rt: return _rt["polyx"]
        src=os.path.join(VERIF,"engine","polyx.cpp"); h=_key(open(src).read()); o=os.path.join(work(),"polyx."+h); c=os.path.join(CACHE,"polyx."+h) if CACHE else None
        if c and os.path.exists(c): shutil.copy(c,o)
        else:
            run(["g++","-O1","-w",src,"-o",o,"-lgmpxx","-lgmp"])
            if c: shutil.copy(o,c)
        _rt["polyx"]=o; return o
def build(name, cfg, repo_srcs, my_srcs, flags=(), export=(), globsec=False, native=False, weak=True):
    """-> executable path.  repo_srcs relative to /repo ('mu.c' special)."""
    jobs=[]
    for s in repo_srcs:
        p=mu_c() if s=="mu.c" else os.path.join(REPO,s)
        jobs.append((p,dict(weak=weak,export=tuple(export),globsec=globsec,isrepo=True)))
    for s in my_srcs:
        jobs.append((os.path.join(VERIF,s),dict(weak=False,export=(),globsec=False,isrepo=False)))
    with ThreadPoolExecutor(8) as ex:
        rt=ex.submit(rt_obj,native)
        objs=list(ex.map(lambda j: compile_one(j[0],cfg,native,flags,**j[1]),jobs))
        objs.append(rt.result())
    with _klock: _nexe[0]+=1; ne=_nexe[0]
    exe=os.path.join(work(),"%s.%s.%d.%s"%(name,cfg,ne,"nat" if native else "sym"))
    libs=["-lm"] if native else ["-lgmpxx","-lgmp","-lm"]
    r=subprocess.run(["g++","-no-pie","-Wl,--warn-unresolved-symbols",*objs,"-o",exe,*libs],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise BuildError("link "+name+"\n"+r.stdout[-3000:])
    und=sorted(set(re.findall(r"undefined reference to `([\w\.]+)'",r.stdout)))
    if und:
        st=exe+".und.c"
        with open(st,"w") as f:
            f.write("void sr_fatal(const char*,...);\n")
            for u in und:
                if re.match(r'^(H5T|H5E|H5P|mpi|H5F|scm_|sm).*_g(lob)?$',u) or u.startswith("ompi_"): f.write("char %s[4096];\n"%u)
                else: f.write("long %s(void){sr_fatal(\"call of unmodelled function %s\");return 0;}\n"%(u,u))
        run(["gcc","-w","-c",st,"-o",st+".o"])
        run(["g++","-no-pie",*objs,st+".o","-o",exe,*libs])
    return exe
