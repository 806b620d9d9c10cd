// Symbolic-real runtime.  Doubles carrying symbolic reals are NaN-boxed node ids.
#include <gmpxx.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include "sym.h"
#include "nom.h"
typedef int64_t i64; typedef uint64_t u64;
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, NEG, DIV };
struct Node { Op op; int a, b; double nom; };
static std::vector<Node> N; static std::vector<mpq_class> Q; // a indexes Q for CONST
static std::vector<std::string> varname; // VAR: a indexes
struct VInfo { int kind; int def; int other; }; // kind 0 free,1 sqrt(def),2 cos (other=sin),3 sin,4 pi,5 defined
static std::vector<VInfo> vinfo;
struct Key { uint8_t op; int a,b; bool operator==(const Key&o)const{return op==o.op&&a==o.a&&b==o.b;} };
struct KH { size_t operator()(const Key&k)const{ return ((u64)k.op*0x9E3779B97F4A7C15ull)^((u64)(uint32_t)k.a*0xC2B2AE3D27D4EB4Full)^((u64)(uint32_t)k.b*0x165667B19E3779F9ull);} };
static std::unordered_map<Key,int,KH> H;
static std::map<mpq_class,int> constid;
static const u64 TAG=0xFFFA000000000000ull, TMASK=0xFFFF000000000000ull;
static inline u64 bits(double x){u64 u;memcpy(&u,&x,8);return u;}
static inline double dbl(u64 u){double x;memcpy(&x,&u,8);return x;}
static inline bool boxed(double x){return (bits(x)&TMASK)==TAG;}
static inline int idof(double x){return (int)(bits(x)&0xFFFFFFFFull);}
static inline double box(int id){return dbl(TAG|(u64)(uint32_t)id);}
static int PI_ID=-1;
// ---- path state
static std::vector<int> prefix; static std::vector<int> taken; static size_t dpos=0;
static std::vector<std::string> alts;
enum AK { EQ0, NE0, GT0, GE0 };
struct Atom { AK k; int id; int br; }; // br: 1 branch, 0 assumption, 2 den
static std::vector<Atom> PC;
struct Chk { std::string label; int kind; int a,b; int npc; int cond; }; // kind 0 eq 1 le 2 lt 3 ne 4 true
static std::vector<Chk> CK;
static std::vector<std::string> reach_labels, notes;
static std::string outpath; static bool dumped=false; static int nfeas=0; static double feas_time=0;
static bool divob=false;
static void dump(const char*status);
extern "C" void sr_fatal(const char*fmt,...){ va_list ap; va_start(ap,fmt); char b[1000]; vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  std::string s=std::string("FATAL ")+b; dump(s.c_str()); _exit(3);} 
static mpq_class rationalise(double x){
  int e; double m=frexp(x,&e); (void)m; 
  if(x==0) return 0;
  mpq_class ex(x);
  if(mpz_sizeinbase(ex.get_den().get_mpz_t(),2)<=24 ) return ex;
  // continued fraction, smallest denominator rounding to x
  mpq_class r=abs(ex); mpz_class h0=0,h1=1,k0=1,k1=0; mpq_class y=r;
  for(int it=0;it<40;it++){ mpz_class a; mpz_fdiv_q(a.get_mpz_t(),y.get_num().get_mpz_t(),y.get_den().get_mpz_t());
    mpz_class h=a*h1+h0,k=a*k1+k0; h0=h1;h1=h;k0=k1;k1=k;
    if(mpz_sizeinbase(k.get_mpz_t(),2)>26) break;
    mpq_class c(h,k); c.canonicalize();
    // exact nearest test
    mpq_class d=c-r; if(d<0)d=-d; double ulp=nextafter(fabs(x),INFINITY)-fabs(x);
    if(d*2<=mpq_class(ulp)) return x<0? mpq_class(-c):c;
    mpq_class fr=y-mpq_class(a); if(fr==0) break; y=1/fr; }
  return ex; }
static int mkconst(const mpq_class&q){ auto it=constid.find(q); if(it!=constid.end())return it->second;
  Q.push_back(q); N.push_back({CONST,(int)Q.size()-1,0,q.get_d()}); int id=N.size()-1; constid[q]=id; return id; }
static int newvar(const std::string&nm,double nom,int kind,int def=-1,int other=-1){ varname.push_back(nm); vinfo.push_back({kind,def,other});
  N.push_back({VAR,(int)varname.size()-1,0,nom}); return N.size()-1; }
static inline bool isc(int id){return N[id].op==CONST;} static inline const mpq_class& cv(int id){return Q[N[id].a];}
static int pi_id(){ if(PI_ID<0) PI_ID=newvar("pi",M_PI,4); return PI_ID; }
static int mk(Op op,int a,int b);
static int node(double x){ if(boxed(x)) return idof(x);
  if(x!=x||std::isinf(x)) sr_fatal("non-finite concrete value %g enters symbolic arithmetic",x);
  u64 u=bits(x); if((u&0xFFFFFFFFFFFFFull)==0x921FB54442D18ull){ int e; double m=frexp(x,&e); (void)m; int e2; frexp(M_PI,&e2);
    mpq_class q= x<0?-1:1; int d=e-e2; for(;d>0;d--)q*=2; for(;d<0;d++)q/=2; return mk(MUL,mkconst(q),pi_id()); }
  return mkconst(rationalise(x)); }
static double unnode(int id){ if(isc(id)){ const mpq_class&q=cv(id); double d=q.get_d(); if(std::isfinite(d)&&mpq_class(d)==q && (mpz_sizeinbase(q.get_den().get_mpz_t(),2)<=24)) return d; } return box(id);} 
static int mk0(Op op,int a,int b,double nom){ Key k{op,a,b}; auto it=H.find(k); if(it!=H.end()) return it->second; N.push_back({op,a,b,nom}); int id=N.size()-1; H[k]=id; return id; }
static bool isneg(int id){return N[id].op==NEG;}
// small linear combinations are kept canonical: equal combinations share one node
struct Lin { mpq_class c; std::vector<std::pair<int,mpq_class>> t; };
static std::vector<Lin*> lin; static std::unordered_map<std::string,int> linmap; static const size_t LINMAX=12;
static Lin* getlin(int id){ if((size_t)id<lin.size()&&lin[id]) return lin[id]; return 0; }
static void leaf(int id,Lin&o){ Lin*l=getlin(id); if(l){o=*l;return;} if(isc(id)){o.c=cv(id);return;} o.c=0; o.t.push_back({id,1}); }
static int lincanon(int id,int a,int b,const mpq_class&ka,const mpq_class&kb){ // id = ka*a + kb*b (b<0: absent)
  if((size_t)id<lin.size()&&lin[id]) return id; Lin A,B,R; leaf(a,A); if(b>=0) leaf(b,B); if(A.t.size()+B.t.size()>2*LINMAX) return id; R.c=ka*A.c; if(b>=0) R.c+=kb*B.c; size_t i=0,j=0;
  while(i<A.t.size()||j<B.t.size()){ if(j>=B.t.size()||(i<A.t.size()&&A.t[i].first<B.t[j].first)){ R.t.push_back({A.t[i].first,ka*A.t[i].second}); i++; } else if(i>=A.t.size()||B.t[j].first<A.t[i].first){ R.t.push_back({B.t[j].first,kb*B.t[j].second}); j++; } else { mpq_class c=ka*A.t[i].second+kb*B.t[j].second; if(c!=0) R.t.push_back({A.t[i].first,c}); i++; j++; } }
  if(R.t.empty()) return mkconst(R.c); if(R.t.size()>LINMAX) return id; if(R.t.size()==1&&R.c==0&&R.t[0].second==1) return R.t[0].first;
  std::string k=R.c.get_str(); for(auto&x:R.t){ k+=' '; k+=std::to_string(x.first); k+='*'; k+=x.second.get_str(); }
  auto it=linmap.find(k); if(it!=linmap.end()) return it->second; if(lin.size()<N.size()) lin.resize(N.size()+1024,0); lin[id]=new Lin(R); linmap[k]=id; return id; }
static int mk(Op op,int a,int b){
  switch(op){
  case ADD: if(isc(a)&&isc(b)) return mkconst(cv(a)+cv(b)); if(isc(a)&&cv(a)==0)return b; if(isc(b)&&cv(b)==0)return a;
    if(isneg(b)) return mk(SUB,a,N[b].a); if(isneg(a)) return mk(SUB,b,N[a].a);
    if(a>b) std::swap(a,b); return lincanon(mk0(ADD,a,b,N[a].nom+N[b].nom),a,b,1,1);
  case SUB: if(isc(a)&&isc(b)) return mkconst(cv(a)-cv(b)); if(a==b) return mkconst(0); if(isc(b)&&cv(b)==0)return a; if(isc(a)&&cv(a)==0) return mk(NEG,b,0);
    if(isneg(b)) return mk(ADD,a,N[b].a);
    return lincanon(mk0(SUB,a,b,N[a].nom-N[b].nom),a,b,1,-1);
  case NEG: if(isc(a)) return mkconst(-cv(a)); if(isneg(a)) return N[a].a; if(N[a].op==SUB) return mk(SUB,N[a].b,N[a].a); return lincanon(mk0(NEG,a,0,-N[a].nom),a,-1,-1,0);
  case MUL: if(isc(a)&&isc(b)) return mkconst(cv(a)*cv(b)); if(isc(b)) std::swap(a,b);
    if(isc(a)){ if(cv(a)==0) return a; if(cv(a)==1) return b; if(cv(a)==-1) return mk(NEG,b,0);
      if(isneg(b)) return mk(MUL,mkconst(-cv(a)),N[b].a);
      if(N[b].op==MUL&&isc(N[b].a)) return mk(MUL,mkconst(cv(a)*cv(N[b].a)),N[b].b); return lincanon(mk0(MUL,a,b,N[a].nom*N[b].nom),b,-1,cv(a),0);} 
    if(isneg(a)) return mk(NEG,mk(MUL,N[a].a,b),0); if(isneg(b)) return mk(NEG,mk(MUL,a,N[b].a),0);
    if(N[a].op==MUL&&isc(N[a].a)) return mk(MUL,N[a].a,mk(MUL,N[a].b,b));
    if(N[b].op==MUL&&isc(N[b].a)) return mk(MUL,N[b].a,mk(MUL,a,N[b].b));
    if(N[a].op==DIV&&isc(N[a].a)) return mk(DIV,mk(MUL,N[a].a,b),N[a].b);
    if(N[b].op==DIV&&isc(N[b].a)) return mk(DIV,mk(MUL,N[b].a,a),N[b].b);
    if(a==b&&N[a].op==VAR&&vinfo[N[a].a].kind==1) return vinfo[N[a].a].def;
    if(a>b) std::swap(a,b); return mk0(MUL,a,b,N[a].nom*N[b].nom);
  case DIV: if(isc(b)){ if(cv(b)==0) sr_fatal("exact division by zero"); return mk(MUL,mkconst(1/cv(b)),a);} if(isc(a)&&cv(a)==0) return a;
    if(a==b) return mkconst(1);
    if(isneg(a)) return mk(NEG,mk(DIV,N[a].a,b),0); if(isneg(b)) return mk(NEG,mk(DIV,a,N[b].a),0);
    return mk0(DIV,a,b,N[a].nom/N[b].nom);
  default: sr_fatal("mk"); }
  return 0; }
// ---- solver pipe (feasibility)
static FILE*zin=0; static int zoutfd=-1; static pid_t zpid=0; static std::vector<char> sent; static size_t pcsent=0; static std::string zbuf;
static double now(){timeval t;gettimeofday(&t,0);return t.tv_sec+t.tv_usec*1e-6;}
static void qstr(FILE*f,const mpq_class&q){ mpz_class n=abs(q.get_num()); if(q<0)fputs("(- ",f); if(q.get_den()==1) fprintf(f,"%s.0",n.get_str().c_str()); else fprintf(f,"(/ %s.0 %s.0)",n.get_str().c_str(),q.get_den().get_str().c_str()); if(q<0)fputs(")",f);} 
static void zkill(){ if(zpid){ fclose(zin); close(zoutfd); kill(zpid,SIGKILL); int st; waitpid(zpid,&st,0); zpid=0; zin=0; } }
static void zstart(){ int p1[2],p2[2]; if(pipe(p1)||pipe(p2)) sr_fatal("pipe"); fflush(0); zpid=fork(); if(!zpid){ dup2(p1[0],0); dup2(p2[1],1); close(p1[1]); close(p2[0]); const char*z=getenv("SR_Z3"); if(!z)z="z3-new"; execlp(z,z,"-in",(char*)0); _exit(127);} close(p1[0]); close(p2[1]); zin=fdopen(p1[1],"w"); zoutfd=p2[0]; sent.assign(N.size(),0); pcsent=0; zbuf.clear(); int to=getenv("SR_FEAS_MS")?atoi(getenv("SR_FEAS_MS")):1500; fprintf(zin,"(set-option :timeout %d)\n",to); }
static bool linfeas(){ static int v=-1; if(v<0) v=getenv("SR_LIN")?1:0; return v; }
// with SR_LIN, products/quotients of unknowns and square roots are left unconstrained: an over-approximation of the feasible paths
static bool opaque(const Node&n){ return linfeas()&&((n.op==MUL&&!isc(n.a)&&!isc(n.b))||(n.op==DIV&&!isc(n.b))); }
static void zsend(int id){ if((size_t)id<sent.size()&&sent[id])return; if(sent.size()<N.size()) sent.resize(N.size(),0);
  std::vector<int> st{id}; while(!st.empty()){ int x=st.back(); if(sent[x]){st.pop_back();continue;} Node&n=N[x]; bool ok=true; auto need=[&](int y){ if(!sent[y]){st.push_back(y);ok=false;} };
    if(opaque(n)){ st.pop_back(); sent[x]=1; fprintf(zin,n.op==MUL&&n.a==n.b?"(declare-const n%d Real)\n(assert (>= n%d 0.0))\n":"(declare-const n%d Real)\n",x,x); continue; }
    if(n.op==ADD||n.op==SUB||n.op==MUL||n.op==DIV){need(n.a);need(n.b);} else if(n.op==NEG)need(n.a);
    else if(n.op==VAR&&!linfeas()&&(vinfo[n.a].kind==1||vinfo[n.a].kind==5)) need(vinfo[n.a].def);
    if(!ok) continue; st.pop_back(); sent[x]=1;
    switch(n.op){ case CONST: fprintf(zin,"(define-fun n%d () Real ",x); qstr(zin,cv(x)); fputs(")\n",zin); break;
     case VAR: fprintf(zin,"(declare-const n%d Real)\n",x); { VInfo&v=vinfo[n.a]; if(linfeas()){ if(v.kind==1) fprintf(zin,"(assert (>= n%d 0.0))\n",x); } else if(v.kind==1) fprintf(zin,"(assert (>= n%d 0.0))(assert (= (* n%d n%d) n%d))\n",x,x,x,v.def); else if(v.kind==5) fprintf(zin,"(assert (= n%d n%d))\n",x,v.def); else if(v.kind==4) fprintf(zin,"(assert (and (> n%d 3.14159265) (< n%d 3.14159266)))\n",x,x); else if((v.kind==2||v.kind==3)){ if(sent[v.other]) fprintf(zin,"(assert (= (+ (* n%d n%d) (* n%d n%d)) 1.0))\n",x,x,v.other,v.other); else st.push_back(v.other);} } break;
     case NEG: fprintf(zin,"(define-fun n%d () Real (- n%d))\n",x,n.a); break;
     default: fprintf(zin,"(define-fun n%d () Real (%s n%d n%d))\n",x,n.op==ADD?"+":n.op==SUB?"-":n.op==MUL?"*":"/",n.a,n.b); } } }
static bool nonneg(int id,int depth=0){ Node&n=N[id]; if(depth>200) return false; switch(n.op){ case CONST: return sgn(cv(id))>=0; case VAR: return vinfo[n.a].kind==1||vinfo[n.a].kind==4; case ADD: return nonneg(n.a,depth+1)&&nonneg(n.b,depth+1); case MUL: return n.a==n.b||(nonneg(n.a,depth+1)&&nonneg(n.b,depth+1)); case DIV: return nonneg(n.a,depth+1)&&nonneg(n.b,depth+1); default: return false; } }
// ids that are all zero exactly when id is zero
static void zeroset(int id,std::vector<int>&o){ for(;;){ Node&n=N[id]; if(n.op==NEG||n.op==DIV){ id=n.a; continue; } if(n.op==VAR&&vinfo[n.a].kind==1){ id=vinfo[n.a].def; continue; }
   if(n.op==MUL){ if(isc(n.a)){ id=n.b; continue; } if(n.a==n.b){ id=n.a; continue; } }
   if(n.op==ADD&&nonneg(n.a)&&nonneg(n.b)){ int b=n.b; zeroset(n.a,o); id=b; continue; }
   o.push_back(id); return; } }
static void zatom(const Atom&a,bool){ Atom t=a; if(t.k==GE0&&nonneg(t.id)) return; if(t.k==GT0&&nonneg(t.id)) t.k=NE0;
  if(t.k==EQ0||t.k==NE0){ std::vector<int> z; zeroset(t.id,z); for(int i:z) zsend(i); fputs(t.k==EQ0?"(assert (and true":"(assert (or false",zin); for(int i:z) fprintf(zin,t.k==EQ0?" (= n%d 0.0)":" (not (= n%d 0.0))",i); fputs("))\n",zin); return; }
  zsend(t.id); fprintf(zin,t.k==GT0?"(assert (> n%d 0.0))\n":"(assert (>= n%d 0.0))\n",t.id); }
static bool zline(std::string&l,double tmo){ double t0=now(); for(;;){ size_t p=zbuf.find('\n'); if(p!=std::string::npos){ l=zbuf.substr(0,p); zbuf.erase(0,p+1); return true;} pollfd pf{zoutfd,POLLIN,0}; int ms=(int)((t0+tmo-now())*1000); if(ms<=0) return false; int r=poll(&pf,1,ms); if(r>0){ char b[4096]; int n=read(zoutfd,b,4096); if(n<=0) return false; zbuf.append(b,n);} } }
// 0 unsat 1 sat 2 unknown
static int feasible(const std::vector<Atom>&extra){ double t0=now(); nfeas++; if(!zpid) zstart();
  for(;pcsent<PC.size();pcsent++) zatom(PC[pcsent],false);
  for(auto&a:extra){ std::vector<int> z; zeroset(a.id,z); if(a.k==EQ0||a.k==NE0||(a.k==GT0&&nonneg(a.id))) for(int i:z) zsend(i); else zsend(a.id); }
  fputs("(push)\n",zin); for(auto&a:extra) zatom(a,false); fputs("(check-sat)\n(pop)\n",zin); fflush(zin);
  std::string l; int r=2; for(;;){ if(!zline(l,6.0)){ zkill(); break;} if(l=="sat"){r=1;break;} if(l=="unsat"){r=0;break;} if(l.find("unknown")!=std::string::npos||l=="timeout"){r=2;break;} if(l.find("error")!=std::string::npos){ fprintf(stderr,"z3: %s\n",l.c_str()); r=2; zkill(); break;} }
  feas_time+=now()-t0; return r; }
static bool atomnom(const Atom&a){ double v=N[a.id].nom; switch(a.k){case EQ0:return fabs(v)<1e-12;case NE0:return fabs(v)>=1e-12;case GT0:return v>0;case GE0:return v>=0;}return false;}
static bool nompath=true; // nominal assignment satisfies all PC so far
static std::string tostr(const std::vector<int>&v,int n){ std::string s; for(int i=0;i<n;i++){ if(i)s+=","; s+=std::to_string(v[i]);} return s; }
// generic decision among options, each a conjunction of atoms
static int decide(const std::vector<std::vector<Atom>>&opts,const std::vector<int>&code){
  int n=opts.size(); int pick=-1;
  if(dpos<prefix.size()){ for(int i=0;i<n;i++) if(code[i]==prefix[dpos]) pick=i; if(pick<0) sr_fatal("prefix mismatch"); dpos++; }
  else { std::vector<int> ok; int pref=-1; for(int i=0;i<n;i++){ bool nomok=nompath; for(auto&a:opts[i]) nomok=nomok&&atomnom(a); if(nomok){pref=i; ok.push_back(i); continue;} int r=feasible(opts[i]); if(r) ok.push_back(i);} 
    if(ok.empty()) { dump("INFEASIBLE"); _exit(0);} pick= pref>=0?pref:ok[0];
    for(int i:ok) if(i!=pick){ std::string s=tostr(taken,taken.size()); if(s.size())s+=","; s+=std::to_string(code[i]); alts.push_back(s);} dpos++; prefix.push_back(code[pick]); }
  taken.push_back(code[pick]); for(auto&a:opts[pick]){ if(!atomnom(a)) nompath=false; PC.push_back(a);} return code[pick]; }
// known facts: avoid re-deciding identical atoms
static std::map<std::pair<int,int>,int> known; // (pred 0:sign of id) 
static int branch(Atom t,Atom f){ // t / f complementary
  return decide({{t},{f}},{1,0}); }
extern "C" {
int sr_is_native(void){return 0;}
int sr_symbolic(double x){return boxed(x)&&!isc(idof(x));}
static bool exactadd(double a,double b,double r){ double bb=r-a; return (a-(r-bb))+(b-bb)==0; }
// plain double arithmetic is used only where it agrees with the exact rationals the operands stand for
static inline bool dy(double x){ double y=x*16777216.0; return y==floor(y); }
double sr_add(double a,double b){ if(!boxed(a)&&!boxed(b)){ double r=a+b; if(!std::isfinite(r)||(exactadd(a,b,r)&&dy(a)&&dy(b))) return r; } return unnode(mk(ADD,node(a),node(b))); }
double sr_sub(double a,double b){ if(!boxed(a)&&!boxed(b)){ double r=a-b; if(!std::isfinite(r)||(exactadd(a,-b,r)&&dy(a)&&dy(b))) return r; } return unnode(mk(SUB,node(a),node(b))); }
static bool isnull(double x){return !boxed(x)&&x==0;}
static int cutdiv=0; void sr_cut_at_division(int on){cutdiv=on;}
double sr_mul(double a,double b){ if(!boxed(a)&&!boxed(b)){ double r=a*b; if(!std::isfinite(r)) return r; if(fma(a,b,-r)==0&&(r!=0||a==0||b==0)&&((dy(a)&&dy(b))||a==0||b==0||a==1||b==1)) return r; } else if(isnull(a)||isnull(b)) return 0.0; return unnode(mk(MUL,node(a),node(b))); }
double sr_div(double a,double b){ if(cutdiv&&(boxed(a)||boxed(b))) sr_infeasible("cut at a division"); if(!boxed(a)&&!boxed(b)){ double r=a/b; if(!std::isfinite(r)) return r; if(fma(r,b,-a)==0&&dy(a)&&dy(b)&&dy(r)) return r; } 
  if(isnull(b)) { if(divob){CK.push_back({"division by zero",4,0,0,(int)PC.size(),0});} sr_infeasible("symbolic/0"); }
  int nb=node(b); if(!isc(nb)){ if(divob){ CK.push_back({"denominator is nonzero",3,nb,mkconst(0),(int)PC.size(),0}); } PC.push_back({NE0,nb,2}); if(fabs(N[nb].nom)<1e-12) nompath=false; }
  return unnode(mk(DIV,node(a),nb)); }
double sr_neg(double a){ if(!boxed(a)) return -a; return unnode(mk(NEG,idof(a),0)); }
static std::map<int,int> sqrtcache;
static bool squarefree_sqrt(const mpq_class&q,mpq_class&coef,mpz_class&rad){ // q = coef^2 * rad, rad squarefree-ish
  mpz_class m=q.get_num()*q.get_den(); coef=mpq_class(1)/mpq_class(q.get_den()); rad=m; mpz_class c=1; for(int p=2;p<2000;p++){ mpz_class pp=p*p; while(mpz_divisible_p(rad.get_mpz_t(),pp.get_mpz_t())){ rad/=pp; c*=p; } } if(mpz_perfect_square_p(rad.get_mpz_t())){ mpz_class r; mpz_sqrt(r.get_mpz_t(),rad.get_mpz_t()); c*=r; rad=1;} coef*=c; return true; }
double sr_sqrt(double x){ int id; if(!boxed(x)){ double r=sqrt(x); if(!(x>=0)||std::isinf(x)) return r; if(fma(r,r,-x)==0) return r; id=node(x);} else id=idof(x);
  if(isc(id)){ mpq_class q=cv(id); if(q<0) sr_fatal("sqrt of negative constant"); mpq_class co; mpz_class rad; squarefree_sqrt(q,co,rad); if(rad==1) return unnode(mkconst(co)); int rid=mkconst(mpq_class(rad)); int s; auto it=sqrtcache.find(rid); if(it!=sqrtcache.end()) s=it->second; else { s=newvar("sqrt"+rad.get_str(),sqrt(rad.get_d()),1,rid); sqrtcache[rid]=s; } return box(mk(MUL,mkconst(co),s)); }
  auto it=sqrtcache.find(id); if(it!=sqrtcache.end()) return box(it->second);
  // x*x -> |x|
  if(N[id].op==MUL&&N[id].a==N[id].b){ int y=N[id].a; Atom t{GE0,y,1},f{GT0,mk(NEG,y,0),1}; return branch(t,f)?box(y):unnode(mk(NEG,y,0)); }
  // factor out a constant coefficient that is a perfect square
  if(N[id].op==MUL&&isc(N[id].a)&&sgn(cv(N[id].a))>0){ mpq_class q=cv(N[id].a),co; mpz_class rad; squarefree_sqrt(q,co,rad); if(rad==1){ int in=N[id].b; return sr_mul(unnode(mkconst(co)),sr_sqrt(unnode(in))); } }
  PC.push_back({GE0,id,2}); if(N[id].nom<0) nompath=false;
  int s=newvar("sq"+std::to_string(id),N[id].nom>=0?sqrt(N[id].nom):0,1,id); sqrtcache[id]=s; return box(s); }
double sr_sqrt_of(double x){return sr_sqrt(x);} 
static Atom cmpatom(int pred,int d){ // d = a-b ; 0 eq 1 gt 2 ge 3 lt 4 le 5 ne
  switch(pred){case 0:return {EQ0,d,1};case 1:return {GT0,d,1};case 2:return {GE0,d,1};case 3:return {GT0,mk(NEG,d,0),1};case 4:return {GE0,mk(NEG,d,0),1};default:return {NE0,d,1};} }
static std::set<int> quietv; static std::vector<signed char> quietm;
void sr_quiet(double x){ if(boxed(x)) quietv.insert(idof(x)); quietm.clear(); }
static bool quietdep(int i){ if(quietm.size()<N.size()) quietm.resize(N.size(),-1); if(quietm[i]>=0) return quietm[i]; bool r=false; if(N[i].op==VAR) r=quietv.count(i)>0; else if(N[i].op!=CONST){ r=quietdep(N[i].a); if(!r&&N[i].op!=NEG) r=quietdep(N[i].b); } quietm[i]=r; return r; }
int sr_fcmp(int pred,double a,double b){ // pred numbering above; +8: unordered variant
  int un=pred&8; pred&=7;
  if(!boxed(a)&&!boxed(b)){ if(a!=a||b!=b) return un?1:(0); switch(pred){case 0:return a==b;case 1:return a>b;case 2:return a>=b;case 3:return a<b;case 4:return a<=b;default:return a!=b;} }
  if(!boxed(b)&&std::isinf(b)){ bool pos=b>0; switch(pred){case 0:return 0;case 1:case 2:return !pos;case 3:case 4:return pos;default:return 1;} }
  if(!boxed(a)&&std::isinf(a)){ bool pos=a>0; switch(pred){case 0:return 0;case 1:case 2:return pos;case 3:case 4:return !pos;default:return 1;} }
  if(!boxed(b)&&b!=b) return un?1:0; if(!boxed(a)&&a!=a) return un?1:0;
  int d=mk(SUB,node(a),node(b));
  if(!quietv.empty()&&!isc(d)&&quietdep(d)){ double z=N[d].nom; switch(pred){case 0:return z==0;case 1:return z>0;case 2:return z>=0;case 3:return z<0;case 4:return z<=0;default:return z!=0;} }
  // clear constant multiples: normalise -x<0 etc.
  if(isc(d)){ int s=sgn(cv(d)); switch(pred){case 0:return s==0;case 1:return s>0;case 2:return s>=0;case 3:return s<0;case 4:return s<=0;default:return s!=0;} }
  if(pred==0||pred==5){ if(N[d].op==NEG) d=N[d].a; if(N[d].op==MUL&&isc(N[d].a)) d=N[d].b; if(N[d].op==SUB&&N[d].a>N[d].b) d=mk(SUB,N[d].b,N[d].a);
     if(N[d].op==VAR&&vinfo[N[d].a].kind==1) d=vinfo[N[d].a].def; }
  static const int negp[6]={5,4,3,2,1,0};
  Atom t=cmpatom(pred,d),f=cmpatom(negp[pred],d);
  // syntactic reuse of earlier decisions
  for(auto&p:PC){ if(p.k==t.k&&p.id==t.id) return 1; if(p.k==f.k&&p.id==f.id) return 0; }
  { int nd=mk(NEG,d,0); for(auto&p:PC){ if(p.k==GT0&&(p.id==d||p.id==nd)){ int s=p.id==d?1:-1; switch(pred){case 0:return 0;case 1:case 2:return s>0;case 3:case 4:return s<0;default:return 1;} } if(p.k==EQ0&&(p.id==d||p.id==nd)) switch(pred){case 0:case 2:case 4:return 1;default:return 0;} } }
  return branch(t,f); }
int sr_uno(double a,double b){ return (!boxed(a)&&a!=a)||(!boxed(b)&&b!=b); }
double sr_fabs(double x){ if(!boxed(x)) return fabs(x); if(N[idof(x)].op==VAR&&vinfo[N[idof(x)].a].kind==1) return x; return sr_fcmp(2,x,0.0)?x:sr_neg(x); }
double sr_fmin(double a,double b){ return sr_fcmp(4,a,b)?a:b; }
double sr_fmax(double a,double b){ return sr_fcmp(2,a,b)?a:b; }
static i64 intpick(double x,int mode){ // mode 0 floor 1 trunc 2 ceil 3 nearest
  int id=idof(x); if(isc(id)){ mpq_class q=cv(id); mpz_class r; if(mode==0||(mode==1&&q>=0)) mpz_fdiv_q(r.get_mpz_t(),q.get_num().get_mpz_t(),q.get_den().get_mpz_t()); else if(mode==2||mode==1) mpz_cdiv_q(r.get_mpz_t(),q.get_num().get_mpz_t(),q.get_den().get_mpz_t()); else { mpq_class h=q+mpq_class(1,2); mpz_fdiv_q(r.get_mpz_t(),h.get_num().get_mpz_t(),h.get_den().get_mpz_t()); } return r.get_si(); }
  int R=getenv("SR_INTRANGE")?atoi(getenv("SR_INTRANGE")):6; std::vector<std::vector<Atom>> o; std::vector<int> code; auto sub=[&](int c){return mk(SUB,id,mkconst(c));};
  double nm=N[id].nom; int c0=(int)floor(nm);
  for(int i=c0-R;i<=c0+R;i++){ std::vector<Atom> a; if(mode==0){ a.push_back({GE0,sub(i),1}); a.push_back({GT0,mk(NEG,sub(i+1),0),1}); }
    else if(mode==1){ if(i>0){a.push_back({GE0,sub(i),1}); a.push_back({GT0,mk(NEG,sub(i+1),0),1});} else if(i<0){ a.push_back({GE0,mk(NEG,sub(i),0),1}); a.push_back({GT0,sub(i-1),1}); } else { a.push_back({GT0,sub(-1),1}); a.push_back({GT0,mk(NEG,sub(1),0),1}); } }
    else if(mode==2){ a.push_back({GE0,mk(NEG,sub(i),0),1}); a.push_back({GT0,sub(i-1),1}); }
    else { a.push_back({GE0,mk(SUB,id,mkconst(mpq_class(2*i-1,2))),1}); a.push_back({GT0,mk(SUB,mkconst(mpq_class(2*i+1,2)),id),1}); }
    o.push_back(a); code.push_back(i);} 
  // outside the range: must be infeasible, else recorded
  if(dpos>=prefix.size()){ auto lo=std::vector<Atom>{{GT0,mk(SUB,mkconst(c0-R),id),1}}, hi=std::vector<Atom>{{GT0,mk(SUB,id,mkconst(c0+R)),1}}; if(feasible(lo)||feasible(hi)) notes.push_back("integer conversion range truncated to nominal +-"+std::to_string(R)); }
  return decide(o,code); }
i64 sr_fptosi(double x){ if(!boxed(x)) return (i64)x; return intpick(x,1);} 
double sr_floor(double x){ if(!boxed(x)) return floor(x); return (double)intpick(x,0);} 
double sr_ceil(double x){ if(!boxed(x)) return ceil(x); return (double)intpick(x,2);} 
double sr_rint(double x){ if(!boxed(x)) return rint(x); return (double)intpick(x,3);} 
double sr_round_(double x){ if(!boxed(x)) return round(x); return (double)intpick(x,3);} 
double sr_trunc(double x){ if(!boxed(x)) return trunc(x); return (double)intpick(x,1);} 
double sr_modf(double x,double*ip){ if(!boxed(x)) return modf(x,ip); double t=(double)intpick(x,1); *ip=t; return sr_sub(x,t);} 
double sr_fmod(double x,double y){ if(!boxed(x)&&!boxed(y)) return fmod(x,y); double q=sr_div(x,y); double t=sr_trunc(q); return sr_sub(x,sr_mul(t,y)); }
// ---- polynomials for angle decoding
typedef std::map<std::vector<int>,mpq_class> Poly; // sorted var-node ids
static bool poly(int id,Poly&out,std::map<int,Poly>&memo){ auto it=memo.find(id); if(it!=memo.end()){out=it->second;return true;} Node n=N[id]; Poly r,a,b; switch(n.op){ case CONST: if(cv(id)!=0) r[{}]=cv(id); break; case VAR: r[{id}]=1; break; case NEG: if(!poly(n.a,a,memo))return false; for(auto&p:a) r[p.first]=-p.second; break; case ADD: case SUB: if(!poly(n.a,a,memo)||!poly(n.b,b,memo))return false; r=a; for(auto&p:b){ mpq_class v=n.op==ADD?p.second:mpq_class(-p.second); r[p.first]+=v; if(r[p.first]==0) r.erase(p.first);} break; case MUL: if(!poly(n.a,a,memo)||!poly(n.b,b,memo))return false; for(auto&p:a)for(auto&q:b){ auto m=p.first; m.insert(m.end(),q.first.begin(),q.first.end()); std::sort(m.begin(),m.end()); r[m]+=p.second*q.second; if(r[m]==0) r.erase(m);} break; default: return false;} memo[id]=r; out=r; return true; }
struct Ang{int D;int c,s;}; static std::map<int,Ang> angles; // var node -> 
void sr_angle(double k,int D){ if(!boxed(k)||N[idof(k)].op!=VAR) sr_fatal("sr_angle needs a variable"); int v=idof(k); double th=2*M_PI*N[v].nom/D; std::string nm=varname[N[v].a]; int c=newvar("c_"+nm,cos(th),2); int s=newvar("s_"+nm,sin(th),3,-1,c); vinfo[N[c].a].other=s; vinfo[N[c].a].def=v; angles[v]={D,c,s}; }
static void cs_const(mpq_class q,double&c,double&s){ // angle = pi*q
  mpz_class f; mpq_class h=q/2; mpz_fdiv_q(f.get_mpz_t(),h.get_num().get_mpz_t(),h.get_den().get_mpz_t()); q-=2*mpq_class(f); // [0,2)
  mpq_class t=q*12; if(t.get_den()!=1) { sr_fatal("cos of pi*%s not representable",q.get_str().c_str()); } int k=t.get_num().get_si(); auto base=[&](int k)->double{ k=((k%24)+24)%24; int sg=1; if(k>12) k=24-k; if(k>6){k=12-k; sg=-1;} double r; switch(k){case 0:r=1;break;case 2:r=sr_mul(0.5,sr_sqrt(3));break;case 3:r=sr_mul(0.5,sr_sqrt(2));break;case 4:r=0.5;break;case 6:r=0;break;default:{double s6=sr_sqrt(6),s2=sr_sqrt(2); r= k==1? sr_mul(0.25,sr_add(s6,s2)):sr_mul(0.25,sr_sub(s6,s2));}} return sg>0?r:sr_neg(r);} ; c=base(k); s=base(k-6); }
static void cossin(double x,double&c,double&s){ 
  if(!boxed(x)){ if(x==0){c=1;s=0;return;} }
  int id=node(x); Poly p; std::map<int,Poly> memo; if(!poly(id,p,memo)) sr_fatal("cos/sin of a non-polynomial argument");
  mpq_class q0=0; c=1;s=0; bool first=true; auto mulcs=[&](double c2,double s2){ if(first){c=c2;s=s2;first=false;return;} double nc=sr_sub(sr_mul(c,c2),sr_mul(s,s2)), ns=sr_add(sr_mul(c,s2),sr_mul(s,c2)); c=nc;s=ns; };
  for(auto&m:p){ auto v=m.first; auto ip=std::find(v.begin(),v.end(),PI_ID); if(ip==v.end()||PI_ID<0){ // maybe an angle registered with D=0 : argument itself
      if(v.size()==1&&angles.count(v[0])&&angles[v[0]].D==0) { mpq_class n=m.second; if(n.get_den()!=1) sr_fatal("fractional multiple of angle"); int k=n.get_num().get_si(); double ck=box(angles[v[0]].c),sk=box(angles[v[0]].s); if(k<0){sk=sr_neg(sk);k=-k;} for(int i=0;i<k;i++) mulcs(ck,sk); continue; }
      sr_fatal("cos/sin argument is not a multiple of pi"); }
    v.erase(ip); if(v.empty()){ q0+=m.second; continue; } if(v.size()!=1||!angles.count(v[0])) sr_fatal("cos/sin argument: unregistered angle"); Ang&A=angles[v[0]]; mpq_class n=m.second*A.D/2; if(n.get_den()!=1) sr_fatal("angle multiple %s of 2pi k/%d",n.get_str().c_str(),A.D); int k=n.get_num().get_si(); double ck=box(A.c),sk=box(A.s); if(k<0){sk=sr_neg(sk);k=-k;} for(int i=0;i<k;i++) mulcs(ck,sk); }
  if(q0!=0){ double c2,s2; cs_const(q0,c2,s2); mulcs(c2,s2);} }
// angles produced by atan2: fresh variable theta with known cos/sin
double sr_atan2(double y,double x){ if(!boxed(y)&&!boxed(x)){ if(y==0&&x>=0) return 0; if(y==0&&x<0) return M_PI; if(x==0&&y>0) return M_PI/2; if(x==0&&y<0) return -M_PI/2; if(x==y) return x>0?M_PI/4:sr_mul(-0.75,M_PI); if(x==-y) return x>0?-M_PI/4:sr_mul(0.75,M_PI); }
  // theta: c = x/r, s = y/r ; half angle also supported: define through the half angle h=theta/2 in (-pi/2,pi/2]: cos h>=0
  double r=sr_sqrt(sr_add(sr_mul(x,x),sr_mul(y,y))); double nc,ns; { double X=sr_nominal(x),Y=sr_nominal(y); nc=cos(atan2(Y,X)/2); ns=sin(atan2(Y,X)/2);} 
  static int cnt=0; int th=newvar("theta"+std::to_string(cnt),atan2(sr_nominal(y),sr_nominal(x))/2,0); int c=newvar("ch"+std::to_string(cnt),nc,2),s=newvar("sh"+std::to_string(cnt),ns,3,-1,c); vinfo[N[c].a].other=s; cnt++; angles[th]={0,c,s};
  double C=box(c),S=box(s); auto eq=[&](double a,double b){ int d=mk(SUB,node(a),node(b)); PC.push_back({EQ0,d,0}); };
  // r*(C^2-S^2)=x, 2 r C S = y, C>=0
  eq(sr_mul(r,sr_sub(sr_mul(C,C),sr_mul(S,S))),x); eq(sr_mul(2,sr_mul(r,sr_mul(C,S))),y); PC.push_back({GE0,c,0});
  return sr_mul(2.0,box(th)); }
double sr_cos(double x){ if(!boxed(x)&&x==0) return 1; double c,s; cossin(x,c,s); return c; }
double sr_sin(double x){ if(!boxed(x)&&x==0) return 0; double c,s; cossin(x,c,s); return s; }
double sr_cos2pi(double x){ return sr_cos(sr_mul(2*M_PI,x)); } double sr_sin2pi(double x){ return sr_sin(sr_mul(2*M_PI,x)); }
double sr_acos(double x){ if(!boxed(x)) return acos(x); sr_fatal("acos"); return 0;} 
double sr_asin(double x){ if(!boxed(x)) return asin(x); sr_fatal("asin"); return 0;} 
double sr_tan(double x){ return sr_div(sr_sin(x),sr_cos(x)); }
double sr_atan(double x){ if(!boxed(x)) return atan(x); return sr_atan2(x,1.0);} 
double sr_exp(double x){ if(!boxed(x)) return exp(x); sr_fatal("exp of symbolic"); return 0;} 
double sr_log(double x){ if(!boxed(x)) return log(x); sr_fatal("log of symbolic"); return 0;} 
double sr_tanh(double x){ if(!boxed(x)) return tanh(x); sr_fatal("tanh of symbolic"); return 0;} 
double sr_cbrt(double x){ if(!boxed(x)) return cbrt(x); sr_fatal("cbrt of symbolic"); return 0;} 
double sr_hypot(double x,double y){ return sr_sqrt(sr_add(sr_mul(x,x),sr_mul(y,y))); }
double sr_pow(double x,double y){ if(!boxed(x)&&!boxed(y)) { if(x==1||y==0) return 1; } if(!boxed(y)&&y==rint(y)&&fabs(y)<=16){ int k=(int)fabs(y); double r=1; for(int i=0;i<k;i++) r=sr_mul(r,x); return y<0?sr_div(1,r):r; } if(!boxed(y)&&2*y==rint(2*y)){ double s=sr_sqrt(x); return sr_pow(s,2*y);} if(!boxed(x)&&!boxed(y)) return pow(x,y); sr_fatal("pow"); return 0; }
double sr_fma(double a,double b,double c){ return sr_add(sr_mul(a,b),c);} 
double sr_ldexp(double x,int e){ return sr_mul(x,ldexp(1.0,e)); }
double sr_copysign(double x,double y){ double a=sr_fabs(x); return sr_fcmp(2,y,0.0)?a:sr_neg(a); }
float sr_fptrunc(double x){ if(boxed(x)) sr_fatal("fptrunc of symbolic"); return (float)x; }
double sr_nominal(double x){ return boxed(x)?N[idof(x)].nom:x; }
static std::map<std::string,int> byname;
void* sr_malloc(size_t n){ static int cnt=0; char b[40]; size_t m=(n+7)/8; double*p=(double*)malloc(m*8+16); if(n>=8){ snprintf(b,40,"uninit%d",cnt++); int id=newvar(b,7.25+cnt*0.375,0); byname[b]=id; for(size_t i=0;i<m;i++) p[i]=box(id);} return p; }
void sr_eigvals(int n,const double*re,const double*im,double*w){ double r[100],q[100]; for(int i=0;i<n*n;i++){r[i]=sr_nominal(re[i]);q[i]=sr_nominal(im[i]);} nom_eig(n,r,q,w);} 
double sr_var(const char*name,double nominal){ if(boxed(nominal)) nominal=N[idof(nominal)].nom; std::string s(name); for(auto&c:s) if(!isalnum(c)) c='_'; if(byname.count(s)) sr_fatal("duplicate variable %s",name); int id=newvar(s,nominal,0); byname[s]=id; return box(id);} 
double sr_varf(double nominal,const char*fmt,...){ char b[300]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); return sr_var(b,nominal);} 
double sr_fresh(const char*p,double nominal){ static int n=0; char b[100]; snprintf(b,sizeof b,"%s_f%d",p,n++); return sr_var(b,nominal);} 
static void assume(Atom a){ if(isc(a.id)){ int s=sgn(cv(a.id)); bool ok=a.k==EQ0?s==0:a.k==NE0?s!=0:a.k==GT0?s>0:s>=0; if(!ok) sr_infeasible("assumption false"); return; } if(!atomnom(a)) nompath=false; PC.push_back(a);} 
void sr_assume_gt(double a,double b){ assume({GT0,mk(SUB,node(a),node(b)),0}); }
void sr_assume_ge(double a,double b){ assume({GE0,mk(SUB,node(a),node(b)),0}); }
void sr_assume_ne(double a,double b){ assume({NE0,mk(SUB,node(a),node(b)),0}); }
void sr_assume_eq(double a,double b){ assume({EQ0,mk(SUB,node(a),node(b)),0}); }
void sr_define(double v,double x){ sr_assume_eq(v,x); }
static void chk(const char*l,int k,double a,double b){ CK.push_back({l,k,node(a),node(b),(int)PC.size(),0}); }
void sr_check_eq(const char*l,double a,double b){chk(l,0,a,b);} void sr_check_le(const char*l,double a,double b){chk(l,1,a,b);} void sr_check_lt(const char*l,double a,double b){chk(l,2,a,b);} void sr_check_ne(const char*l,double a,double b){chk(l,3,a,b);} 
void sr_check_true(const char*l,int c){ CK.push_back({l,4,0,0,(int)PC.size(),c}); }
#define VF char lb[300]; va_list ap; va_start(ap,fmt); vsnprintf(lb,sizeof lb,fmt,ap); va_end(ap);
void sr_checkf_eq(double a,double b,const char*fmt,...){VF sr_check_eq(lb,a,b);} void sr_checkf_le(double a,double b,const char*fmt,...){VF sr_check_le(lb,a,b);} void sr_checkf_lt(double a,double b,const char*fmt,...){VF sr_check_lt(lb,a,b);} void sr_checkf_true(int c,const char*fmt,...){VF sr_check_true(lb,c);} 
void sr_note(const char*fmt,...){VF notes.push_back(lb);} 
int sr_choose(const char*name,int lo,int hi){ int r; if(dpos<prefix.size()){ r=prefix[dpos++]; } else { r=lo; std::string s=tostr(taken,taken.size()); if(s.size())s+=","; for(int i=lo+1;i<=hi;i++) alts.push_back(s+std::to_string(i)); dpos++; prefix.push_back(lo);} taken.push_back(r); notes.push_back(std::string("choose ")+name+"="+std::to_string(r)); return r; }
void sr_infeasible(const char*why){ std::string s=std::string("CUT ")+why; dump(s.c_str()); _exit(0);} 
void sr_reach(const char*l){ reach_labels.push_back(l);} 
void sr_divzero_obligation(int on){divob=on;}
void sr_done(void){ dump("OK"); fflush(0); _exit(0);} 
}
static void dump(const char*status){ if(dumped) return; dumped=true; zkill(); FILE*f=fopen(outpath.c_str(),"w"); if(!f){perror("out");_exit(4);} 
  std::vector<char> need(N.size(),0); std::vector<int> st; auto push=[&](int x){ if(x>=0&&!need[x]){need[x]=1;st.push_back(x);} }; for(auto&c:CK) if(c.kind!=4){push(c.a);push(c.b);} for(auto&p:PC)push(p.id);
  while(!st.empty()){ int x=st.back(); st.pop_back(); Node&n=N[x]; switch(n.op){case ADD:case SUB:case MUL:case DIV:push(n.a);push(n.b);break;case NEG:push(n.a);break;case VAR:{VInfo&v=vinfo[n.a]; if(v.kind==1||v.kind==5)push(v.def); if(v.kind==2||v.kind==3)push(v.other); if(v.kind==2) push(v.def);} break;default:;} }
  static const char*on[]={"C","V","+","-","*","n","/"};
  for(size_t i=0;i<N.size();i++) if(need[i]){ Node&n=N[i]; if(n.op==CONST) fprintf(f,"N %zu C %s\n",i,cv(i).get_str().c_str()); else if(n.op==VAR) { int D=0; if(vinfo[n.a].kind==2&&vinfo[n.a].def>=0) D=angles[vinfo[n.a].def].D; fprintf(f,"N %zu V %s %.17g %d %d %d %d\n",i,varname[n.a].c_str(),n.nom,vinfo[n.a].kind,vinfo[n.a].def,vinfo[n.a].other,D);} else if(n.op==NEG) fprintf(f,"N %zu n %d\n",i,n.a); else fprintf(f,"N %zu %s %d %d\n",i,on[n.op],n.a,n.b); }
  static const char*ak[]={"eq","ne","gt","ge"}; for(auto&p:PC) fprintf(f,"P %s %d %d\n",ak[p.k],p.id,p.br);
  static const char*ck[]={"eq","le","lt","ne","true"}; for(auto&c:CK) fprintf(f,"K %s %d %d %d %d %.17g %.17g %s\n",ck[c.kind],c.a,c.b,c.npc,c.cond,c.kind==4?0:N[c.a].nom,c.kind==4?0:N[c.b].nom,c.label.c_str());
  for(auto&a:alts) fprintf(f,"X %s\n",a.c_str()); for(auto&n:notes) fprintf(f,"M %s\n",n.c_str()); for(auto&n:reach_labels) fprintf(f,"R %s\n",n.c_str());
  fprintf(f,"S %d %.4f %d %zu %s\n",nfeas,feas_time,nompath?1:0,N.size(),tostr(taken,taken.size()).c_str()); fprintf(f,"E %s\n",status); fclose(f); }
extern "C" int harness_main(int argc,char**argv);
static void onsig(int s){ char b[60]; snprintf(b,60,"SIGNAL %d",s); signal(s,SIG_DFL); dump(b); _exit(3);} 
extern "C" void sr_exit(int code){ char b[60]; snprintf(b,60,"EXIT %d",code); dump(b); _exit(0);} 
extern "C" void sr_abort(void){ dump("ABORT"); _exit(0);} 
int main(int argc,char**argv){ // rt OUT PREFIX args...
  if(argc<3){fprintf(stderr,"usage: x OUT PREFIX args\n");return 2;} signal(SIGPIPE,SIG_IGN); signal(SIGSEGV,onsig); signal(SIGBUS,onsig); signal(SIGFPE,onsig); signal(SIGABRT,onsig); signal(SIGALRM,onsig);
  outpath=argv[1]; const char*p=argv[2]; while(*p&&*p!='-'||(*p=='-'&&p[1])){ prefix.push_back(strtol(p,(char**)&p,10)); if(*p==',')p++; else break; } N.reserve(1<<16);
  if(getenv("SR_PATH_S")) alarm(atoi(getenv("SR_PATH_S")));
  argv[2]=argv[0]; harness_main(argc-2,argv+2); dump("OK"); fflush(0); _exit(0); }
