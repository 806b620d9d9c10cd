/* Native (double) implementation of the harness API: replays one assignment
   against the real code, compiled without instrumentation. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include "sym.h"
#include "nom.h"
void sr_eigvals(int n,const double*re,const double*im,double*w){nom_eig(n,re,im,w);}
static struct { char n[128]; double v; } *M; static int nM; static int *C; static int nC, iC; static int nviol=0, nchk=0; static double tol=1e-6; static FILE *out;
static double look(const char*name,double nominal){ char s[300]; int i; snprintf(s,sizeof s,"%s",name); for(char*c=s;*c;c++) if(!((*c>='0'&&*c<='9')||(*c>='a'&&*c<='z')||(*c>='A'&&*c<='Z'))) *c='_'; for(i=0;i<nM;i++) if(!strcmp(M[i].n,s)) return M[i].v; return nominal; }
double sr_var(const char*n,double nominal){return look(n,nominal);} 
#define VF char lb[300]; va_list ap; va_start(ap,fmt); vsnprintf(lb,sizeof lb,fmt,ap); va_end(ap);
double sr_varf(double nominal,const char*fmt,...){VF return look(lb,nominal);} 
double sr_fresh(const char*p,double nominal){ static int n=0; char b[100]; snprintf(b,sizeof b,"%s_f%d",p,n++); return look(b,nominal);} 
void*sr_malloc(size_t n){ static int cnt=0; char b[40]; size_t m=(n+7)/8,i; double*p=(double*)malloc(m*8+16); if(n>=8){ snprintf(b,40,"uninit%d",cnt++); double v=look(b,7.25+cnt*0.375); for(i=0;i<m;i++) p[i]=v;} return p; }
void sr_angle(double k,int D){}
static void bad(const char*w){ printf("ASSUMPTION-VIOLATED %s\n",w); fflush(stdout); }
#define SL(a,b) (1e-7*(1+fabs(a)+fabs(b)))
void sr_assume_gt(double a,double b){ if(!(a>b-SL(a,b)))bad("gt"); } void sr_assume_ge(double a,double b){ if(!(a>=b-SL(a,b)))bad("ge"); } void sr_assume_ne(double a,double b){ if(a==b)bad("ne"); } void sr_assume_eq(double a,double b){ if(fabs(a-b)>SL(a,b)*100)bad("eq"); } void sr_define(double a,double b){sr_assume_eq(a,b);} 
static void viol(const char*l,const char*op,double a,double b){ nviol++; printf("CHECK-FAILED %s: %.15g %s %.15g does not hold\n",l,a,op,b); fflush(stdout);} 
void sr_check_eq(const char*l,double a,double b){ nchk++; if(!(fabs(a-b)<=tol*(1+fabs(a)+fabs(b)))) viol(l,"==",a,b);} 
void sr_check_le(const char*l,double a,double b){ nchk++; if(!(a<=b+tol*(1+fabs(a)+fabs(b)))) viol(l,"<=",a,b);} 
void sr_check_lt(const char*l,double a,double b){ nchk++; if(!(a<b+tol*1e-3*(1+fabs(a)+fabs(b)))) viol(l,"<",a,b);} 
void sr_check_ne(const char*l,double a,double b){ nchk++; if(!(fabs(a-b)>1e-12)) viol(l,"!=",a,b);} 
void sr_check_true(const char*l,int c){ nchk++; if(!c){ nviol++; printf("CHECK-FAILED %s\n",l); fflush(stdout);} }
void sr_checkf_eq(double a,double b,const char*fmt,...){VF sr_check_eq(lb,a,b);} void sr_checkf_le(double a,double b,const char*fmt,...){VF sr_check_le(lb,a,b);} void sr_checkf_lt(double a,double b,const char*fmt,...){VF sr_check_lt(lb,a,b);} void sr_checkf_true(int c,const char*fmt,...){VF sr_check_true(lb,c);} 
int sr_choose(const char*name,int lo,int hi){ char b[120]; snprintf(b,120,"choose_%s",name); return (int)look(b,lo); }
void sr_infeasible(const char*w){ printf("CUT %s\n",w); printf("DONE %d %d\n",nchk,nviol); fflush(stdout); _Exit(nviol?1:0);} void sr_reach(const char*l){} void sr_done(void){ printf("DONE %d %d\n",nchk,nviol); fflush(stdout); _Exit(nviol?1:0);} 
int sr_is_native(void){return 1;} int sr_symbolic(double x){return 0;} double sr_sqrt_of(double x){return sqrt(x);} void sr_fatal(const char*fmt,...){VF printf("FATAL %s\n",lb); fflush(stdout); _Exit(3);} 
double sr_nominal(double x){return x;} double sr_cos2pi(double x){return cos(6.283185307179586477*x);} double sr_sin2pi(double x){return sin(6.283185307179586477*x);} void sr_note(const char*fmt,...){} void sr_divzero_obligation(int on){} void sr_cut_at_division(int on){}
void sr_exit(int c){ printf("EXIT %d\n",c); sr_done(); } void sr_abort(void){ printf("ABORT\n"); sr_done(); }
int harness_main(int,char**);
int main(int argc,char**argv){ FILE*f=fopen(argv[1],"r"); char n[128]; double v; if(!f)return 4; M=malloc(sizeof(*M)*100000); while(fscanf(f,"%127s %lf",n,&v)==2){ strcpy(M[nM].n,n); M[nM++].v=v; } fclose(f); if(getenv("SR_TOL")) tol=atof(getenv("SR_TOL")); argv[1]=argv[0]; harness_main(argc-1,argv+1); sr_done(); return 0; }

void sr_quiet(double x){}
