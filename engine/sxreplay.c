/* Native replay runtime: the same harness, linked with the real code compiled
   by gcc as the project's build does, fed with the counterexample's values. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdarg.h>
#include "sx.h"
static struct { char n[160]; double v; int used; } T[200000]; static int NT=0;
static int bad=0,checked=0; static unsigned long long st=88172645463325252ull; static double tol=1e-6;
static double rnd(void){ st^=st<<13; st^=st>>7; st^=st<<17; return (st>>11)*(1.0/9007199254740992.0); }
static double look(const char*n,double lo,double hi){ for(int i=0;i<NT;i++) if(!T[i].used&&!strcmp(T[i].n,n)){ T[i].used=1; return T[i].v; } return lo+(hi-lo)*rnd(); }
double sx_var(const char*n){ return look(n,-2,2); }
double sx_var_range(const char*n,double lo,double hi){ return look(n,lo,hi); }
void sx_assume_le(double a,double b){ if(!(a<=b+1e-12)){ printf("REPLAY assume-violated\n"); exit(3);} }
void sx_assume_lt(double a,double b){ if(!(a<b)){ printf("REPLAY assume-violated\n"); exit(3);} }
void sx_assume_eq(double a,double b){ if(!(fabs(a-b)<1e-9)){ printf("REPLAY assume-violated\n"); exit(3);} }
void sx_assume_ne(double a,double b){ if(a==b){ printf("REPLAY assume-violated\n"); exit(3);} }
void sx_prove_eq(double a,double b,const char*l){ checked++; double s=1+fabs(a)+fabs(b); if(!(fabs(a-b)<=tol*s)&&!(a==b)){ if(bad<20) printf("REPLAY FAIL %s: %.15g != %.15g\n",l,a,b); bad++; } }
void sx_prove_le(double a,double b,const char*l){ checked++; if(!(a<=b+1e-9*(1+fabs(a)+fabs(b)))){ if(bad<20) printf("REPLAY FAIL %s: %.15g > %.15g\n",l,a,b); bad++; } }
void sx_prove_lt(double a,double b,const char*l){ checked++; if(!(a<b)){ if(bad<20) printf("REPLAY FAIL %s: %.15g >= %.15g\n",l,a,b); bad++; } }
void sx_prove_true(int c,const char*l){ checked++; if(!c){ if(bad<20) printf("REPLAY FAIL %s\n",l); bad++; } }
double sx_cut(double v,const char*n){ (void)n; return v; }
void sx_note(const char*f,...){ (void)f; }
void sx_hint(const char*f,double x,double y,double v){ (void)f; (void)x; (void)y; (void)v; }
int sx_is_symbolic(double v){ (void)v; return 0; }
int sx_same(double a,double b){ return a==b; }
double sx_uf(const char*n,double a){ (void)n; return sin(1.37*a)+0.3*cos(2.1*a); }
double sx_numeric(double v){ return v; }
double sx_pi(void){ return 3.14159265358979323846; }
void sx_require_paths(int n){ (void)n; }
void sx_set_timeout(int n){ (void)n; }
void sx_sweep(int n){ (void)n; }
void sx_set_proof_hint(int n){ (void)n; }
int sx_replaying(void){ return 1; }
extern int harness(int,char**);
int main(int argc,char**argv){
  const char*f=getenv("SX_CEX"); if(f){ FILE*o=fopen(f,"r"); char line[1024]; while(o&&fgets(line,1024,o)){ char n[160]; double v; if(sscanf(line,"var %159s %lf",n,&v)==2&&NT<200000){ strcpy(T[NT].n,n); T[NT].v=v; NT++; } } if(o) fclose(o); }
  if(getenv("VERIF_SEED")) st^=strtoull(getenv("VERIF_SEED"),0,10)*0x9E3779B97F4A7C15ull;
  int rc=harness(argc,argv); printf("REPLAY checked=%d bad=%d rc=%d\n",checked,bad,rc); return bad?1:0; }
