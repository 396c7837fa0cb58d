/* Harness API.  The same harness source is compiled twice: through the
   symbolic pass (engine/sxrt.cpp) and natively with gcc for replay
   (engine/sxreplay.c). */
#ifndef SX_H
#define SX_H
#include <complex.h>
#include <stddef.h>
double sx_var(const char *name);                 /* fresh symbolic real (sampled in [-2,2]) */
double sx_var_range(const char *name,double lo,double hi); /* lo<=v<=hi assumed */
void   sx_assume_le(double a,double b);          /* assume a<=b */
void   sx_assume_lt(double a,double b);
void   sx_assume_eq(double a,double b);
void   sx_assume_ne(double a,double b);
void   sx_prove_eq(double a,double b,const char *label);
void   sx_prove_le(double a,double b,const char *label);
void   sx_prove_lt(double a,double b,const char *label);
void   sx_prove_true(int cond,const char *label); /* concrete on this path */
double sx_cut(double v,const char *name);        /* replace a term by a fresh variable (generalisation) */
void   sx_note(const char *fmt,...);             /* evidence note */
int    sx_is_symbolic(double v);
int    sx_same(double a,double b);               /* bitwise same handle */
double sx_uf(const char *name,double a);
double sx_rng(void);
void   sx_hint(const char *fn,double x,double y,double v); /* f(x[,y])=v is a fact of mathematics (sqrt, acos, atan2, ...) */
double sx_numeric(double v);                     /* concrete sample value (reporting only) */
double sx_pi(void);
void   sx_require_paths(int n);
void   sx_sweep(int on); /* merge terms proved equal while executing */
void   sx_set_timeout(int ms);
void   sx_set_proof_hint(int h);
int    sx_replaying(void);
void   sx_fpmap(double v,double *out);
#define SX_PI sx_pi()
#define sx_cvar(nm) sx_cvar_(nm)
static inline double complex sx_mkc(double r,double i){ double complex z; ((double*)&z)[0]=r; ((double*)&z)[1]=i; return z; }
static inline double complex sx_cvar_(const char *n){
  char b[128]; double r,i; __builtin_snprintf(b,128,"%s_r",n); r=sx_var(b); __builtin_snprintf(b,128,"%s_i",n); i=sx_var(b);
  return sx_mkc(r,i); }
static inline void sx_prove_ceq(double complex a,double complex b,const char*l){
  char t[256]; __builtin_snprintf(t,256,"%s.re",l); sx_prove_eq(creal(a),creal(b),t);
  __builtin_snprintf(t,256,"%s.im",l); sx_prove_eq(cimag(a),cimag(b),t); }
#endif
