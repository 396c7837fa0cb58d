/* gaussian numbers from any sequence of uniform ones in [0,1) */
#include "lat.h"
#include "par_rng.h"
static double u[16]; static int nu; static char t[90];
double par_MWC_4096_dbl(const uint32_t th){ (void)th; if(nu>=2*MAXP){ nu++; return 0.75; } snprintf(t,90,"u%d",nu); double x=sx_var_range(t,0,1); sx_assume_lt(x,1); return u[nu++]=x; }
int harness(int c,char**v){ lat_dims((size_t[]){2,2,2,2}); Latt.Nthreads=1;
  if(!strcmp(v[1],"box")){ double complex z=par_polar_box(0); double x=creal(z),y=cimag(z); sx_prove_true(nu%2==0&&nu>0,"uniform numbers are drawn in pairs");
    if(nu>2*MAXP) return 0; /* the path on which every symbolic pair was rejected */
    double a=2*u[nu-2]-1,b=2*u[nu-1]-1,s=a*a+b*b; sx_prove_lt(0,s,"the pair used is not the centre"); sx_prove_lt(s,1,"the pair used is inside the unit disc");
    sx_prove_eq(x*b,y*a,"direction of the pair"); sx_prove_eq((x*x+y*y)*s,-log(s)*s,"modulus from the radius"); sx_prove_le(0,x*a,"same quadrant"); sx_prove_le(0,y*b,"same quadrant");
    for(int k=0;k<nu-2;k+=2){ double p=2*u[k]-1,q=2*u[k+1]-1; sx_prove_true(1,"rejected pair"); if(p*p+q*q!=0) sx_prove_le(1,p*p+q*q,"a pair is rejected only outside the disc"); }
  } else if(!strcmp(v[1],"polar")){ double x=par_polar(0); sx_prove_true(nu==2,"two uniform numbers"); sx_prove_lt(0,1-u[0],"logarithm of a positive number"); 
    sx_prove_eq(x*x,-2*log(1-u[0])*cos(2*SX_PI*u[1])*cos(2*SX_PI*u[1]),"gaussian number");
  } else if(!strcmp(v[1],"mat")){ GLU_complex U[NCNC]; par_generate_NCxNC(U,0); }
  return 0; }
