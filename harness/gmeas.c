/* gauge-condition measures.  argv: what field L0.. seed nlinks */
#include "gh.h"
#include "lin_derivs.h"
#include "gftests.h"
#include "line_search.h"
#include "CFACG.h"
#include "FACG.h"
#include "Coulomb.h"
#include "Landau.h"
#include "plaqs_links.h"
#include "draughtboard.h"
/* traceless hermitian part of U/i */
static void aproj(cplx*r,const cplx*u){ cplx d[NCNC]; m_dag(d,u); for(int i=0;i<NCNC;i++){ cplx z=c_sub(u[i],d[i]); r[i]=sx_mkc(0.5*IM(z),-0.5*RE(z)); } double tr=RE(m_tr(r)); for(int i=0;i<NC;i++) r[i*(NC+1)]=c_sub(r[i*(NC+1)],sx_mkc(tr/NC,0)); }
/* lattice divergence (backward minus here) over the first n directions, of gauge rotated links when g is given (slice t) */
static void divA(cplx*r,const struct site*lat,size_t i,int n){ m_zero(r); for(int mu=0;mu<n;mu++){ cplx a[NCNC],b[NCNC]; aproj(a,lat[i].O[mu]); aproj(b,lat[sh_of(i,mu,-1)].O[mu]); m_sub(b,b,a); m_add(r,r,b);} }
static double tr2(const cplx*a){ double s=0; for(int i=0;i<NCNC;i++) s=s+(RE(a[i])*RE(a[i])+IM(a[i])*IM(a[i])); return s; }
static void pck(cplx*p,const cplx*a){ int k=0; for(int i=0;i<NC-1;i++) for(int j=i;j<NC;j++) p[k++]=a[i*NC+j]; 
#if NC==3
  cplx q[5]={a[0],a[1],a[2],a[4],a[5]}; for(int z=0;z<5;z++) p[z]=q[z];
#endif
}
static void heq(const cplx*s,const cplx*ref,const char*l){ cplx p[HERMSIZE]; pck(p,ref); char t[90]; for(int k=0;k<HERMSIZE;k++){ snprintf(t,90,"%s[%d]",l,k); sx_prove_ceq(s[k],p[k],t);} }
/* unpack the optimiser's direction: antihermitian i*Delta, for NC=3 with the two diagonal entries packed in one number */
static void unp(cplx*r,cplx**in,size_t i){
#if NC==3
  double a=IM(in[0][i]),d=-RE(in[0][i]); cplx o[3]; for(int k=0;k<3;k++){ cplx z=in[k+1][i]; o[k]=sx_mkc(IM(z),-RE(z)); } m_zero(r); r[0]=a; r[4]=d; r[8]=-a-d; r[1]=o[0];r[2]=o[1];r[5]=o[2]; r[3]=c_conj(o[0]);r[6]=c_conj(o[1]);r[7]=c_conj(o[2]);
#else
  int k=0; double s=0; m_zero(r); for(int a=0;a<NC-1;a++) for(int b=a;b<NC;b++){ cplx z=in[k++][i]; cplx y=sx_mkc(IM(z),-RE(z)); if(a==b){ r[a*(NC+1)]=RE(y); s=s+RE(y);} else { r[a*NC+b]=y; r[b*NC+a]=c_conj(y);} } r[NCNC-1]=-s;
#endif
}
#ifdef P_DRV
/* record the optimiser's directions; do not move */
#define MAXC 8
static cplx*D[MAXC]; static int nd; static size_t VOL; static int tcol[MAXC]; static size_t tsel;
static void rec(const GLU_complex**in,size_t t){ 
#pragma omp single
  { if(t==tsel && nd<MAXC){ D[nd]=malloc(VOL*NCNC*sizeof(cplx)); for(size_t i=0;i<VOL;i++) unp(D[nd]+i*NCNC,(cplx**)in,i); tcol[nd]=t; nd++; } } }
static size_t cur_t;
void line_search_Coulomb(double*red,GLU_complex**gauge,const struct draughtboard db,const struct site*lat,const GLU_complex**in,const size_t t){ (void)red;(void)db;(void)lat;(void)gauge; rec(in,t);
#pragma omp single
  { cur_t=t; } }
void exponentiate_gauge_CG(GLU_complex**gauge,const GLU_complex**in,const double al){ (void)gauge;(void)al; rec(in,cur_t); }
void line_search_Landau(double*red,struct site*lat,const GLU_complex**in){ (void)red;(void)lat; rec(in,0); }
void egauge_Landau(struct site*lat,const GLU_complex**in,const double al){ (void)lat;(void)al; rec(in,0); }
void latt_reunitU(struct site*lat){ (void)lat; }
void gram_reunit(GLU_complex*__restrict U){ (void)U; }
int initialise_par_rng(const char*f){ (void)f; return GLU_SUCCESS; }
void free_par_rng(void){}
double av_plaquette(const struct site*__restrict lat){ (void)lat; return 0; }
double all_links(const struct site*__restrict lat,double*a,double*b){ (void)lat; *a=*b=0; return 0; }
#endif
#ifdef P_TH
double latt_deriv_AntiHermitian_proj(GLU_complex sum[HERMSIZE],const struct site*__restrict lat,const size_t i,const size_t M){ (void)sum;(void)lat;(void)M; static double*q; if(!q){ q=malloc(LVOLUME*sizeof(double)); char t[20]; for(size_t k=0;k<LVOLUME;k++){ snprintf(t,20,"q%zu",k); q[k]=sx_var_range(t,0,100); } } return q[i]; }
#endif
#ifdef P_CT
/* the logarithm of a link is an arbitrary hermitian function of it: its image under a fixed linear map stands in for it */
#if NC>3
void exact_log_slow(GLU_complex Q[NCNC],const GLU_complex*U){ for(int i=0;i<NCNC;i++) Q[i]=U[i]*(1.+0.25*i); }
#else
void exact_log_slow(GLU_complex Q[NCNC],const GLU_complex*U){ aproj((cplx*)Q,(const cplx*)U); }
#endif
#endif
int harness(int c,char**v){ sx_sweep(1); const char*w=v[1]; int k=atoi(v[2]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(v[3+m]); unsigned seed=atoi(v[3+ND]); int nl=c>4+ND?atoi(v[4+ND]):3; lat_dims(d); char t[90];
  struct site*lat=lat_new(); f_dense(lat,seed); if(k==0) f_zmul(lat); if(k==1) f_gen(lat,nl,seed); if(k==2) f_rot(lat,nl,seed); static const double VAL=0.4444444444444444; (void)VAL;
  if(!strcmp(w,"deriv")){ double s=0; for(size_t i=0;i<LVOLUME;i++) for(int n=ND-1;n<=ND;n++){ cplx e[NCNC],q[HERMSIZE]; divA(e,lat,i,n); memset(q,0,sizeof q); double r=latt_deriv_AntiHermitian_proj(q,lat,i,n); snprintf(t,90,"divergence %zu %d",i,n); heq(q,e,t); double x=2*tr2(e); sx_prove_eq(r,x,t);
      if(n==ND){ s=s+x; cplx f[HERMSIZE]; memset(f,0,sizeof f); double y=fast_deriv_AntiHermitian_proj(f,lat,i); snprintf(t,90,"fast divergence %zu",i); heq(f,e,t);
#if NC==3
        double a=3*RE(e[0]),b=3*RE(e[4]); x=VAL*(a*a+b*b+a*b)+4*(RE(e[1])*RE(e[1])+IM(e[1])*IM(e[1])+RE(e[2])*RE(e[2])+IM(e[2])*IM(e[2])+RE(e[5])*RE(e[5])+IM(e[5])*IM(e[5]));
#endif
        sx_prove_eq(y,x,t); } } }
  if(!strcmp(w,"sum")){ double m; double s=0,e=0; for(size_t i=0;i<LVOLUME;i++) s=s+latt_deriv_AntiHermitian_proj(0,lat,i,ND); double th=theta_test_lin(lat,&m,ND); sx_prove_eq(th*((double)NC*LVOLUME),2*s,"theta"); int at=0; for(size_t i=0;i<LVOLUME;i++){ double q=latt_deriv_AntiHermitian_proj(0,lat,i,ND); sx_prove_le(q,m,"maximum"); if(sx_same(q,m)) at=1; } sx_prove_true(at||m==0,"maximum attained"); (void)e; }
  if(!strcmp(w,"func")){ double s=0; for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) s=s+RE(m_tr(lat[i].O[mu])); sx_prove_eq((1-gauge_functional(lat))*((double)NC*ND*LVOLUME),s,"gauge_functional"); }
#ifdef P_CT
  if(!strcmp(w,"ctime")){ double lin,lg; const_time(lat,&lin,&lg); size_t T=Latt.dims[ND-1]; double s[2]={0,0}; cplx A[2][NCNC];
    for(size_t t=0;t<T;t++){ cplx b[2][NCNC]; m_zero(b[0]); m_zero(b[1]); for(size_t i=LCU*t;i<LCU*(t+1);i++){ cplx p[NCNC]; aproj(p,lat[i].O[ND-1]); m_add(b[0],b[0],p); exact_log_slow((GLU_complex*)p,(GLU_complex*)lat[i].O[ND-1]); m_add(b[1],b[1],p); }
      if(!t){ memcpy(A,b,sizeof b); continue; }
      for(int z=0;z<2;z++) for(int q=0;q<NCNC;q++){
#if NC<4
          if(q==NCNC-1||q/NC>q%NC) continue; /* independent entries of a traceless hermitian matrix */
#endif
          cplx x=c_sub(A[z][q],b[z][q]); s[z]=s[z]+sqrt(RE(x)*RE(x)+IM(x)*IM(x)); } }
    sx_prove_eq(lin*((double)NCNC*(T-1)),s[0],"time constancy"); sx_prove_eq(lg*((double)NCNC*(T-1)),s[1],"time constancy of the logarithm"); }
#endif
  if(!strcmp(w,"min")){ static const double A[4][3]={{0,0.15,0.3},{0,0.125,0.5},{0,0.25,0.4},{0,0.08,0.2}}; const double*a=A[seed%4]; double f[3]={sx_var_range("f0",-1,1),sx_var_range("f1",-1,1),sx_var_range("f2",-1,1)}; double r=approx_minimum(3,a,f);
    /* parabola f0 + b x + cc x^2 through the three probes: the step is its vertex when that lies between the probes, the last probe when it lies beyond */
    double d1=(f[1]-f[0])/a[1], d2=(f[2]-f[1])/(a[2]-a[1]), cc=(d2-d1)/a[2], b=d1-cc*a[1];
    sx_prove_le(r,a[2],"inside the probes"); sx_prove_le(0,r,"forward");
    if(cc>0.001){ double v=-b, den=2*cc; if(v>=0.001){ if(v<=den*a[2]-0.001) sx_prove_eq(r*den,v,"vertex"); else if(v>=den*a[2]+0.001) sx_prove_eq(r,a[2],"clipped"); } } }
#ifdef P_DRV
  if(!strcmp(w,"landau")){ VOL=LVOLUME; tsel=0; struct fftw_stuff F; F.in=malloc(TRUE_HERM*sizeof(cplx*)); for(int q=0;q<TRUE_HERM;q++) F.in[q]=malloc(LVOLUME*sizeof(cplx)); F.out=0;F.psq=0;F.forward=0;F.backward=0; double th=0;
    FACG(lat,&F,&th,-1.0,1); cplx*e=malloc(VOL*NCNC*sizeof(cplx)); double n=0,y=0; for(size_t i=0;i<VOL;i++){ divA(e+i*NCNC,lat,i,ND); n=n+tr2(e+i*NCNC); 
#if NC==3
      const cplx*q=e+i*NCNC; double a=3*RE(q[0]),b=3*RE(q[4]); y=y+(VAL*(a*a+b*b+a*b)+4*(RE(q[1])*RE(q[1])+IM(q[1])*IM(q[1])+RE(q[2])*RE(q[2])+IM(q[2])*IM(q[2])+RE(q[5])*RE(q[5])+IM(q[5])*IM(q[5])));
#endif
    }
    if(NC!=3) y=2*n; sx_prove_eq(th*((double)NC*LVOLUME),y,"Landau accuracy"); sx_prove_true(nd==2,"two steps");
    /* nothing moved, so the conjugate factor is max(0,0) or one; the second direction is e or 2e */
    for(size_t i=0;i<VOL;i++){ snprintf(t,90,"Landau direction %zu",i); m_prove_eq(D[0]+i*NCNC,e+i*NCNC,t); cplx x[NCNC]; m_scale(x,th<1E-6?2:1,e+i*NCNC); snprintf(t,90,"Landau conjugate direction %zu",i); m_prove_eq(D[1]+i*NCNC,x,t);} }
#endif
  return 0; }
