/* SU(2) subgroup updates.  argv: what field L0.. seed nlinks */
#include "gh.h"
#include "SU2_rotate.h"
#include "hb.h"
#include "relax.h"
#include "draughtboard.h"
#include "gramschmidt.h"
#include "staples.h"
#define NSUB ((NC*(NC-1))/2)
static void embed(cplx*m,cplx a,cplx b,int p,int q){ m_id(m); m[p*NC+p]=a; m[p*NC+q]=b; m[q*NC+p]=sx_mkc(-RE(b),IM(b)); m[q*NC+q]=c_conj(a); }
static inline int pi_(int k){ return Latt.su2_data[k].idx_a/NC; }
static inline int pj_(int k){ return Latt.su2_data[k].idx_d/NC; }
/* sum of the staples around a link; w1 rectangles */
static void staple(cplx*r,const struct site*l,size_t i,int mu,double w0,double w1){ m_zero(r); cplx a[NCNC],s0[NCNC],s1[NCNC]; m_zero(s0); m_zero(s1); int m=mu+1; for(int nu=1;nu<=ND;nu++) if(nu!=m) for(int s=-1;s<2;s+=2){ int n=s*nu; int p0[3]={n,m,-n}; m_path(a,l,i,p0,3); m_add(s0,s0,a);
    if(w1!=0){ int P[3][5]={{n,n,m,-n,-n},{n,m,m,-n,-m},{-m,n,m,m,-n}}; for(int k=0;k<3;k++){ m_path(a,l,i,P[k],5); m_add(s1,s1,a); } } }
  for(int k=0;k<NCNC;k++) r[k]=w1!=0?c_add(c_scale(w0,s0[k]),c_scale(w1,s1[k])):s0[k]; }
static int fin(double a){ unsigned long long u; memcpy(&u,&a,8); return (u>>52&2047)!=2047; }
static int near(double a,double b){ if(!fin(a)||!fin(b)) return 0; double d=a-b; return d<1e-9&&d>-1e-9; }
#ifdef P_SWEEP
#ifdef IWASAKI
static const double W0=1.0+2.648,W1=-0.331;
#elif defined SYMANZIK
static const double W0=5.0/3.,W1=-1.0/12.;
#elif defined DBW2
static const double W0=1.0+11.2552,W1=-1.4069;
#else
static const double W0=1,W1=0;
#endif
static struct site*L,*S; static int*col,*done,*reu; static int lastc=-1; static size_t ci; static int cm; static double q[4]; static int ns; static int ishb; static size_t selk; static double*R; static int nr; static double sc,invb; static size_t nsub; static char t[90];
void gram_reunit(GLU_complex*__restrict U){ for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) if(L[i].O[mu]==U) reu[i*ND+mu]++; }
double par_rng_dbl(const uint32_t th){ (void)th; size_t k=(ci*ND+cm)*NSUB+nsub; int n=nr++; if(k==selk&&n<8){ char b[20]; snprintf(b,20,"rnd%d",n); R[n]=sx_var_range(b,0.001,0.999); return R[n]; } if(k==selk&&n>=8&&n<12) return R[n]=(n%4<2)?0.0:1.0; if(k==selk){ char b[20]; snprintf(b,20,"rnd%d",n); return R[n]=sx_var_range(b,0,1); } return n%6<2?0.0:(n%6<4?1.0:0.25); }
void only_subgroup(GLU_complex*s0,GLU_complex*s1,double*scale,const GLU_complex U[NCNC],const GLU_complex st[NCNC],const size_t k){
  if(ns%NSUB==0){ int f=0; for(size_t i=0;i<LVOLUME&&!f;i++) for(int mu=0;mu<ND;mu++) if(L[i].O[mu]==U){ ci=i; cm=mu; f=1; break; } sx_prove_true(f,"link of the lattice"); if(!f) exit(0);
    int c=col[ci*ND+cm]; if(c!=lastc){ for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) m_copy(S[i].O[mu],L[i].O[mu]); lastc=c; }
    done[ci*ND+cm]++; }
  nsub=k; sx_prove_true((int)k==ns%NSUB,"subgroups in turn"); ns++; nr=0;
  if(k==0||k==NSUB-1){ cplx r[NCNC]; staple(r,S,ci,cm,W0,W1); snprintf(t,90,"staple of link %zu %d",ci,cm); m_prove_eq((const cplx*)st,r,t); }
  if((ci*ND+cm)*NSUB+k==selk){ su2_var(q,"s"); sc=sx_var_range("scale",0.01,10); } else { double f[4]={0.5,-0.5,0.5,0.5}; memcpy(q,f,sizeof q); sc=0.5; }
  *s0=sx_mkc(q[0],q[1]); *s1=sx_mkc(q[2],q[3]); *scale=sc; }
void su2_rotate(GLU_complex U[NCNC],const GLU_complex s0,const GLU_complex s1,const size_t k){
  sx_prove_true(U==L[ci].O[cm]&&k==nsub,"rotates the link and subgroup it projected"); int sel=(ci*ND+cm)*NSUB+k==selk;
  /* E(s') against E(s)=[[a,b],[-b*,a*]] */
  cplx a=sx_mkc(q[0],q[1]),b=sx_mkc(q[2],q[3]);
  if(!ishb){ cplx x=c_sub(c_mul(c_conj(a),c_conj(a)),sx_mkc(RE(b)*RE(b)+IM(b)*IM(b),0)), y=c_scale(-2*RE(a),b); if(sel||(ci==0&&cm==0)){ sx_prove_ceq(s0,x,"over-relaxation squares the inverse"); sx_prove_ceq(s1,y,"over-relaxation squares the inverse"); } }
  else if(sel){ /* g=E(s')E(s) */ cplx g0=c_sub(c_mul(s0,a),c_mul(s1,c_conj(b))), g1=c_add(c_mul(s0,b),c_mul(s1,c_conj(a)));
    int n=(nr-2)/4; sx_prove_true(nr==4*n+2&&n>=1,"four draws per trial and two for the direction"); static const double TP=6.283185307179586476925286766559;
    double nm=invb*sc; for(int z=0;z<n;z++){ double*r=R+4*z; double x3=cos(TP*r[1]),l0=log(r[2]),l1=log(r[3]); if(z<2){ sx_assume_le(l0,0); sx_assume_le(l1,0); } double d=-(l0+l1*(x3*x3))*nm,e=-(l1+l0*(x3*x3))*nm; int alt=0;
        if(z<2){ double m=sx_numeric(RE(g0)),nd=sx_numeric(d),ne=sx_numeric(e); if(!fin(m)||!fin(nd)||!fin(ne)) m=nd=ne=0; if(z==n-1&&!near(m,1-nd)&&near(m,1-ne)) alt=1; } if(alt) d=e;
        if(z<n-1){ if(z<2){ double h=1-0.5*d,h2=1-0.5*e; (void)h2; sx_prove_le(h,r[0]*r[0],"rejected draws fail the Kennedy-Pendleton test"); } }
        else { if(z<2) sx_prove_le(r[0]*r[0],1-0.5*d,"accepted draw passes the Kennedy-Pendleton test"); double a0=1-d; sx_prove_eq(RE(g0),a0,"heat bath: real part of the new subgroup element");
          sx_prove_eq(RE(s0)*RE(s0)+IM(s0)*IM(s0)+RE(s1)*RE(s1)+IM(s1)*IM(s1),1,"heat bath: unit norm");
          double ar2=1-a0*a0,r5=2*R[4*n]-1,th=TP*R[4*n+1]; double c3=ar2*r5*r5,cc=cos(th),ss=sin(th),rh=ar2-c3; double v[3]={IM(g0)*IM(g0),RE(g1)*RE(g1),IM(g1)*IM(g1)},e3[3]={c3,rh*cc*cc,rh*ss*ss}; int used=0;
          for(int k2=0;k2<3;k2++){ int at=-1; for(int j=0;j<3;j++) if(!(used>>j&1)&&near(sx_numeric(v[j]),sx_numeric(e3[k2]))){ at=j; break; } if(at<0) for(int j=0;j<3;j++) if(!(used>>j&1)){ at=j; break; } used|=1<<at; sx_prove_eq(v[at],e3[k2],"heat bath: direction"); } } } }
  if(k==NSUB-1){ m_dense(U); } }
#endif
int harness(int c,char**v){ sx_sweep(1); const char*w=v[1]; int k=atoi(v[2]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(v[3+m]); unsigned seed=atoi(v[3+ND]); int nl=c>4+ND?atoi(v[4+ND]):3; (void)k; (void)nl; lat_dims(d);
  Latt.Nthreads=1;
  compute_pertinent_indices();
#ifndef P_SWEEP
  char t[90]; lat_seed=seed*77+5; int seen[NC][NC]; memset(seen,0,sizeof seen);
  for(int z=0;z<NSUB;z++){ struct su2_subgroups s=Latt.su2_data[z]; int i=s.idx_a/NC,j=s.idx_d/NC; sx_prove_true(s.idx_a==(size_t)i*(NC+1)&&s.idx_d==(size_t)j*(NC+1)&&s.idx_b==(size_t)(i*NC+j)&&s.idx_c==(size_t)(j*NC+i)&&i<j&&j<NC,"indices of a 2x2 block"); if(i<NC&&j<NC) seen[i][j]++;
    cplx E[NCNC],U[NCNC],V[NCNC],W[NCNC],D[NCNC],a=sx_cvar("a"),b=sx_cvar("b");
    if(!strcmp(w,"rot")){ embed(E,a,b,i,j); m_var(U,"u"); m_copy(V,U); shortened_su2_multiply((GLU_complex*)V,a,b,z); m_mul(W,E,U); snprintf(t,90,"left product in subgroup %d",z); m_prove_eq(V,W,t);
      m_copy(V,U); shortened_su2_multiply_dag((GLU_complex*)V,a,b,z); m_dag(D,E); m_mul(W,U,D); snprintf(t,90,"right product in subgroup %d",z); m_prove_eq(V,W,t);
#if NC==2
      double f[4]; su2_var(f,"g"); U[0]=sx_mkc(f[0],f[1]); U[1]=sx_mkc(f[2],f[3]); U[2]=sx_mkc(-f[2],f[3]); U[3]=sx_mkc(f[0],-f[1]);
#endif
      int p=i,q=j;
#if NC==3
      if(z==2){ p=j; q=i; }
#endif
      embed(E,a,b,p,q); m_copy(V,U); su2_rotate((GLU_complex*)V,a,b,z); m_mul(W,E,U); snprintf(t,90,"rotation in subgroup %d",z); m_prove_eq(V,W,t); }
    if(!strcmp(w,"sub")){ int p=i,q=j; 
#if NC==3
      if(z==2){ p=j; q=i; }
#endif
      m_var(U,"u"); m_dense(V); m_dag(D,V); m_mul(W,U,D); GLU_complex s0,s1; double scale; only_subgroup(&s0,&s1,&scale,(GLU_complex*)U,(GLU_complex*)V,z);
      cplx x=c_add(W[p*NC+p],c_conj(W[q*NC+q])),y=c_sub(W[p*NC+q],c_conj(W[q*NC+p])); double n=RE(x)*RE(x)+IM(x)*IM(x)+RE(y)*RE(y)+IM(y)*IM(y); sx_assume_lt(0.001,n);
      snprintf(t,90,"projection on subgroup %d",z); sx_prove_eq(scale*scale*n,1,t); sx_prove_lt(0,scale,t); sx_prove_ceq(s0,c_scale(scale,x),t); sx_prove_ceq(s1,c_scale(scale,y),t); } }
  for(int i=0;i<NC;i++) for(int j=i+1;j<NC;j++) sx_prove_true(seen[i][j]==1,"every pair of rows once");
#else
  ishb=!strcmp(w,"hb"); L=lat_new(); f_dense(L,seed); if(k==0) f_zmul(L); if(k==1) f_gen(L,nl,seed); if(k==2) f_rot(L,nl,seed); S=copy(L); col=malloc(LVOLUME*ND*sizeof(int)); done=calloc(LVOLUME*ND,sizeof(int)); reu=calloc(LVOLUME*ND,sizeof(int)); R=malloc(400*sizeof(double)); lat_seed=seed*13+1; selk=(seed*7919)%(LVOLUME*ND*NSUB); invb=sx_var_range("NCoverbeta",0.1,4);
  struct draughtboard db; int rc;
#ifdef IMPROVED_SMEARING
  rc=init_improved_cb(&db); sx_prove_true(rc==GLU_SUCCESS,"draughtboard for extents that are multiples of four"); if(rc!=GLU_SUCCESS) return 0; memset(col,-1,LVOLUME*ND*sizeof(int)); for(size_t a=0;a<db.Ncolors;a++) for(size_t z=0;z<db.Nsquare[a];z++){ size_t i=db.square[a][z]; sx_prove_true(i<LVOLUME&&col[i*ND+a/4]==-1,"every link has one colour"); if(i<LVOLUME) col[i*ND+a/4]=a; }
#else
  rc=init_cb(&db,LVOLUME,ND); for(size_t a=0;a<db.Ncolors;a++) for(size_t z=0;z<db.Nsquare[a];z++) for(int mu=0;mu<ND;mu++) col[db.square[a][z]*ND+mu]=mu*db.Ncolors+a;
#endif
  if(ishb) hb_lattice(L,invb,db); else OR_lattice(L,db);
  for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++){ sx_prove_true(done[i*ND+mu]==1,"every link once per sweep"); if(ishb) sx_prove_true(reu[i*ND+mu]==1,"every link reunitarised once"); }
#endif
  return 0; }
