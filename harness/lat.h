/* common helpers of the harnesses */
#ifndef LAT_H
#define LAT_H
#include "Mainfile.h"
#include "sx.h"
#include "init.h"
#include "geometry.h"
#include "par_rng.h"
#include "random_config.h"
#ifndef SX_NOLATT
struct latt_info Latt ;
#endif
typedef GLU_complex cplx;
static inline double RE(cplx z){ return ((double*)&z)[0]; }
static inline double IM(cplx z){ return ((double*)&z)[1]; }
/* reference arithmetic, written independently of the library */
static inline cplx c_add(cplx a,cplx b){ return sx_mkc(RE(a)+RE(b),IM(a)+IM(b)); }
static inline cplx c_sub(cplx a,cplx b){ return sx_mkc(RE(a)-RE(b),IM(a)-IM(b)); }
static inline cplx c_mul(cplx a,cplx b){ return sx_mkc(RE(a)*RE(b)-IM(a)*IM(b),RE(a)*IM(b)+IM(a)*RE(b)); }
static inline cplx c_conj(cplx a){ return sx_mkc(RE(a),-IM(a)); }
static inline cplx c_scale(double s,cplx a){ return sx_mkc(s*RE(a),s*IM(a)); }
static inline void m_zero(cplx*a){ for(int i=0;i<NCNC;i++) a[i]=0; }
static inline void m_id(cplx*a){ m_zero(a); for(int i=0;i<NC;i++) a[i*(NC+1)]=1; }
static inline void m_copy(cplx*a,const cplx*b){ for(int i=0;i<NCNC;i++) a[i]=b[i]; }
static inline void m_mul(cplx*r,const cplx*a,const cplx*b){ cplx t[NCNC]; for(int i=0;i<NC;i++)for(int j=0;j<NC;j++){ cplx s=0; for(int k=0;k<NC;k++) s=c_add(s,c_mul(a[i*NC+k],b[k*NC+j])); t[i*NC+j]=s; } m_copy(r,t); }
static inline void m_dag(cplx*r,const cplx*a){ cplx t[NCNC]; for(int i=0;i<NC;i++)for(int j=0;j<NC;j++) t[i*NC+j]=c_conj(a[j*NC+i]); m_copy(r,t); }
static inline void m_add(cplx*r,const cplx*a,const cplx*b){ for(int i=0;i<NCNC;i++) r[i]=c_add(a[i],b[i]); }
static inline void m_sub(cplx*r,const cplx*a,const cplx*b){ for(int i=0;i<NCNC;i++) r[i]=c_sub(a[i],b[i]); }
static inline void m_scale(cplx*r,double s,const cplx*a){ for(int i=0;i<NCNC;i++) r[i]=c_scale(s,a[i]); }
static inline cplx m_tr(const cplx*a){ cplx s=0; for(int i=0;i<NC;i++) s=c_add(s,a[i*(NC+1)]); return s; }
static inline cplx m_detn(const cplx*a,int n){ if(n==1) return a[0]; cplx s=0; cplx b[NCNC]; for(int c=0;c<n;c++){ int k=0; for(int i=1;i<n;i++)for(int j=0;j<n;j++) if(j!=c) b[k++]=a[i*n+j]; cplx t=c_mul(a[c],m_detn(b,n-1)); s=(c&1)?c_sub(s,t):c_add(s,t);} return s; }
static inline cplx m_det(const cplx*a){ return m_detn(a,NC); }
static inline void m_prove_eq(const cplx*a,const cplx*b,const char*l){ char t[200]; for(int i=0;i<NCNC;i++){ snprintf(t,200,"%s[%d]",l,i); sx_prove_ceq(a[i],b[i],t);} }
static inline void m_var(cplx*a,const char*n){ char t[100]; for(int i=0;i<NCNC;i++){ snprintf(t,100,"%s%d",n,i); a[i]=sx_cvar(t);} }
/* a general special unitary matrix: NC=2 (a,b) on the 3-sphere; else a product
   of SU(2) embeddings with rational parametrisation (all of SU(N) but a null set) */
static inline void su2_var(double q[4],const char*n){ /* stereographic */ char t[100]; double x,y,z; snprintf(t,100,"%s_x",n); x=sx_var(t); snprintf(t,100,"%s_y",n); y=sx_var(t); snprintf(t,100,"%s_z",n); z=sx_var(t); double r=x*x+y*y+z*z, d=1/(1+r); q[0]=(1-r)*d; q[1]=2*x*d; q[2]=2*y*d; q[3]=2*z*d; }
static inline void su2_embed(cplx*m,const double q[4],int a,int b){ m_id(m); m[a*NC+a]=sx_mkc(q[0],q[3]); m[a*NC+b]=sx_mkc(q[2],q[1]); m[b*NC+a]=sx_mkc(-q[2],q[1]); m[b*NC+b]=sx_mkc(q[0],-q[3]); }
static inline void su_var(cplx*U,const char*n){ m_id(U); for(int a=0;a<NC;a++)for(int b=a+1;b<NC;b++){ char t[80]; snprintf(t,80,"%s_%d%d",n,a,b); double q[4]; su2_var(q,t); cplx m[NCNC]; su2_embed(m,q,a,b); m_mul(U,U,m);} }
static inline void lat_dims(const size_t*d){ for(int mu=0;mu<ND;mu++) Latt.dims[mu]=d[mu]; init_latt(); }

/* ---- gauge fields ---- */
#include <stdlib.h>
static unsigned lat_seed;
static inline unsigned lat_rnd(unsigned n){ lat_seed=lat_seed*1664525u+1013904223u; return (lat_seed>>12)%n; }
/* a special unitary generalised permutation matrix with entries in {1,i,-1,-i}: exact in floating point */
static inline void m_mono(cplx*m){ int p[NC],k[NC],s=0; for(int i=0;i<NC;i++){ p[i]=i; k[i]=lat_rnd(4);} for(int i=NC-1;i>0;i--){ int j=lat_rnd(i+1); if(j!=i){ int t=p[i];p[i]=p[j];p[j]=t; s+=2; } } for(int i=0;i<NC;i++) s+=k[i]; k[0]=(k[0]+4*NC*4-s%4)%4; m_zero(m); for(int i=0;i<NC;i++){ static const double cR[4]={1,0,-1,0},cI[4]={0,1,0,-1}; m[i*NC+p[i]]=sx_mkc(cR[k[i]],cI[k[i]]);} }
static inline struct site* lat_new(void){ struct site*lat=malloc(LVOLUME*sizeof(struct site)); for(size_t i=0;i<LVOLUME;i++){ lat[i].O=malloc(ND*sizeof(GLU_complex*)); for(int mu=0;mu<ND;mu++){ void*p=0; if(posix_memalign(&p,16,NCNC*sizeof(GLU_complex))) abort(); lat[i].O[mu]=p; } } init_navig(lat); return lat; }
static inline GLU_complex** g_new(size_t n){ GLU_complex**g=malloc(n*sizeof(GLU_complex*)); for(size_t i=0;i<n;i++){ void*p=0; if(posix_memalign(&p,16,NCNC*sizeof(GLU_complex))) abort(); g[i]=p; } return g; }
/* independent coordinates and shifts */
static inline void x_of(size_t i,int*x){ for(int m=0;m<ND;m++){ x[m]=i%Latt.dims[m]; i/=Latt.dims[m]; } }
static inline size_t i_of(const int*x){ size_t r=0; for(int m=ND-1;m>=0;m--){ int L=Latt.dims[m]; r=r*L+((x[m]%L+L)%L); } return r; }
static inline size_t sh_of(size_t i,int mu,int n){ int x[ND]; x_of(i,x); x[mu]+=n; return i_of(x); }
/* dense special unitary with dyadic entries */
static inline void m_dense(cplx*u){ m_mono(u); double f[4]={0.5,0.5,-0.5,0.5}; cplx m[NCNC]; for(int a=0;a+1<NC;a++){ f[lat_rnd(4)]*=-1; su2_embed(m,f,a,a+1); m_mul(u,u,m);} }
static inline void f_dense(struct site*lat,unsigned seed){ lat_seed=seed*7919u+17; for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) m_dense(lat[i].O[mu]); }
/* fields: every link a special unitary monomial */
static inline void f_mono(struct site*lat,unsigned seed){ lat_seed=seed*7919u+17; for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) m_mono(lat[i].O[mu]); }
/* every link multiplied by its own complex variable */
static inline void f_zmul(struct site*lat){ char t[40]; for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++){ snprintf(t,40,"z%zu_%d",i,mu); cplx z=sx_cvar(t); for(int k=0;k<NCNC;k++) lat[i].O[mu][k]=(RE(lat[i].O[mu][k])==0&&IM(lat[i].O[mu][k])==0)?0:c_mul(z,lat[i].O[mu][k]); } }
/* n links, spread by seed, become general matrices of variables */
static inline void f_gen(struct site*lat,int n,unsigned seed){ lat_seed=seed*104729u+5; char t[40]; for(int q=0;q<n;q++){ size_t i=lat_rnd(LVOLUME); int mu=lat_rnd(ND); snprintf(t,40,"u%zu_%d_",i,mu); m_var(lat[i].O[mu],t);} }
/* one SU(2) rotation in a random subgroup of n links (special unitary stays special unitary) */
static inline void l_rot(cplx*U,const char*nm){ int a=lat_rnd(NC),b=lat_rnd(NC-1); if(b>=a) b++; if(a>b){int t=a;a=b;b=t;} double q[4]; cplx m[NCNC]; su2_var(q,nm); su2_embed(m,q,a,b); if(lat_rnd(2)) m_mul(U,m,U); else m_mul(U,U,m); }
static inline void f_rot(struct site*lat,int n,unsigned seed){ lat_seed=seed*104729u+5; char t[40]; for(int q=0;q<n;q++){ size_t i=lat_rnd(LVOLUME); int mu=lat_rnd(ND); snprintf(t,40,"r%zu_%d_%d",i,mu,q); l_rot(lat[i].O[mu],t);} }
/* ordered product along a path of signed directions (+-(mu+1)) */
static inline size_t m_path(cplx*r,const struct site*lat,size_t i,const int*p,int n){ cplx d[NCNC]; m_id(r); for(int k=0;k<n;k++){ int mu=abs(p[k])-1; if(p[k]>0){ m_mul(r,r,lat[i].O[mu]); i=sh_of(i,mu,1); } else { i=sh_of(i,mu,-1); m_dag(d,lat[i].O[mu]); m_mul(r,r,d); } } return i; }
#endif
