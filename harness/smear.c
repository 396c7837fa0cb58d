/* Smearing sweeps.  argv: what type iters L0.. seed nrot */
#include "gh.h"
#include "GLU_enum.h"
#include "smear.h"
#include "HYP.h"
#include "4D_fast.h"
#include "ND_generic_HYP.h"
#include "projectors.h"
#include "exactQ.h"
#include "expMat.h"
#ifndef P_TIMES
#define P_TIMES 2
#endif
static char t[120]; static int TYPE;
static void herm0(cplx*r,const cplx*a){ cplx d[NCNC]; m_dag(d,a); cplx s=0; for(int i=0;i<NCNC;i++){ cplx x=c_sub(a[i],d[i]); r[i]=sx_mkc(0.5*IM(x),-0.5*RE(x)); } s=m_tr(r); for(int i=0;i<NC;i++) r[i*(NC+1)]=c_sub(r[i*(NC+1)],sx_mkc(RE(s)/NC,IM(s)/NC)); }
#ifndef P_PROJ
#ifdef IMPROVED_SMEARING
#ifdef IWASAKI
static const double W0=1.0+2.648,W1=-0.331;
#elif defined SYMANZIK
static const double W0=5.0/3.,W1=-1.0/12.;
#elif defined DBW2
static const double W0=1.0+11.2552,W1=-1.4069;
#endif
#else
static const double W0=1,W1=0;
#endif
static struct site*L,*S,*RAW; static int DIRS,HYP,it; static int*top; static cplx**F; static size_t ntop; static int nrot; static double A[ND]; static cplx MM[NCNC];
static int pc(int e){ return __builtin_popcount(e); }
/* stand-in for the matrix logarithm: a fixed linear map onto the traceless hermitian matrices */
static void lg(cplx*r,const cplx*a){ cplx b[NCNC]; for(int i=0;i<NC;i++) for(int j=0;j<NC;j++) b[i*NC+j]=c_mul(a[i*NC+(j+1)%NC],MM[j]); herm0(r,b); }
void exact_log_slow(GLU_complex Q[NCNC],const GLU_complex U[NCNC]){ cplx r[NCNC]; lg(r,(const cplx*)U); m_copy((cplx*)Q,r); }
void print_smearing_obs(const struct site*__restrict l,const size_t c){ (void)l; (void)c; }
#define FI(i,mu,E) ((((i)*ND+(mu))<<ND)|(E))
static const cplx*fresh(size_t i,int mu,int E){ cplx**p=&F[FI(i,mu,E)]; if(!*p){ void*q=0; if(posix_memalign(&q,16,sizeof(cplx)*NCNC)) abort(); *p=q; unsigned sv=lat_seed; lat_seed=(unsigned)(FI(i,mu,E)*2654435761u+it*40503u+11); m_dense(*p); snprintf(t,90,"f%zu_%d_%x_%d",i,mu,E,it);
#if NC>3
    cplx z=sx_cvar(t); for(int k=0;k<NCNC;k++) if(!(RE((*p)[k])==0&&IM((*p)[k])==0)) (*p)[k]=c_mul(z,(*p)[k]);
#else
    if(nrot>0&&lat_rnd(5)==0){ nrot--; l_rot(*p,t); }
#endif
    lat_seed=sv; } return *p; }
static const cplx*val(size_t i,int mu,int E){ if(!HYP||pc(E)==DIRS) return S[i].O[mu]; return F[FI(i,mu,E)]; }
static void path(cplx*r,size_t i,const int*p,const int*e,int n){ cplx d[NCNC]; m_id(r); for(int k=0;k<n;k++){ int mu=abs(p[k])-1; if(p[k]>0){ const cplx*v=val(i,mu,e[k]); if(!v){ m_zero(r); return; } m_mul(r,r,v); i=sh_of(i,mu,1); } else { i=sh_of(i,mu,-1); const cplx*v=val(i,mu,e[k]); if(!v){ m_zero(r); return; } m_dag(d,v); m_mul(r,r,d); } } }
static void term(cplx*acc,double w,size_t i,int mu,const int*p,const int*e,int n){ cplx a[NCNC],d[NCNC]; path(a,i,p,e,n); if(TYPE==SM_LOG){ m_dag(d,S[i].O[mu]); m_mul(a,a,d); lg(a,a); } for(int k=0;k<NCNC;k++) acc[k]=c_add(acc[k],w==1?a[k]:c_scale(w,a[k])); }
/* the staples around link (i,mu), decorated links exclude the directions in E */
static void staple(cplx*r,size_t i,int mu,int E){ m_zero(r); int m=mu+1; for(int nu=0;nu<DIRS;nu++) if(!(E>>nu&1)) for(int s=-1;s<2;s+=2){ int n=s*(nu+1),En=E|1<<nu; 
    /* sides along nu exclude the same set as the link along mu they join */
    int e0=En; if(HYP){ e0=En; } int p0[3]={n,m,-n},q0[3]={e0,e0,e0}; term(r,W0,i,mu,p0,q0,3);
    if(W1!=0&&!HYP){ int P[3][5]={{n,n,m,-n,-n},{n,m,m,-n,-m},{-m,n,m,m,-n}},q[5]={0}; for(int k=0;k<3;k++) term(r,W1,i,mu,P[k],q,5); } } }
static int close_(const cplx*a,const cplx*b); static int*SEEN,*LNK; static int same(const cplx*a,const cplx*b){ return close_(a,b); }
static double wt(int l){ return A[l]/(2.0*(ND-1-l)); }

static int close_(const cplx*a,const cplx*b){ for(int k=0;k<NCNC;k++){ double x=sx_numeric(RE(a[k]))-sx_numeric(RE(b[k])),y=sx_numeric(IM(a[k]))-sx_numeric(IM(b[k])); if(!(x<1e-7&&x>-1e-7&&y<1e-7&&y>-1e-7)) return 0; } return 1; }
static void proj(int ty,cplx*out,cplx*st,const cplx*link,double al,double one){ size_t i=0; int mu=0,f=0; for(i=0;i<LVOLUME;i++){ for(mu=0;mu<ND;mu++) if((const cplx*)L[i].O[mu]==link){ f=1; break; } if(f) break; }
  sx_prove_true(f,"projects against a link of the lattice"); if(!f) exit(0); sx_prove_true(ty==TYPE,"projection of the requested kind"); sx_prove_true(mu<DIRS,"direction is smeared");
  snprintf(t,90,"link %zu %d still the old one",i,mu); if(LNK[i*ND+mu]++<P_TIMES||!same(link,S[i].O[mu])) m_prove_eq(link,S[i].O[mu],t);
  int NL=HYP?DIRS-1:1,l=0; double na=sx_numeric(one),best=1e300; for(int k=0;k<NL;k++){ double d=na-sx_numeric(1-A[k]); if(d<0) d=-d; if(d<best){ best=d; l=k; } }
  double W2[2]={1-A[l],wt(l)}; static double ok[ND][2]; unsigned long long x[4]; memcpy(x,&one,8); memcpy(x+1,&al,8); memcpy(x+2,ok[l],16); if(x[0]!=x[2]||x[1]!=x[3]){ sx_prove_eq(one,W2[0],"weight of the link"); sx_prove_eq(al,W2[1],"weight of the staples"); ok[l][0]=one; ok[l][1]=al; }
  cplx r[NCNC]; int E=1<<mu,sel=-1;  if(l==0){ staple(r,i,mu,E); sel=E; } else for(int e=0;e<1<<DIRS;e++) if(pc(e)==l+1&&(e>>mu&1)){ staple(r,i,mu,e); if(sel<0) sel=e; if(close_(r,st)){ sel=e; break; } }
  staple(r,i,mu,sel); snprintf(t,90,"staples of link %zu %d level %d",i,mu,l+1); if(!l||SEEN[FI(i,mu,sel)]++<P_TIMES) m_prove_eq(st,r,t); else sx_prove_true(close_(r,st),t);
  m_copy(out,fresh(i,mu,sel));
  if(l==0){ top[i*ND+mu]++; ntop++; if(ntop==LVOLUME*DIRS){ for(size_t j=0;j<LVOLUME;j++) for(int m=0;m<DIRS;m++){ sx_prove_true(top[j*ND+m]==1,"each link once a sweep"); top[j*ND+m]=LNK[j*ND+m]=0; m_copy(S[j].O[m],F[FI(j,m,1<<m)]); } for(size_t k=0;k<(LVOLUME*ND)<<ND;k++) F[k]=0,SEEN[k]=0; ntop=0; it++; } } }
void project_APE(GLU_complex s[NCNC],GLU_complex st[NCNC],const GLU_complex l[NCNC],const double a,const double al){ proj(SM_APE,(cplx*)s,(cplx*)st,(const cplx*)l,a,al); }
void project_STOUT(GLU_complex s[NCNC],GLU_complex st[NCNC],const GLU_complex l[NCNC],const double a,const double al){ proj(SM_STOUT,(cplx*)s,(cplx*)st,(const cplx*)l,a,al); }
void project_LOG(GLU_complex s[NCNC],GLU_complex st[NCNC],const GLU_complex l[NCNC],const double a,const double al){ proj(SM_LOG,(cplx*)s,(cplx*)st,(const cplx*)l,a,al); }
int harness(int c,char**v){ sx_sweep(1); const char*w=v[1]; TYPE=atoi(v[2]); int n=atoi(v[3]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(v[4+m]); unsigned seed=atoi(v[4+ND]); nrot=c>5+ND?atoi(v[5+ND]):2; lat_dims(d); Latt.Nthreads=1;
  L=lat_new(); lat_seed=seed*31+7; for(int k=0;k<NC;k++) MM[k]=sx_mkc((k+1)*0.5,1-k*0.25); f_dense(L,seed);
#if NC>3
  f_zmul(L);
#else
  f_rot(L,nrot,seed);
#endif
  S=copy(L); RAW=S; top=calloc(LVOLUME*ND,sizeof(int)); F=calloc((LVOLUME*ND)<<ND,sizeof(cplx*)); LNK=calloc(LVOLUME*ND,sizeof(int)); SEEN=calloc((LVOLUME*ND)<<ND,sizeof(int));
  static const double lo[]={0.61,0.41,0.21,0.05},hi[]={0.75,0.6,0.4,0.2}; for(int k=0;k<ND-1;k++){ snprintf(t,90,"alpha%d",k+1); A[k]=k<4?sx_var_range(t,lo[k],hi[k]):0; Latt.sm_alpha[k]=A[k]; }
  int r=-1,hd=0; DIRS=ND; HYP=0;
  if(!strcmp(w,"3d")){ DIRS=ND-1; r=smear3D(L,n,TYPE); }
  if(!strcmp(w,"4d")) r=smear4D(L,n,TYPE);
  if(!strcmp(w,"hyp")){ HYP=1; r=HYPSLsmear4D_expensive(L,n,TYPE); }
  if(!strcmp(w,"hyp3")){ HYP=1; DIRS=ND-1; r=HYPSLsmear3D(L,n,TYPE); }
  if(!strcmp(w,"hypn")){ HYP=1; r=HYsmearND(L,n,TYPE,ND); }
  if(!strcmp(w,"hypn3")){ HYP=1; DIRS=ND-1; r=HYsmearND(L,n,TYPE,ND-1); }
  (void)hd; sx_prove_true(r==GLU_SUCCESS,"returns success"); sx_prove_true(it==n&&ntop==0,"number of sweeps");
  cmp(L,S,"smeared field"); return 0; }
#else
/* projections on their own */
static cplx XI[NCNC],XO[NCNC]; static int nx;
void givens_reunit(GLU_complex U[NCNC]){ nx++; m_copy(XI,(cplx*)U); m_copy((cplx*)U,XO); }
void nape_reunit(GLU_complex*__restrict U){ nx++; m_copy(XI,(cplx*)U); m_copy((cplx*)U,XO); }
void exponentiate(GLU_complex U[NCNC],const GLU_complex Q[NCNC]){ nx++; m_copy(XI,(const cplx*)Q); m_copy((cplx*)U,XO); }
static void unpack(cplx*q,const cplx*a){ cplx tr=0; int k=0; for(int i=0;i<NC-1;i++) for(int j=i;j<NC;j++){ cplx x=a[k++]; if(i==j){ q[i*NC+i]=sx_mkc(RE(x),0); tr=c_add(tr,q[i*NC+i]); } else { q[i*NC+j]=x; q[j*NC+i]=c_conj(x); } } q[NCNC-1]=c_scale(-1,tr); }
void exponentiate_short(GLU_complex U[NCNC],const GLU_complex Q[HERMSIZE]){ nx++; unpack(XI,(const cplx*)Q); m_copy((cplx*)U,XO); }
static void shortz(cplx*z,const cplx*q){ 
#if NC==3
  z[0]=sx_mkc(RE(q[0]),RE(q[4])); z[1]=q[1]; z[2]=q[2]; z[3]=q[5];
#else
  int k=0; for(int i=0;i<NC-1;i++) for(int j=i;j<NC;j++) z[k++]=q[i*NC+j];
#endif
}
int harness(int c,char**v){ sx_sweep(1); (void)c; unsigned seed=atoi(v[1]); lat_seed=seed; cplx link[NCNC],st[NCNC],st0[NCNC],r[NCNC],q[NCNC],d[NCNC]; double a=sx_var_range("alpha",-1,1),one=sx_var_range("one",-1,1);
#if NC==2
  double g[4]; su2_var(g,"l"); su2_embed(link,g,0,1); { double h[4]; for(int k=0;k<4;k++){ snprintf(t,90,"s%d",k); h[k]=sx_var(t); } su2_embed(st,h,0,1); } m_dense(XO); l_rot(XO,"x");
#elif NC==3
  m_dense(link); l_rot(link,"l"); m_var(st,"s"); m_dense(XO); l_rot(XO,"x");
#else
  m_var(link,"l"); m_var(st,"s"); m_var(XO,"x");
#endif
  m_copy(st0,st); m_copy(d,st); project_APE((GLU_complex*)r,(GLU_complex*)d,(const GLU_complex*)link,a,one); for(int k=0;k<NCNC;k++) q[k]=c_add(c_scale(one,link[k]),c_scale(a,st0[k])); m_prove_eq(XI,q,"APE: reunitarises the weighted sum"); m_prove_eq(r,XO,"APE: result"); sx_prove_true(nx==1,"one reunitarisation");
  cplx h[NCNC]; m_dag(d,link); m_mul(q,st0,d); herm0(h,q); m_scale(h,a,h); m_copy(d,st0); nx=0; project_STOUT((GLU_complex*)r,(GLU_complex*)d,(const GLU_complex*)link,a,one); m_prove_eq(XI,h,"STOUT: exponent"); m_mul(q,XO,link); m_prove_eq(r,q,"STOUT: left multiplication"); sx_prove_true(nx==1,"one exponential");
  m_var(q,"h"); herm0(h,q); m_copy(d,h); m_scale(h,a,h); project_LOG((GLU_complex*)r,(GLU_complex*)d,(const GLU_complex*)link,a,one); m_prove_eq(XI,h,"LOG: exponent"); m_mul(q,XO,link); m_prove_eq(r,q,"LOG: left multiplication");
  cplx z[NCNC]; m_var(q,"h"); herm0(h,q); shortz(z,h); m_scale(h,a,h); project_STOUT_wflow_short((GLU_complex*)r,(GLU_complex*)z,(const GLU_complex*)link,a); m_prove_eq(XI,h,"flow STOUT: exponent"); m_mul(q,XO,link); m_prove_eq(r,q,"flow STOUT: left multiplication");
  m_var(q,"h"); herm0(h,q); shortz(z,h); m_scale(h,a,h); project_LOG_wflow_short((GLU_complex*)r,(GLU_complex*)z,(const GLU_complex*)link,a); m_prove_eq(XI,h,"flow LOG: exponent"); m_mul(q,XO,link); m_prove_eq(r,q,"flow LOG: left multiplication"); return 0; }
#endif
