/* gauge fixing drivers: whatever local matrices the optimiser picks, the result is a gauge transform.  argv: what field L0.. seed nlinks */
#include "gh.h"
#include "CFACG.h"
#include "FACG.h"
#include "Landau.h"
#include "Coulomb.h"
#include "Or.h"
#include "MAG.h"
#include "gftests.h"
#include "CG.h"
#include "line_search.h"
#include "plaqs_links.h"
#include "draughtboard.h"
#include "SU2_rotate.h"
#define MAXT 16
static cplx**KG[MAXT],**HG; static size_t last_t; static int calls_ls[MAXT],calls_ex;
static void reunit0(cplx*U){ (void)U; }
void latt_reunitU(struct site*lat){ (void)lat; }
int initialise_par_rng(const char*f){ (void)f; return GLU_SUCCESS; }
void free_par_rng(void){}
double av_plaquette(const struct site*__restrict lat){ (void)lat; return 0; }
double all_links(const struct site*__restrict lat,double*a,double*b){ (void)lat; *a=*b=0; return 0; }
double indivlinks(const struct site*__restrict lat,GLU_real*m){ (void)lat; *m=0; return 0; }
#if defined P_COUL || defined P_LAND
void gram_reunit(GLU_complex*__restrict U){ reunit0(U); }
#endif
#ifdef P_COUL
void Hermitian_proj_short(GLU_complex*Q,const GLU_complex*U){ (void)U; for(int k=0;k<HERMSIZE;k++) Q[k]=0; }
void line_search_Coulomb(double*red,GLU_complex**gauge,const struct draughtboard db,const struct site*lat,const GLU_complex**in,const size_t t){ (void)red;(void)db;(void)lat;(void)in; size_t i; 
#pragma omp for private(i)
  for(i=0;i<LCU;i++) m_mul(gauge[i],KG[t][i],gauge[i]);
#pragma omp single
  { last_t=t; calls_ls[t]++; } }
void exponentiate_gauge_CG(GLU_complex**gauge,const GLU_complex**in,const double al){ (void)in;(void)al; size_t i; 
#pragma omp for private(i)
  for(i=0;i<LCU;i++) m_mul(gauge[i],HG[i],gauge[i]);
#pragma omp single
  { calls_ex++; } }
#endif
#ifdef P_LAND
double theta_test_lin(const struct site*__restrict lat,GLU_real*m,const size_t d){ (void)lat;(void)d; *m=1; return 1; }
void const_time(const struct site*__restrict lat,double*a,double*b){ (void)lat; *a=*b=0; }
double gauge_functional(const struct site*__restrict lat){ (void)lat; return 0; }
static int flen; /* iterations before the reported convergence */
static int nder; double fast_deriv_AntiHermitian_proj(GLU_complex sum[HERMSIZE],const struct site*__restrict lat,const size_t i){ (void)lat;(void)i; nder++; for(int k=0;k<HERMSIZE;k++) sum[k]=0; return nder<=flen*(int)LVOLUME?1.0:0.0; }
static void ap(struct site*lat,cplx**g){ size_t i; 
#pragma omp for private(i)
  for(i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) gUg(lat[i].O[mu],g[i],lat[i].O[mu],g[sh_of(i,mu,1)]); }
void line_search_Landau(double*red,struct site*lat,const GLU_complex**in){ (void)red;(void)in; ap(lat,KG[0]);
#pragma omp single
  { calls_ls[0]++; } }
void egauge_Landau(struct site*lat,const GLU_complex**in,const double al){ (void)in;(void)al; ap(lat,HG);
#pragma omp single
  { calls_ex++; } }
#endif
#ifdef P_RES
static cplx**RG; static cplx AV[MAXT][NCNC]; static int nav;
void givens_reunit(GLU_complex U[NCNC]){ m_copy(AV[nav],U); m_copy(U,RG[nav]); nav++; }
#endif
#ifdef P_LS
static double val[LINE_NSTEPS],alp[LINE_NSTEPS]; static int nam; static cplx**S1,**S2,**S3; static double p1,p2;
double approx_minimum(const size_t n,const double a[n],const double f[n]){ nam++; (void)n; for(size_t k=0;k<3;k++){ alp[k]=a[k]; val[k]=f[k]; } return 0.125; }
void set_gauge_matrix(GLU_complex*__restrict gx,const GLU_complex*__restrict*__restrict in,const double alpha,const size_t i){ (void)in; m_copy(gx,alpha==p1?S1[i]:alpha==p2?S2[i]:S3[i]); sx_prove_true(alpha==p1||alpha==p2||alpha==0.125,"step length"); }
#endif
#ifdef P_OR
/* the rotation at site i of sweep s is remembered from its left hits and must reappear in its right hits; it is replaced by an arbitrary one */
static struct site*OL; static cplx**RG[64]; static int nl[4096][ND],nr[4096][ND]; static double A[4096][4]; static int have[4096]; static int cnt[4096]; static int curi; static size_t tset; static int nothers;
static int find(const cplx*w,size_t*i,int*mu){ for(size_t k=0;k<LVOLUME;k++) for(int m=0;m<ND;m++) if(OL[k].O[m]==w){ *i=k; *mu=m; return 1; } return 0; }
static double nrot=0.25; double par_rng_dbl(const uint32_t th){ (void)th; return nrot; }
static void note(size_t i,int hit,cplx a,cplx b,size_t su2){ /* hit: sweep number of this site */ double*q=A[i]; if(have[i]!=hit+1){ have[i]=hit+1; q[0]=RE(a);q[1]=IM(a);q[2]=RE(b);q[3]=IM(b); } else { int ok=sx_same(q[0],RE(a))&&sx_same(q[1],IM(a))&&sx_same(q[2],RE(b))&&sx_same(q[3],IM(b)); sx_prove_true(ok,"same rotation left and right"); } sx_prove_true((int)su2==hit%(NSU2SUBGROUPS),"subgroup order"); }
void shortened_su2_multiply(GLU_complex*w,const GLU_complex a,const GLU_complex b,const size_t su2){ size_t i;int mu; sx_prove_true(find(w,&i,&mu),"link"); int h=nl[i][mu]++; note(i,h,a,b,su2); m_mul(w,RG[h%64][i],w); }
void shortened_su2_multiply_dag(GLU_complex*w,const GLU_complex a,const GLU_complex b,const size_t su2){ size_t i;int mu; sx_prove_true(find(w,&i,&mu),"link"); int h=nr[i][mu]++; size_t j=sh_of(i,mu,1); note(j,h,a,b,su2); cplx d[NCNC]; m_dag(d,RG[h%64][j]); m_mul(w,w,d); }
void compute_pertinent_indices(void);
void const_time(const struct site*__restrict lat,double*a,double*b){ (void)lat; *a=*b=0; }
double gauge_functional(const struct site*__restrict lat){ (void)lat; return 0; }
double theta_test_lin(const struct site*__restrict lat,GLU_real*m,const size_t d){ (void)lat;(void)d; *m=1; return 1; }
double links(const struct site*__restrict lat){ static double v=1; (void)lat; return v*=2; }
#endif
int harness(int c,char**v){ sx_sweep(1); const char*w=v[1]; int k=atoi(v[2]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(v[3+m]); unsigned seed=atoi(v[3+ND]); int nl_=c>4+ND?atoi(v[4+ND]):3; lat_dims(d); char t[60]; (void)t; (void)w;
  Latt.gf_alpha=0.1; size_t T=d[ND-1]; (void)T; struct site*lat=lat_new(); f_dense(lat,seed); if(k==0) f_zmul(lat); if(k==1) f_gen(lat,nl_,seed); if(k==2) f_rot(lat,nl_,seed); struct site*ref=copy(lat);
#if defined GLU_GFIX_SD && defined P_COUL
  HG=gfield(k,LCU,seed+77,"h"); Coulomb(lat,1E-12,10); for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) gUg(ref[i].O[mu],HG[i%LCU],ref[i].O[mu],HG[sh_of(i,mu,1)%LCU]); sx_prove_true(calls_ex==(int)T,"steps"); cmp(lat,ref,"Coulomb");
#elif defined GLU_GFIX_SD && defined P_LAND
  flen=2; HG=gfield(k,LVOLUME,seed+77,"h"); size_t it=Landau(lat,1E-12,10,""); sx_prove_true(calls_ex==3 && it==3,"steps"); for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) for(int n=0;n<3;n++) gUg(ref[i].O[mu],HG[i],ref[i].O[mu],HG[sh_of(i,mu,1)]); cmp(lat,ref,"Landau");
#elif defined P_COUL
  for(size_t s=0;s<T;s++) KG[s]=gfield(s==T/2&&k?k:3,LCU,seed+s,"k"); HG=gfield(3,LCU,seed+77,"h");
  Coulomb(lat,1E-12,10);
  for(size_t i=0;i<LVOLUME;i++){ size_t s=i/LCU,x=i%LCU; cplx g[NCNC],h[NCNC]; m_mul(g,HG[x],KG[s][x]); for(int mu=0;mu<ND;mu++){ size_t j=sh_of(i,mu,1); m_mul(h,HG[j%LCU],KG[j/LCU][j%LCU]); gUg(ref[i].O[mu],g,ref[i].O[mu],h); } }
  for(size_t s=0;s<T;s++){ snprintf(t,60,"slice %zu fixed once",s); sx_prove_true(calls_ls[s]==1,t); } sx_prove_true(calls_ex==(int)T,"steps"); cmp(lat,ref,"Coulomb");
#elif defined P_LAND
  flen=2; KG[0]=gfield(k,LVOLUME,seed,"k"); HG=gfield(3,LVOLUME,seed+77,"h"); size_t it=Landau(lat,1E-12,10,"");
  sx_prove_true(calls_ls[0]==2 && calls_ex==1 && it==2,"steps"); for(size_t i=0;i<LVOLUME;i++){ cplx g[NCNC],h[NCNC]; m_mul(g,KG[0][i],KG[0][i]); m_mul(g,HG[i],g); for(int mu=0;mu<ND;mu++){ size_t j=sh_of(i,mu,1); m_mul(h,KG[0][j],KG[0][j]); m_mul(h,HG[j],h); gUg(ref[i].O[mu],g,ref[i].O[mu],h); } } cmp(lat,ref,"Landau");
#endif
#ifdef P_RES
  RG=gfield(k,T,seed+5,"r"); sx_prove_true(residual_fix(lat)==GLU_SUCCESS,"rc"); cplx (*g)[NCNC]=malloc(T*sizeof(*g)); m_id(g[0]); for(size_t s=0;s+1<T;s++) m_mul(g[s+1],g[s],RG[s]); sx_prove_true(nav==(int)T-1,"projections");
  for(size_t s=0;s+1<T;s++){ cplx a[NCNC]; m_zero(a); for(size_t i=0;i<LCU;i++) m_add(a,a,ref[i+LCU*s].O[ND-1]); double nn=1.0/LCU; m_scale(a,nn,a); snprintf(t,60,"residual mean temporal link %zu",s); m_prove_eq(AV[s],a,t); }
  for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) gUg(ref[i].O[mu],g[i/LCU],ref[i].O[mu],g[sh_of(i,mu,1)/LCU]); cmp(lat,ref,"residual_fix");
#endif
#ifdef P_LS
  if(!strcmp(w,"lsl")){ static const double a1=0.15,a2=0.30; p1=a1;p2=a2; S1=gfield(3,LVOLUME,seed+1,"a"); S2=gfield(3,LVOLUME,seed+2,"b"); S3=gfield(k,LVOLUME,seed+3,"c"); double*red=calloc(LINE_NSTEPS+CLINE*64,sizeof(double));
    double e[3]={0,0,0}; cplx r[NCNC]; for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++){ size_t j=sh_of(i,mu,1); e[0]=e[0]-RE(m_tr(lat[i].O[mu])); gUg(r,S1[i],lat[i].O[mu],S1[j]); e[1]=e[1]-RE(m_tr(r)); gUg(r,S2[i],lat[i].O[mu],S2[j]); e[2]=e[2]-RE(m_tr(r)); gUg(ref[i].O[mu],S3[i],lat[i].O[mu],S3[j]); }
#pragma omp parallel
    { line_search_Landau(red,lat,0); }
    sx_prove_true(alp[0]==0&&alp[1]==p1&&alp[2]==p2&&nam>0,"probes"); for(int q=0;q<3;q++){ snprintf(t,60,"line_search_Landau functional %d",q); sx_prove_eq(val[q],e[q],t); } cmp(lat,ref,"line_search_Landau"); }
  if(!strcmp(w,"lsc")){ static const double a1=0.17,a2=0.34; p1=a1;p2=a2; struct draughtboard db; init_cb(&db,LCU,ND-1); S1=gfield(3,LCU,seed+1,"a"); S2=gfield(3,LCU,seed+2,"b"); S3=gfield(k,LCU,seed+3,"c");
    for(size_t s=0;s<T;s++){ cplx**g=gfield(3,LCU,seed+4+s,"g"),**h=g_new(LCU); double*red=calloc(LINE_NSTEPS+CLINE*64,sizeof(double)); double e[3]={0,0,0}; cplx r[NCNC],q[NCNC]; for(size_t i=0;i<LCU;i++){ m_mul(h[i],S3[i],g[i]); for(int mu=0;mu<ND-1;mu++){ size_t j=sh_of(i,mu,1); gUg(r,g[i],lat[i+LCU*s].O[mu],g[j]); e[0]=e[0]-RE(m_tr(r)); gUg(q,S1[i],r,S1[j]); e[1]=e[1]-RE(m_tr(q)); gUg(q,S2[i],r,S2[j]); e[2]=e[2]-RE(m_tr(q)); } }
#pragma omp parallel
      { line_search_Coulomb(red,g,db,lat,0,s); }
      sx_prove_true(alp[0]==0&&alp[1]==p1&&alp[2]==p2&&nam>0,"probes"); for(int n=0;n<3;n++){ snprintf(t,60,"line_search_Coulomb t=%zu functional %d",s,n); sx_prove_eq(val[n],e[n],t); } for(size_t i=0;i<LCU;i++){ snprintf(t,60,"line_search_Coulomb t=%zu gauge %zu",s,i); m_prove_eq(g[i],h[i],t);} } }
#endif
#ifdef P_OR
  compute_pertinent_indices(); OL=lat; double th; int C=!strcmp(w,"orc"),its=2-C; for(int n=0;n<its*NSU2SUBGROUPS;n++) RG[n]=gfield(n==0?k:3,LVOLUME,seed+n,"o"); struct site*l0=copy(lat);
  (void)(C?OrCoulomb:OrLandau)(lat,&th,its,-1.0,0.5);
  for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++){ snprintf(t,60,"hits %zu %d",i,mu); sx_prove_true(nl[i][mu]==its*NSU2SUBGROUPS&&nr[i][mu]==its*NSU2SUBGROUPS,t); cplx e[NCNC]; m_copy(e,l0[i].O[mu]); for(int n=0;n<its*NSU2SUBGROUPS;n++) gUg(e,RG[n][i],e,RG[n][sh_of(i,mu,1)]); snprintf(t,60,"over-relaxed %zu %d",i,mu); m_prove_eq(lat[i].O[mu],e,t); }
#endif
  return 0; }
