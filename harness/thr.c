/* Threads: every parallel routine run once with one thread and once with one
   logical thread per iteration.  argv: case NT order L0.. seed nlinks */
#include "gh.h"
#include "plaqs_links.h"
#include "POLY.h"
#include "clover.h"
#include "Qcorr.h"
#include "Qmoments.h"
#include "Qslab.h"
#include "smear.h"
#include "HYP.h"
#include "4D_fast.h"
#include "ND_generic_HYP.h"
#include "wflow.h"
#include "wflowfuncs.h"
#include "adaptive_flow.h"
#include "gtrans.h"
#include "MAG.h"
#include "gftests.h"
#include "line_search.h"
#include "Landau.h"
#include "Coulomb.h"
#include "SUNCxU1_config.h"
#include "U1_obs.h"
#include "U1_top.h"
#include "KPHB.h"
#include "hb.h"
#include "relax.h"
#include "draughtboard.h"
#include "GLU_sums.h"
#include "GLU_bswap.h"
#include "cuts.h"
#include "3Dcuts.h"
#include "config_gluons.h"
#include "smearing_param.h"
#include "GLU_malloc.h"
#include "BPST_config.h"
#include "Or.h"
#include "GLUlib_wrap.h"
void sx_omp_config(int T,int order,int map); void omp_set_num_threads(int);
void sx_mem_enable(int); long sx_mem_conflicts(void); void sx_mem_reset(void); const char*sx_mem_where(int); long sx_mem_accesses(void); long sx_mem_phases(void); long sx_mem_classes(void);
#ifdef SX_NOSYMOMP
#endif
static const char*CASE; static struct site*L,*L0; static int NT,ORD; static char t[160];
static double O[2][200000]; static size_t nO[2]; static int R;
static void out(double v){ if(nO[R]<200000) O[R][nO[R]++]=v; }
static void outc(cplx z){ out(RE(z)); out(IM(z)); }
static void outlat(void){ for(size_t i=0;i<LVOLUME;i++)for(int m=0;m<ND;m++)for(int k=0;k<NCNC;k++) outc(L[i].O[m][k]); }
#define IS(s) (!strcmp(CASE,s))
static cplx**G0,**G1,**G2; static double junk[64*32];
static double*rd(size_t k){ double*r=calloc(CLINE*64*k,sizeof(double)); return r; }
static double sum(const double*r,int o){ double s=0; for(int i=0;i<NT;i++) s=s+r[o+CLINE*i]; return s; }
static void fill(cplx**g,size_t n,unsigned seed,int nr){ lat_seed=seed; for(size_t i=0;i<n;i++){ m_dense(g[i]); if(nr>0&&i%3==0){ nr--; snprintf(t,90,"g%u_%zu",seed,i); l_rot(g[i],t); } } }
#ifdef POLYPROJ
/* a fixed polynomial map in place of the projections: sweeps stay polynomial in the links */
static void pp(GLU_complex*r,GLU_complex*st,const GLU_complex*l,double a,double b){ cplx s[NCNC]; for(int k=0;k<NCNC;k++) s[k]=c_add(c_scale(b,l[k]),c_scale(a,c_conj(st[(k+1)%NCNC]))); m_copy(r,s); }
void project_APE(GLU_complex smeared_link[NCNC],GLU_complex*__restrict staple,const GLU_complex link[NCNC],const double al,const double al1){ pp(smeared_link,staple,link,al,al1); }
void project_STOUT(GLU_complex smeared_link[NCNC],GLU_complex*__restrict staple,const GLU_complex link[NCNC],const double al,const double al1){ pp(smeared_link,staple,link,al,al1); }
void project_LOG(GLU_complex smeared_link[NCNC],GLU_complex*__restrict staple,const GLU_complex link[NCNC],const double al,const double al1){ pp(smeared_link,staple,link,al,al1); }
#endif
static struct cut_info CI(void){ struct cut_info c; memset(&c,0,sizeof c); strcpy(c.where,"./"); c.max_mom=100; c.max_t=2; c.type=PSQ_CUT; c.definition=LINEAR_DEF; c.cyl_width=10; c.angle=90; return c; }
static void body(void){
  double a=0,b=0; GLU_real m=0;
  if(IS("obs")){ out(all_plaquettes(L,&a,&b)); out(a); out(b); out(av_plaquette(L)); out(s_plaq(L)); out(t_plaq(L)); out(all_links(L,&a,&b)); out(a); out(b); out(links(L)); out(s_links(L)); out(t_links(L)); for(int mu=0;mu<ND;mu++) outc(poly(L,mu)); }
  if(IS("obsth")){ double*r=rd(1); 
#pragma omp parallel
    { av_plaquette_th(r,L); for(int mu=0;mu<2;mu++) poly_th(r+4*0,L,mu); }
    for(int k=0;k<CLINE&&k<8;k++) out(sum(r,k)); }
  if(IS("top")){ double*r=rd(1);
#pragma omp parallel
    { compute_Gmunu_th(r,L); }
    for(int k=0;k<CLINE;k++) out(sum(r,k)); cplx*q=calloc(LVOLUME,sizeof(cplx)); compute_Gmunu_array(q,L); for(size_t i=0;i<LVOLUME;i++) outc(q[i]);
    double*rr=rd(1),qs=0;
#pragma omp parallel
    { double qn=0,qo=0; gauge_topological_meas_th(rr,L,&qn,&qo,1); 
#pragma omp master
      { qs=qn; } }
    out(qs); }
  if(IS("qtop")){ struct Qmoments Q; Q.Q=calloc(64*Latt.dims[ND-1],8); Q.Q2=calloc(64*Latt.dims[ND-1],8); struct cut_info c=CI(); compute_Qcorr(L,c,0); compute_Qsusc(L,c,0); compute_Qmoments(L,&Q); for(size_t i=0;i<4;i++) out(Q.Q[i]); }
  if(IS("sm3")){ smear3D(L,2,SM_APE); outlat(); }
  if(IS("sm4")){ smear4D(L,2,SM_STOUT); outlat(); }
  if(IS("sm4l")){ smear4D(L,1,SM_LOG); outlat(); }
  if(IS("hyp3")){ HYPSLsmear3D(L,2,SM_APE); outlat(); }
#if ND==4
  if(IS("hyp4")){ HYPSLsmear4D_expensive(L,2,SM_STOUT); outlat(); }
  if(IS("hyp4l")){ HYPSLsmear4D_expensive(L,1,SM_LOG); outlat(); }
#endif
  if(IS("hypn")){ HYsmearND(L,2,SM_APE,ND); outlat(); }
  if(IS("hypnl")){ HYsmearND(L,1,SM_LOG,ND); outlat(); }
  if(IS("flow0")||IS("flow1")){ flow_RK3(L,2,1,SM_STOUT,IS("flow1")); }
  if(IS("flowl")){ flow_RK3(L,1,1,SM_LOG,0); }
  if(IS("flowa")){ flow_adaptive_RK3(L,2,1,SM_STOUT); }
  if(IS("gt")){ gtransform(L,(const GLU_complex**)G0); outlat(); }
  if(IS("gts")){ size_t T=Latt.dims[ND-1]; for(size_t k=0;k<T;k++) gtransform_slice((const GLU_complex**)(G0+k*LCU),L,(const GLU_complex**)(G0+((k+1)%T)*LCU),k); outlat(); }
  if(IS("gtth")){
#pragma omp parallel
    { gtransform_th(L,(const GLU_complex**)G0); }
    outlat(); }
  if(IS("gtsth")){
#pragma omp parallel
    { gtransform_slice_th((const GLU_complex**)G0,L,(const GLU_complex**)(G0+LCU),0); }
    outlat(); }
  if(IS("gfun")){ out(gauge_test((const GLU_complex**)G0)); out(gauge_functional(L)); out(gtrans_functional(L,(const GLU_complex**)G0,0)); }
  if(IS("gtest")){ out(theta_test_lin(L,&m,ND)); out(m); out(theta_test_lin(L,&m,ND-1)); out(m); const_time(L,&a,&b); out(a); }
  if(IS("axial")){ axial_gauge(L,ND-1); outlat(); }
  if(IS("mag")){ mag(L); outlat(); }
  if(IS("resid")){ residual_fix(L); outlat(); }
  if(IS("landau")){ Latt.gf_alpha=0.08; Landau(L,1e-3,3,"none"); }
  if(IS("orl")){ free_par_rng(); out(OrLandau(L,&a,3,1e-14,0.0)); outlat(); }
  if(IS("orc")){ free_par_rng(); out(OrCoulomb(L,&a,3,1e-14,0.0)); outlat(); }
  if(IS("landauc")){ Latt.gf_alpha=0.08; out(Landau(L,1e-9,300,"none")<300); out(av_plaquette(L)); out(links(L)); }
  if(IS("coulombc")){ Latt.gf_alpha=0.08; Coulomb(L,1e-9,300); out(av_plaquette(L)); out(s_links(L)); }
  if(IS("coulomb")){ Latt.gf_alpha=0.08; Coulomb(L,1e-3,3); }
  if(IS("hb")||IS("or")){ struct draughtboard db; 
#ifdef IMPROVED_SMEARING
    if(init_improved_cb(&db)==GLU_FAILURE) return;
#else
    if(init_cb(&db,LVOLUME,ND)==GLU_FAILURE) return;
#endif
    if(IS("hb")){ initialise_par_rng(NULL);
#pragma omp parallel
      { hb_lattice(L,0.5,db); } free_par_rng(); } else {
#pragma omp parallel
      { OR_lattice(L,db); } outlat(); } free_cb(&db); }
  if(IS("hbup")){ struct hb_info H; memset(&H,0,sizeof H); H.beta=6; H.iterations=4; H.Nmeasure=1; H.Nor=1; H.Nsave=2; H.therm=1; Latt.flow=0; hb_update(L,H,"./traj",OUTPUT_NCxNC,"x"); }
  if(IS("rand")){ initialise_par_rng(NULL); random_gtrans(L); random_suNC(L); random_transform(L,G1); random_gtrans_slice(G1); reunit_gauge_slices(G1,G2); latt_reunitU(L); latt_reunitg(G1); trivial(L); free_par_rng(); }
#if ND==4 && NC<4
  if(IS("bpst")){ instanton_config(L); }
#endif
  if(IS("u1")){ struct u1_info U; U.alpha=0.08; U.charge=1; U.meas=R?U1_TOPOLOGICAL:U1_TOPOLOGICAL; initialise_par_rng(NULL); suNC_cross_u1(L,U); U.meas=U1_RECTANGLE; suNC_cross_u1(L,U); U.meas=U1_PLAQUETTE; suNC_cross_u1(L,U); free_par_rng(); }
  if(IS("pot")){ struct cut_info c=CI(); struct sm_info s={ALL_DIRECTIONS,0,SM_APE}; Coul_staticpot(L,c,s); }
  if(IS("cuts")){ struct cut_info c=CI(); const cut_mode md[]={EXCEPTIONAL,GLUON_PROPS,FIELDS}; for(int k=0;k<3;k++){ for(size_t i=0;i<LVOLUME;i++)for(int mu=0;mu<ND;mu++) m_copy(L[i].O[mu],L0[i].O[mu]); c.dir=md[k]; cuts_struct(L,c); } }
  if(IS("cut3")){ struct cut_info c=CI(); c.dir=INSTANTANEOUS_GLUONS; cuts_spatial(L,c); }
  if(IS("cfg")){ struct cut_info c=CI(); struct sm_info s={ALL_DIRECTIONS,1,SM_STOUT}; c.dir=CONFIGSPACE_GLUONS; cuts_struct_configspace(L,c,s); }
  if(IS("smgl")){ struct cut_info c=CI(); struct sm_info s={ALL_DIRECTIONS,1,SM_STOUT}; c.dir=SMEARED_GLUONS; cuts_struct_smeared(L,c,s); }
  if(IS("util")){ double v[37]; for(int i=0;i<37;i++) v[i]=junk[i]; uint32_t u[19]; for(int i=0;i<19;i++) u[i]=i*77777u; bswap_32(19,u); uint64_t w[19]; for(int i=0;i<19;i++) w[i]=i*7777777777ull; bswap_64(19,w); uint16_t h[19]; for(int i=0;i<19;i++) h[i]=i*777; bswap_16(19,h); for(int i=0;i<19;i++){ out(u[i]); out((double)w[i]); out(h[i]); } init_latt(); struct site*x=allocate_lat(); free_lat(x); }
}
static void reset(int T){ sx_omp_config(T,ORD,0); Latt.Nthreads=T; for(size_t i=0;i<LVOLUME;i++)for(int mu=0;mu<ND;mu++) m_copy(L[i].O[mu],L0[i].O[mu]); }
int harness(int c,char**v){ CASE=v[1]; const double TOL=IS("landauc")||IS("coulombc")?1e-5:1e-9; NT=atoi(v[2]); ORD=atoi(v[3]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(v[4+m]); unsigned seed=atoi(v[4+ND]); int nl=c>5+ND?atoi(v[5+ND]):2;
  sx_omp_config(1,0,0); attach_GLU(); for(int k=0;k<ND;k++){ Latt.sm_alpha[k]=0.5; } Latt.Seed[0]=seed+1; lat_dims(d); L=lat_new(); L0=lat_new(); f_dense(L0,seed);
#if NC>3
  if(nl>0) f_zmul(L0);
#else
  f_rot(L0,nl,seed);
#endif
  G0=g_new(LVOLUME); G1=g_new(LVOLUME); G2=g_new(LVOLUME); fill(G0,LVOLUME,seed+1,nl); fill(G1,LVOLUME,seed+2,0); fill(G2,LVOLUME,seed+3,0);
  if(!strcmp(CASE,"util")) for(int i=0;i<37;i++){ snprintf(t,90,"s%d",i); junk[i]=sx_var(t); }
  R=0;
#ifndef NOREF
  reset(1); body();
#endif
  R=1; reset(NT); sx_mem_reset(); sx_mem_enable(1); body(); sx_mem_enable(0);
  long n=sx_mem_conflicts(); sx_note("%s: %d logical threads, %ld barrier intervals, %ld accesses, %ld classes, %ld conflicts%s%s",CASE,NT,sx_mem_phases(),sx_mem_accesses(),sx_mem_classes(),n,n?": ":"",n?sx_mem_where(0):""); if(n) printf("REPLAY conflict: %s\n",sx_mem_where(0));
  snprintf(t,150,"no two threads touch the same data unsynchronised [%s]",CASE); sx_prove_true(n==0,t); sx_prove_true(sx_mem_accesses()>0,"parallel regions were entered");
#ifndef NOREF
  sx_prove_true(nO[0]==nO[1],"as many results"); for(size_t i=0;i<nO[0]&&i<nO[1];i++){ double x=O[0][i],y=O[1][i]; snprintf(t,150,"result %zu does not depend on the number of threads [%s]",i,CASE);
    if(!sx_is_symbolic(x)&&!sx_is_symbolic(y)) sx_prove_true((x!=x&&y!=y)||(x-y<=TOL*(1+(x<0?-x:x))&&y-x<=TOL*(1+(x<0?-x:x))),t); else sx_prove_eq(x,y,t); }
#endif
  return 0; }
