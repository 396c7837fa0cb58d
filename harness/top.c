/* topological charge density, total charge, and the quantities built on it */
#include "lat.h"
#include "clover.h"
#include "plaqs_links.h"
#include "Qcorr.h"
#include "Qslab.h"
#include "Qmoments.h"
#if ND==4
/* hermitian traceless part of U: (U-U^dag)/(2i) minus its trace */
static void hproj(cplx*q,const cplx*u){ cplx d[NCNC]; m_dag(d,u); m_sub(d,u,d); cplx t=0; for(int i=0;i<NCNC;i++) q[i]=sx_mkc(0.5*IM(d[i]),-0.5*RE(d[i])); t=m_tr(q); for(int i=0;i<NC;i++) q[i*(NC+1)]=sx_mkc(RE(q[i*(NC+1)])-RE(t)/NC,IM(q[i*(NC+1)])-IM(t)/NC); }
/* closed loop of m steps along a, then n along b, and back; a, b signed directions */
static void rect(cplx*r,const struct site*lat,size_t i,int a,int m,int b,int n){ int p[24],k=0; for(int q=0;q<m;q++) p[k++]=a; for(int q=0;q<n;q++) p[k++]=b; for(int q=0;q<m;q++) p[k++]=-a; for(int q=0;q<n;q++) p[k++]=-b; m_path(r,lat,i,p,k); }
#ifdef CLOVER_IMPROVE
#ifndef k5
#define k5 0.
#endif
static const double LC[7]={19./9.-55.*k5,1./36.-16.*k5,(64.*k5-32./45.)*.5,(64.*k5-32./45.)*.5,(1./15.-6.*k5)*.5,(1./15.-6.*k5)*.5,k5};
static const int LM[7][2]={{1,1},{2,2},{1,2},{2,1},{1,3},{3,1},{3,3}}; static const int NL=7;
#else
static const double LC[1]={1}; static const int LM[1][2]={{1,1}}; static const int NL=1;
#endif
#ifdef PLAQUETTE_FMUNU
static const int LEAVES=1; static const double GS=16;
#else
static const int LEAVES=4; static const double GS=1;
#endif
static void refF(cplx*F,const struct site*lat,size_t i,int mu,int nu){ int a=mu+1,b=nu+1; int P[4][2]={{a,b},{-b,a},{-a,-b},{b,-a}}; cplx s[NCNC],r[NCNC]; m_zero(s);
  for(int l=0;l<NL;l++) if(LC[l]!=0) for(int k=0;k<LEAVES;k++){ /* LM counts steps along mu, then nu */ int fm=(k&1)?LM[l][1]:LM[l][0],fn=(k&1)?LM[l][0]:LM[l][1]; rect(r,lat,i,P[k][0],fm,P[k][1],fn); m_scale(r,LC[l],r); m_add(s,s,r);} hproj(F,s); }
static void gm(struct site*lat){ double GG=0,QQ=0;
#ifdef PLAQUETTE_FMUNU
  /* Wilson action density of the six planes */ for(size_t i=0;i<LVOLUME;i++) for(int m=0;m<4;m++) for(int n=0;n<m;n++){ cplx r[NCNC]; rect(r,lat,i,m+1,1,n+1,1); GG=GG+2*(NC-RE(m_tr(r))); }
#endif
  double*q=malloc(LVOLUME*sizeof(double)); 
  for(size_t i=0;i<LVOLUME;i++){ q[i]=0; static const int J[3][2]={{1,2},{2,0},{0,1}}; 
#ifdef PLAQUETTE_FMUNU
#define ACT(x)
#else
#define ACT(x) GG=GG+x
#endif
    for(int k=0;k<3;k++){ cplx E[NCNC],B[NCNC],t[NCNC]; refF(E,lat,i,3,k); refF(B,lat,i,J[k][0],J[k][1]); m_mul(t,E,E); ACT(RE(m_tr(t))); m_mul(t,B,B); ACT(RE(m_tr(t))); m_mul(t,E,B); q[i]=q[i]+RE(m_tr(t)); } QQ=QQ+q[i]; }
  GLU_complex*qa=0; if(posix_memalign((void**)&qa,16,LVOLUME*sizeof(GLU_complex))) abort(); for(size_t i=0;i<LVOLUME;i++) qa[i]=sx_cvar("junk"); compute_Gmunu_array(qa,lat); char t[50]; for(size_t i=0;i<LVOLUME;i++){ snprintf(t,50,"charge density %zu",i); sx_prove_eq(RE(qa[i]),GS*q[i],t); }
  double red[CLINE*8]; for(int i=0;i<CLINE*8;i++) red[i]=sx_var("rj");
#pragma omp parallel
  { compute_Gmunu_th(red,lat); }
  double a=0,b=0; for(int i=0;i<(int)Latt.Nthreads;i++){ a=a+red[CLINE*i]; b=b+red[1+CLINE*i]; } sx_prove_eq(b,GS*QQ,"compute_Gmunu_th charge"); sx_prove_eq(a,GS*GG,"compute_Gmunu_th action"); }
#endif
#ifdef WRAP_Q
#include "cut_output.h"
#include "cut_routines.h"
/* the charge density is an arbitrary real field, the list all separations, what would be written is compared */
static double*QD; static const char*what; static int wdir; /* folded by the compiler, as in the library */
static const double NQ=-0.001583143494411527678811; static const double NQ2=(-0.001583143494411527678811)*(-0.001583143494411527678811);
void compute_Gmunu_array(GLU_complex*q,const struct site*lat){ (void)lat; for(size_t i=0;i<LVOLUME;i++) q[i]=sx_mkc(QD[i],0); }
struct veclist* compute_veclist(size_t*n,const struct cut_info C,const size_t D,const GLU_bool cs){ (void)C;(void)D;(void)cs; struct veclist*l=malloc(LVOLUME*sizeof(*l)); for(size_t i=0;i<LVOLUME;i++){ l[i].idx=i; x_of(i,l[i].MOM);} *n=LVOLUME; return l; }
static int ncall=0;
static double rcorr(size_t r){ int x[ND],y[ND],z[ND]; x_of(r,x); double s=0; for(size_t i=0;i<LVOLUME;i++){ x_of(i,y); for(int m=0;m<ND;m++) z[m]=x[m]+y[m]; s=s+QD[i]*QD[i_of(z)]; } return s; }
void write_g2_to_list(FILE*Ap,double*g,size_t*n){ (void)Ap; char t[60];
  if(!strcmp(what,"corr")){ if(ncall++==0){ /* temporal correlator first */ sx_prove_true(n[0]==Latt.dims[ND-1],"length of the temporal correlator"); for(size_t T=0;T<n[0];T++){ double s=0; for(size_t r=0;r<LVOLUME;r++){ int x[ND]; x_of(r,x); if((size_t)x[ND-1]==T) s=s+rcorr(r);} snprintf(t,60,"temporal correlator %zu",T); sx_prove_eq(g[T],NQ2*s,t);} }
    else { sx_prove_true(n[0]==LVOLUME,"number of separations"); for(size_t r=0;r<n[0];r++){ snprintf(t,60,"correlator at separation %zu",r); sx_prove_eq(g[r],NQ2*rcorr(r),t);} } }
  else { /* slabs of thickness T1 in direction wdir, averaged over their position */ int mu=wdir++; sx_prove_true(n[0]==Latt.dims[mu],"number of slabs"); for(size_t T1=1;T1<=n[0];T1++){ double tot=0; for(size_t T0=0;T0<n[0];T0++){ double s=0; for(size_t i=0;i<LVOLUME;i++){ int x[ND]; x_of(i,x); if((x[mu]+n[0]-T0)%n[0]<T1) s=s+QD[i]; } tot=tot+s*s; } snprintf(t,60,"slab direction %d thickness %zu",mu,T1); sx_prove_eq(g[T1-1]*(double)n[0],NQ2*tot,t);} } }
static void corr(const char*w){ char t[40]; what=w; QD=malloc(LVOLUME*sizeof(double)); for(size_t i=0;i<LVOLUME;i++){ snprintf(t,40,"q%zu",i); QD[i]=sx_var(t);} struct site*lat=0; struct cut_info C; memset(&C,0,sizeof C); C.dir=!strcmp(w,"corr")?TOPOLOGICAL_CORRELATOR:TOPOLOGICAL_SUSCEPTIBILITY; C.type=PSQ_CUT; strcpy(C.where,"./");
  if(!strcmp(w,"corr")) { sx_prove_true(compute_Qcorr(lat,C,1)==GLU_SUCCESS,"rc"); sx_prove_true(ncall==2,"both correlators written"); }
  else if(!strcmp(w,"slab")) { sx_prove_true(compute_Qsusc(lat,C,1)==GLU_SUCCESS,"rc"); sx_prove_true(wdir==ND,"every direction written"); }
  else { /* moments: n-th moment of the slice sums (weights t^n/n!, sign of i^n i.e. ++--) over |t|<L/2 */ struct Qmoments M; int NM=12; M.Q=malloc(ND*NM*sizeof(double)); M.Q2=malloc(ND*NM*sizeof(double)); for(int i=0;i<ND*NM;i++) M.Q[i]=M.Q2[i]=sx_var("junk"); sx_prove_true(compute_Qmoments(lat,&M)==GLU_SUCCESS,"rc");
    for(int mu=0;mu<ND;mu++){ int L=Latt.dims[mu]; double*S=malloc(L*sizeof(double)),*S2=malloc(L*sizeof(double)); for(int a=0;a<L;a++){ S[a]=S2[a]=0; for(size_t i=0;i<LVOLUME;i++){ int x[ND]; x_of(i,x); if(x[mu]==a){ S[a]=S[a]+QD[i]; S2[a]=S2[a]+rcorr(i); } } }
      double f=1; for(int n=0;n<NM;n++){ if(n) f*=n; double a=0,b=0; for(int q=-L/2+1;q<L/2;q++){ double p=1; for(int k=0;k<n;k++) p*=q; a=a+p*S[(q+L)%L]; b=b+p*S2[(q+L)%L]; } double sg=(n&2)?-1:1; snprintf(t,40,"moment %d of Q direction %d",n,mu); sx_prove_eq(M.Q[n+NM*mu]*f,sg*NQ*a,t); snprintf(t,40,"moment %d of Q^2 direction %d",n,mu); sx_prove_eq(M.Q2[n+NM*mu]*f,sg*NQ2*b,t); } } } }
#endif
int harness(int c,char**v){ sx_sweep(1); const char*w=v[1]; int k=atoi(v[2]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(v[3+m]); unsigned seed=atoi(v[3+ND]); int nl=c>4+ND?atoi(v[4+ND]):3; lat_dims(d);
#if ND==4
  if(!strcmp(w,"gm")){ struct site*lat=lat_new(); f_dense(lat,seed); if(k==0) f_zmul(lat); if(k==2) f_rot(lat,nl,seed); if(k==1) f_gen(lat,nl,seed); gm(lat); }
#endif
#ifdef WRAP_Q
  if(strcmp(w,"gm")) corr(w);
#endif
  return 0; }
