/* Wilson flow.  -DP_RK: one Runge-Kutta step; -DP_DRV: drivers; default: measurements */
#include "gh.h"
#include "GLU_enum.h"
#include "wflowfuncs.h"
#include "wflow.h"
#include "adaptive_flow.h"
#include "staples.h"
#include "plaqs_links.h"
#include "clover.h"
static char t[120];
static void herm0(cplx*r,const cplx*a){ cplx d[NCNC]; m_dag(d,a); cplx s=0; for(int i=0;i<NCNC;i++){ cplx x=c_sub(a[i],d[i]); r[i]=sx_mkc(0.5*IM(x),-0.5*RE(x)); } s=m_tr(r); for(int i=0;i<NC;i++) r[i*(NC+1)]=c_sub(r[i*(NC+1)],sx_mkc(RE(s)/NC,IM(s)/NC)); }
static int same(const cplx*a,const cplx*b){ const unsigned long long*x=(const void*)a,*y=(const void*)b; for(int k=0;k<2*NCNC;k++) if(x[k]!=y[k]) return 0; return 1; }
#ifdef P_RK
#ifdef IMPROVED_SMEARING
#define NEAR 2
#else
#define NEAR 1
#endif
#define NX (NC*NC-1)
static struct site*L,*S; static struct wflow_temps W; static int stage,np; static int*done; static int TYPE; static double dt;
static double*X[3]; static int*hx; static cplx**ST; static cplx**F;
static size_t lk(const cplx*p){ for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) if((const cplx*)L[i].O[mu]==p) return i*ND+mu; return (size_t)-1; }
static int near_t(size_t i,size_t j){ int a=i/LCU,b=j/LCU,T=LVOLUME/LCU,d=(a-b+T)%T; if(T-d<d) d=T-d; return d<=NEAR; }
static void oldfield(size_t i){ for(size_t j=0;j<LVOLUME;j++) if(near_t(i,j)) for(int m=0;m<ND;m++) if(!same(L[j].O[m],S[j].O[m])){ snprintf(t,90,"stage %d reads the field of the stage before, link %zu %d",stage,j,m); m_prove_eq(L[j].O[m],S[j].O[m],t); } }
/* packed generator of link k at this stage: NX symbols in [-1,1] */
static double*gen(size_t k){ double*x=X[stage]+k*NX; if(!hx[stage*LVOLUME*ND+k]){ hx[stage*LVOLUME*ND+k]=1; for(int q=0;q<NX;q++){ snprintf(t,90,"x%d_%zu_%d",stage,k,q); x[q]=(k*3+stage)%5<2||k==0?sx_var_range(t,-1,1):(double)(((int)lat_rnd(9))-4)/8; } } return x; }
static void full(cplx*h,const double*x){ int q=0; cplx tr=0; for(int i=0;i<NC-1;i++) for(int j=i;j<NC;j++){ if(i==j){ h[i*NC+i]=sx_mkc(x[q++],0); tr=c_add(tr,h[i*NC+i]); } else { h[i*NC+j]=sx_mkc(x[q],x[q+1]); h[j*NC+i]=c_conj(h[i*NC+j]); q+=2; } } h[NCNC-1]=c_scale(-1,tr); }
static void stap(cplx*s,const struct site*l,size_t i,size_t mu,size_t dir,int type){ oldfield(i); sx_prove_true(l==L&&dir==ND&&type==TYPE,"staples of all directions"); size_t k=i*ND+mu; if(TYPE==SM_LOG) full(s,gen(k)); else { unsigned sv=lat_seed; lat_seed=(unsigned)(k*977+stage*131+5); m_dense(s); lat_seed=sv; if(k%3==0){ snprintf(t,90,"w%d_%zu",stage,k); cplx z=sx_mkc(sx_var(t),0); 
#if NC>2
  z=sx_mkc(RE(z),0.25); z=c_mul(z,z);
#endif
  for(int q=0;q<NCNC;q++) s[q]=c_mul(z,s[q]); } ST[k]=realloc(ST[k],sizeof(cplx)*NCNC); m_copy(ST[k],s); } }
void all_staples(GLU_complex s[NCNC],const struct site*__restrict l,const size_t i,const size_t mu,const size_t dir,const smearing_types ty){ stap((cplx*)s,l,i,mu,dir,ty); }
#ifdef IMPROVED_SMEARING
void all_staples_improve(GLU_complex s[NCNC],const struct site*__restrict l,const size_t i,const size_t mu,const size_t dir,const size_t ty){ stap((cplx*)s,l,i,mu,dir,ty); }
#endif
/* exponent handed to the projection: bounded deviation from the exact combination */
static void nearly(double a,double b){ double d=a-b; sx_prove_le(d,1e-9,t); sx_prove_le(-1e-9,d,t); }
static void prj(GLU_complex log[NCNC],GLU_complex*__restrict Z,const GLU_complex link[NCNC],const double al){ size_t k=lk((const cplx*)link); sx_prove_true(k!=(size_t)-1,"projects against a link of the lattice"); if(k==(size_t)-1) exit(0); int zk=0; for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) if(W.Z[i].O[mu]==Z) zk=(i*ND+mu==k); sx_prove_true(zk,"accumulator of the same link"); done[k]++; snprintf(t,90,"stage %d projects against the link of the stage before",stage); m_prove_eq((const cplx*)link,S[k/ND].O[k%ND],t);
  cplx h[NCNC]; double xs[3][NX]; 
  if(TYPE==SM_LOG){ memcpy(xs[stage],gen(k),sizeof xs[0]); }
  else { cplx d[NCNC],q[NCNC]; m_dag(d,S[k/ND].O[k%ND]); m_mul(q,ST[k],d); herm0(h,q); int n=0; for(int i=0;i<NC-1;i++) for(int j=i;j<NC;j++){ xs[stage][n++]=RE(h[i*NC+j]); if(i!=j) xs[stage][n++]=IM(h[i*NC+j]); } }
  memcpy(X[stage]+k*NX,xs[stage],sizeof xs[0]);
  /* unpack the accumulator */
  double z[NX]; int n=0;
#if NC==3
  z[0]=RE(Z[0]); z[1]=RE(Z[1]); z[2]=IM(Z[1]); z[3]=RE(Z[2]); z[4]=IM(Z[2]); z[5]=IM(Z[0]); z[6]=RE(Z[3]); z[7]=IM(Z[3]); (void)n;
#else
  int e=0; for(int i=0;i<NC-1;i++) for(int j=i;j<NC;j++){ z[n++]=RE(Z[e]); if(i!=j) z[n++]=IM(Z[e]); e++; }
#endif
  static const double C[3][3]={{1/4.,0,0},{-17/36.,8/9.,0},{17/36.,-8/9.,3/4.}};
  for(int q=0;q<NX;q++){ double r=0; for(int s=0;s<=stage;s++) r+=C[stage][s]*X[s][k*NX+q]; snprintf(t,90,"exponent of stage %d link %zu",stage,k); nearly(al*z[q],dt*r); }
  unsigned sv=lat_seed; lat_seed=(unsigned)(k*7001+stage*40503+np*77+11); F[k]=malloc(sizeof(cplx)*NCNC); m_dense(F[k]); lat_seed=sv; m_copy((cplx*)log,F[k]); if(TYPE==SM_LOG&&k%4==1) m_var(F[k],"u"),m_copy((cplx*)log,F[k]);
  np++; if(np==(int)(LVOLUME*ND)){ for(size_t j=0;j<LVOLUME*ND;j++){ sx_prove_true(done[j]==1,"each link once a stage"); done[j]=0; if(F[j]) m_copy(S[j/ND].O[j%ND],F[j]); } np=0; stage++; if(stage==3) stage=0,np=-1000000000; } }
int harness(int c,char**v){ sx_sweep(1); int mc=atoi(v[1]); TYPE=atoi(v[2]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(v[3+m]); unsigned seed=atoi(v[3+ND]); (void)c; lat_dims(d); Latt.Nthreads=1; L=lat_new(); f_dense(L,seed);
#if NC>3
  f_zmul(L);
#endif
  S=copy(L); done=calloc(LVOLUME*ND,sizeof(int)); F=calloc(LVOLUME*ND,sizeof(cplx*)); ST=calloc(LVOLUME*ND,sizeof(cplx*)); for(int s=0;s<3;s++) X[s]=calloc(LVOLUME*ND*NX,sizeof(double)); hx=calloc(3*LVOLUME*ND,sizeof(int));
  dt=sx_var_range("dt",-1,1); int r=allocate_WF(&W,mc?GLU_TRUE:GLU_FALSE,GLU_FALSE); sx_prove_true(r==GLU_SUCCESS,"allocates");
  (mc?step_distance_memcheap:step_distance)(L,W,dt,TYPE,prj);
  sx_prove_true(np<-1,"three stages over all links"); cmp(L,S,"flowed field"); free_WF(&W,mc?GLU_TRUE:GLU_FALSE,GLU_FALSE); return 0; }
#elif defined(P_DRV)
#ifndef RT
#define RT 1
#endif
/* the field is the flow time it has been integrated to */
static double T2P(double T); static int nstep,nmeas; static double last_t,last_p,last_T,plaqsum,pl_T; static double gt[64]; static struct wfmeas*heads[64]; static double tim[64]; static int mode; static double adt,stop; static int nred; static double cand_dt[64],pth[64]; static int npth,nst,since; static int retries; static double ysc; static int SM; static struct site*LL; static int nscale; static int acc;
static double get(const struct site*l){ for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) sx_prove_true(sx_same(RE(l[i].O[mu][0]),RE(l[0].O[0][0])),"whole field at one flow time"); return RE(l[0].O[0][0]); }
static int idn; static int gid(const struct site*l){ return (int)(RE(l[0].O[0][1])+0.5); } /* every integration makes a new field */
static int ph; static double d0;
static void sd(struct site*__restrict lat,double d){ nstep++; double x=get(lat)+d; if(mode==2&&lat!=LL){ if(ph==0||ph==1) sx_prove_eq(get(lat),get(LL),"trial steps start from the current field"); if(ph==0){ if(since==0&&retries) { double sg=d0>0?1:-1; sx_prove_le(sg*0.1*d0*(1-1e-12),sg*d,"a rejected step shrinks at most tenfold"); sx_prove_le(sg*d,sg*0.9*d0*(1+1e-12),"a rejected step shrinks"); } d0=d; retries++; } else sx_prove_eq(d,0.5*d0,"two half steps"); ph=(ph+1)%3; } if(nst<64) cand_dt[nst]=d; nst++; for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) { lat[i].O[mu][0]=sx_mkc(x,0); lat[i].O[mu][1]=sx_mkc(idn+1,0); } idn++; if(lat==LL) since++; }
#include "projectors.h"
#define PA void(*project)(GLU_complex log[NCNC],GLU_complex*__restrict staple,const GLU_complex link[NCNC],const double smear_alpha)
static void chk(int ty,void*p,int mc){ sx_prove_true(ty==SM&&p==(SM==SM_LOG?(void*)project_LOG_wflow_short:(void*)project_STOUT_wflow_short),"projection of the flow"); sx_prove_true(mc==(mode==1),"memory variant"); }
void step_distance(struct site*__restrict lat,struct wflow_temps WF,const double d,const smearing_types ty,PA){ (void)WF; chk(ty,(void*)project,0); sd(lat,d); }
void step_distance_memcheap(struct site*__restrict lat,struct wflow_temps WF,const double d,const smearing_types ty,PA){ (void)WF; chk(ty,(void*)project,1); sd(lat,d); }
static int kid[256]; static double kp[256]; static int nkp;
/* the mean plaquette is an unknown of every field */
static double plq(int T){ for(int k=0;k<nkp;k++) if(kid[k]==T) return kp[k]; snprintf(t,90,"plaq%d",nkp); double p=sx_var_range(t,-1,1); kid[nkp]=T; kp[nkp]=p; nkp++; return p; }
static double lastp; static double plq_is(int T,double p){ for(int k=0;k<nkp;k++) if(kid[k]==T) return kp[k]; kid[nkp]=T; kp[nkp]=p; nkp++; return p; }
double av_plaquette(const struct site*__restrict l){ return plq(gid(l)); }
void av_plaquette_th(double*red,const struct site*__restrict l){ double p=(mode==2&&l!=LL&&ph==0&&(retries>RT||nmeas>1))?plq_is(gid(l),lastp):plq(gid(l)); lastp=p; for(size_t k=0;k<Latt.Nthreads;k++) red[3+CLINE*k]=0; red[3]=p*(0.5*NC*ND*(ND-1)*LVOLUME); pth[npth%64]=p; npth++; }
void update_meas_list(struct wfmeas*head,struct wfmeas*curr,double*red,const double np,const double tt,const double d,const double e,const struct site*l){ (void)red; (void)d; (void)e; sx_prove_true(l==LL,"measures the flowed field"); double T=get(l); sx_prove_eq(tt,T,"measured at the flow time of the field"); sx_prove_eq(np,plq(gid(l)),"plaquette of the field at that flow time"); snprintf(t,90,"Gt%d",nmeas); curr->time=tt; curr->avplaq=np; curr->qtop=0; curr->Gt=nmeas==0?0:mode==2&&nmeas>3?1000.0*nmeas:sx_var_range(t,-1,2); if(mode==2){ if(retries) sx_prove_le(e,1e-6*(1+1e-9),"accepted step within tolerance"); retries=0; sx_prove_true(ph==0,"whole trial steps"); } if(nmeas<64){ gt[nmeas]=curr->Gt; tim[nmeas]=T; } sx_prove_true((head==NULL)==(nmeas==0)&&(nmeas==0||head==heads[nmeas-1]),"measurements chained"); curr->next=head; heads[nmeas]=curr; nmeas++; since=0; }
void scaleset(struct wfmeas*curr,const double T0,const double W0,const size_t count,const GLU_bool cl){ (void)cl; sx_prove_true(curr==heads[nmeas-1]&&(int)count==nmeas-1,"scale set from all the measurements"); sx_prove_true(T0==T0_STOP&&W0==W0_STOP,"reference scales"); nscale++; }
#include <omp.h>
int harness(int c,char**v){ omp_set_num_threads(1); mode=atoi(v[1]); SM=atoi(v[2]); int n=atoi(v[3]); int sg=atoi(v[4]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=1; d[ND-1]=2; lat_dims(d); Latt.Nthreads=2; (void)c; LL=lat_new(); for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++){ m_zero(LL[i].O[mu]); }
  sx_require_paths(2); double a=sx_var_range("eps",0.01,30); Latt.sm_alpha[0]=a; stop=WFLOW_TIME_STOP;
  int r=mode==2?flow_adaptive_RK3(LL,n,sg?GLU_BACKWARD:GLU_FORWARD,SM):flow_RK3(LL,n,sg?GLU_BACKWARD:GLU_FORWARD,SM,mode?GLU_TRUE:GLU_FALSE);
  double T=get(LL); (void)r;
  if(mode<2){ sx_prove_true(r==GLU_SUCCESS,"success"); double s=sg?-1:1; /* steps of eps until the stopping condition, then exactly to the stopping time */
    int k; int fwd=nstep; for(k=1;;k++){ double tk=k*(s*a); double wap=0; if(!sg) wap=(gt[k]-(k>1?gt[k-1]:0))*tk/(s*a); int go=wap<W0_STOP*1.5&&k<n&&tk<stop; if(!go) break; }
    if(k*(s*a)>stop){ sx_prove_true(fwd==k+1,"number of steps"); sx_prove_eq(T,stop,"stops exactly at the stopping time"); } else { sx_prove_true(fwd==k,"number of steps"); sx_prove_eq(T,k*(s*a),"flow time after the steps"); }
    if(!sg) sx_prove_true(nmeas==1+fwd,"a measurement at the start and after every step"); }
  else { if(r==GLU_SUCCESS) sx_prove_le(T,stop,"never flows beyond the stopping time"); }
  return 0; }
#else
/* measurements: field strength and plaquette */
static double G,Q;
void compute_Gmunu_th(double*red,const struct site*__restrict l){ (void)l; for(size_t k=0;k<Latt.Nthreads;k++){ snprintf(t,90,"g%zu",k); red[CLINE*k]=sx_var(t); G=k?G+red[CLINE*k]:red[0]; snprintf(t,90,"q%zu",k); red[1+CLINE*k]=sx_var(t); Q=k?Q+red[1+CLINE*k]:red[1]; } }
int harness(int c,char**v){ size_t d[ND]; for(int m=0;m<ND;m++) d[m]=2; lat_dims(d); Latt.Nthreads=c>1?atoi(v[1]):2; struct site*l=lat_new(); struct wfmeas a,h; double*red=calloc(CLINE*Latt.Nthreads,sizeof(double)); double tt=sx_var_range("t",0,20),p=sx_var("p"); update_meas_list(&h,&a,red,p,tt,0.1,0.0,l);
  sx_prove_eq(a.time,tt,"time"); sx_prove_eq(a.Gt,tt*tt*G/(16*LVOLUME),"flowed action density"); double x=a.qtop+Q/(64*3.14159265358979323846*3.14159265358979323846); sx_assume_le(Q,100); sx_assume_le(-100,Q); sx_prove_le(x,1e-9,"charge"); sx_prove_le(-1e-9,x,"charge"); sx_prove_eq(a.avplaq,p,"plaquette"); sx_prove_true(a.next==&h,"linked"); return 0; }
#endif
