/* observables: plaquettes, link traces, Polyakov loops.  argv: what field L0.. seed */
#include "lat.h"
#include "plaqs_links.h"
#include "POLY.h"
static double rplaq(const struct site*lat,int mu,int nu){ double s=0; for(size_t i=0;i<LVOLUME;i++){ cplx r[NCNC]; int p[4]={mu+1,nu+1,-mu-1,-nu-1}; m_path(r,lat,i,p,4); s=s+RE(m_tr(r)); } return s; }
static struct site*field(int k,unsigned seed){ struct site*lat=lat_new(); if(k==0||k==3) f_dense(lat,seed); else f_mono(lat,seed); if(k==0) f_zmul(lat); if(k==1) f_gen(lat,3,seed); if(k==2) f_rot(lat,3,seed); return lat; }
int harness(int c,char**v){ sx_sweep(1); const char*w=v[1]; int k=atoi(v[2]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(v[3+m]); unsigned seed=atoi(v[3+ND]); lat_dims(d);
  struct site*lat=field(k,seed);
  if(!strcmp(w,"plaq")){ double sp=0,tp=0; for(int mu=0;mu<ND;mu++)for(int nu=0;nu<mu;nu++){ double r=rplaq(lat,mu,nu); if(mu==ND-1) tp=tp+r; else sp=sp+r; }
    /* averages over all planes of the normalised trace */ double V=(double)LVOLUME*NC,ns=(ND-1)*(ND-2)/2,nt=ND-1;
    double s=sx_var("s0"),t=sx_var("t0"); double a=all_plaquettes(lat,&s,&t); sx_prove_eq(s*(ns*V),sp,"all_plaquettes spatial"); 
    sx_prove_eq(t*(nt*V),tp,"all_plaquettes temporal"); sx_prove_eq(a*((ns+nt)*V),sp+tp,"all_plaquettes mean");
    sx_prove_eq(av_plaquette(lat)*((ns+nt)*V),sp+tp,"av_plaquette"); sx_prove_eq(s_plaq(lat)*(ns*V),sp,"s_plaq"); sx_prove_eq(t_plaq(lat)*(nt*V),tp,"t_plaq");
    double red[CLINE*8]; for(int i=0;i<CLINE*8;i++) red[i]=sx_var("junk");
#pragma omp parallel
    { av_plaquette_th(red,lat); }
    double q=0; for(int i=0;i<(int)Latt.Nthreads;i++) q=q+red[3+CLINE*i]; sx_prove_eq(q,sp+tp,"av_plaquette_th sum"); }
  if(!strcmp(w,"link")){ double sp=0,tp=0,mx=0; for(size_t i=0;i<LVOLUME;i++)for(int mu=0;mu<ND;mu++){ double r=RE(m_tr(lat[i].O[mu])); if(mu==ND-1) tp=tp+r; else sp=sp+r; }
    double V=(double)LVOLUME*NC,s=sx_var("s0"),t=sx_var("t0"); double a=all_links(lat,&s,&t); sx_prove_eq(s*((ND-1)*V),sp,"all_links spatial"); sx_prove_eq(t*V,tp,"all_links temporal"); sx_prove_eq(a*(ND*V),sp+tp,"all_links mean");
    sx_prove_eq(links(lat)*(ND*V),sp+tp,"links"); sx_prove_eq(s_links(lat)*((ND-1)*V),sp,"s_links"); sx_prove_eq(t_links(lat)*V,tp,"t_links"); (void)mx; }
  if(!strcmp(w,"indiv")){ /* largest trace: a few symbolic links */ double V=(double)LVOLUME*NC; GLU_real m=sx_var("m0"); double sum=0; double r=indivlinks(lat,&m); 
    for(size_t i=0;i<LVOLUME;i++)for(int mu=0;mu<ND;mu++){ double q=RE(m_tr(lat[i].O[mu])); sum=sum+q; char t[40]; snprintf(t,40,"indivlinks max >= link %zu %d",i,mu); sx_prove_le(q,m,t); } sx_prove_eq(r*(ND*V),sum,"indivlinks mean"); 
    double pr=m; for(size_t i=0;i<LVOLUME;i++)for(int mu=0;mu<ND;mu++) pr=pr*(m-RE(m_tr(lat[i].O[mu]))); sx_prove_eq(pr,0,"indivlinks max is attained (or zero)"); }
  if(!strcmp(w,"poly")){ double red[CLINE*8]; for(int i=0;i<CLINE*8;i++) red[i]=0; for(int mu=0;mu<ND;mu++){ cplx s=0; double n=0; for(size_t i=0;i<LVOLUME;i++){ int x[ND]; x_of(i,x); if(x[mu]) continue; int p[16]; cplx r[NCNC]; for(int q=0;q<(int)Latt.dims[mu];q++) p[q]=mu+1; m_path(r,lat,i,p,Latt.dims[mu]); s=c_add(s,m_tr(r)); n+=1; }
      char t[40]; snprintf(t,40,"poly dir %d",mu); cplx P=poly(lat,mu); sx_prove_ceq(c_scale(n,P),s,t);
#pragma omp parallel
      { poly_th(red,lat,mu); }
      double a=0,b=0; for(int i=0;i<(int)Latt.Nthreads;i++){ a=a+red[2*mu+i*CLINE]; b=b+red[2*mu+1+i*CLINE]; } snprintf(t,40,"poly_th dir %d",mu); sx_prove_ceq(c_scale(n,sx_mkc(a,b)),s,t); } }
  return 0; }
