/* gauge transformations and axial gauges.  argv: what field L0.. seed nlinks */
#include "gh.h"
#include "gtrans.h"
#include "MAG.h"
#include "gftests.h"
#include "CG.h"
#include "line_search.h"
#ifdef WRAP_SG
/* any gauge matrices: one per site (and step length) */
static int nsg; static double seen_alpha; static cplx**SG;
void set_gauge_matrix(GLU_complex *__restrict gx,const GLU_complex*__restrict*__restrict in,const double alpha,const size_t i){ (void)in; nsg++; seen_alpha=alpha; m_copy(gx,SG[i]); }
#endif
/* axial gauges reunitarise before and after: exact on unitary links, so cut out */
#ifdef WRAP_RE
void latt_reunitU(struct site*lat){ (void)lat; }
#endif
int harness(int c,char**v){ sx_sweep(1); const char*w=v[1]; int k=atoi(v[2]); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(v[3+m]); unsigned seed=atoi(v[3+ND]); int nl=c>4+ND?atoi(v[4+ND]):3; lat_dims(d); char t[60];
  struct site*lat=lat_new(); f_dense(lat,seed); if(k==0) f_zmul(lat); if(k==1) f_gen(lat,nl,seed); if(k==2) f_rot(lat,nl,seed); struct site*ref=copy(lat);
  if(!strcmp(w,"full")){ cplx**g=gfield(k,LVOLUME,seed,"g"); struct site*l2=copy(lat);
    for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) gUg(ref[i].O[mu],g[i],lat[i].O[mu],g[sh_of(i,mu,1)]);
    gtransform(lat,(const GLU_complex**)g); cmp(lat,ref,"gtransform");
#pragma omp parallel
    { gtransform_th(l2,(const GLU_complex**)g); }
    cmp(l2,ref,"gtransform_th");
    double s=0; for(size_t i=0;i<LVOLUME;i++) s=s+RE(m_tr(g[i])); sx_prove_eq((1-gauge_test((const GLU_complex**)g))*((double)NC*LVOLUME),s,"gauge_test");
    s=0; for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) s=s+RE(m_tr(ref[i].O[mu])); sx_prove_eq((1-gauge_functional(l2))*((double)NC*ND*LVOLUME),s,"gauge_functional"); }
  if(!strcmp(w,"slice")){ size_t T=Latt.dims[ND-1]; cplx**g=gfield(k,LCU,seed,"g"),**u=gfield(k,LCU,seed+9,"u"); for(size_t s=0;s<T;s++){ struct site*a=copy(lat),*b=copy(lat),*e=copy(lat); double f=0;
      for(size_t i=0;i<LCU;i++) for(int mu=0;mu<ND;mu++){ size_t j=i+LCU*s; const cplx*h=mu==ND-1?u[i]:g[sh_of(i,mu,1)]; gUg(e[j].O[mu],g[i],lat[j].O[mu],h); if(mu<ND-1) f=f+RE(m_tr(e[j].O[mu])); }
      gtransform_slice((const GLU_complex**)g,a,(const GLU_complex**)u,s); snprintf(t,60,"gtransform_slice t=%zu",s); cmp(a,e,t);
#pragma omp parallel
      { gtransform_slice_th((const GLU_complex**)g,b,(const GLU_complex**)u,s); }
      snprintf(t,60,"gtransform_slice_th t=%zu",s); cmp(b,e,t); 
#if defined deriv_lin||defined deriv_linn
 snprintf(t,60,"gtrans_functional t=%zu",s); sx_prove_eq((1-gtrans_functional(lat,(const GLU_complex**)g,s))*((double)NC*(ND-1)*LCU),f,t);
#endif
 } }
#ifdef WRAP_SG
  if(!strcmp(w,"egauge")){ SG=gfield(k,LVOLUME,seed,"g"); for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) gUg(ref[i].O[mu],SG[i],lat[i].O[mu],SG[sh_of(i,mu,1)]);
    double al=0.1;
#pragma omp parallel
    { egauge_Landau(lat,0,al); }
    cmp(lat,ref,"egauge_Landau"); sx_prove_true(seen_alpha==al,"step length");
    cplx**g=gfield(k,LCU,seed+4,"h"),**e=g_new(LCU); for(size_t i=0;i<LCU;i++) m_mul(e[i],SG[i],g[i]);
#pragma omp parallel
    { exponentiate_gauge_CG(g,0,al); }
    for(size_t i=0;i<LCU;i++){ snprintf(t,60,"exponentiate_gauge_CG %zu",i); m_prove_eq(g[i],e[i],t);} }
#endif
#ifdef WRAP_RE
  /* axial gauge: identity on every link of the direction but the last of each line, which holds the line product transported to the origin of the line; gauge invariants are kept: every other link is the transported one */
  if(!strcmp(w,"axial")){ for(int D=0;D<ND;D++){ struct site*a=copy(lat); cplx**h=g_new(LVOLUME); cplx id[NCNC]; m_id(id);
      for(size_t i=0;i<LVOLUME;i++){ int x[ND]; x_of(i,x); int n=x[D]; x[D]=0; int p[64]; for(int q=0;q<n;q++) p[q]=D+1; m_path(h[i],lat,i_of(x),p,n); }
      sx_prove_true(axial_gauge(a,D)==GLU_SUCCESS,"rc"); for(size_t i=0;i<LVOLUME;i++){ int x[ND]; x_of(i,x); if(x[D]<(int)Latt.dims[D]-1){ snprintf(t,60,"axial %d identity at %zu",D,i); m_prove_eq(a[i].O[D],id,t);} for(int mu=0;mu<ND;mu++){ if(mu==D && x[D]<(int)Latt.dims[D]-1) continue; cplx e[NCNC]; gUg(e,h[i],lat[i].O[mu],h[sh_of(i,mu,1)]); snprintf(t,60,"axial %d link %zu %d",D,i,mu); m_prove_eq(a[i].O[mu],e,t); } } } }
  /* maximal axial gauge: the tree x0 (x0,x1) ... from the origin is the identity */
  if(!strcmp(w,"mag")){ cplx**h=g_new(LVOLUME),id[NCNC]; m_id(id); for(size_t i=0;i<LVOLUME;i++){ int x[ND],p[64],n=0; x_of(i,x); /* path from the origin: first direction first */ for(int D=0;D<ND;D++) for(int q=0;q<x[D];q++) p[n++]=D+1; m_path(h[i],lat,0,p,n); }
    sx_prove_true(mag(lat)==GLU_SUCCESS,"rc"); for(size_t i=0;i<LVOLUME;i++){ int x[ND]; x_of(i,x); for(int mu=0;mu<ND;mu++){ int tree=x[mu]<(int)Latt.dims[mu]-1; for(int q=mu+1;q<ND;q++) if(x[q]) tree=0; if(tree){ snprintf(t,60,"mag tree %zu %d",i,mu); m_prove_eq(lat[i].O[mu],id,t); } else { cplx e[NCNC]; gUg(e,h[i],ref[i].O[mu],h[sh_of(i,mu,1)]); snprintf(t,60,"mag link %zu %d",i,mu); m_prove_eq(lat[i].O[mu],e,t);} } } }
#endif
  return 0; }
