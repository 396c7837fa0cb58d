/* gauge transformation helpers shared by gauge.c and gfix.c */
#include "lat.h"
static cplx**gfield(int k,size_t n,unsigned seed,const char*nm){ cplx**g=g_new(n); lat_seed=seed*31337u+3; char t[40]; int left=3; for(size_t i=0;i<n;i++){ m_dense(g[i]); snprintf(t,40,"%s%zu",nm,i);
    if(k==0){ cplx z=sx_cvar(t); for(int q=0;q<NCNC;q++) g[i][q]=(RE(g[i][q])==0&&IM(g[i][q])==0)?0:c_mul(z,g[i][q]); }
    if(k==2 && left && lat_rnd(3)==0){ l_rot(g[i],t); left--; } if(k==1&&left&&lat_rnd(3)==0){ m_var(g[i],t); left--; } } return g; }
static struct site*copy(const struct site*lat){ struct site*l=lat_new(); for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++) m_copy(l[i].O[mu],lat[i].O[mu]); return l; }
/* a U b^dag */
static void gUg(cplx*r,const cplx*a,const cplx*u,const cplx*b){ cplx d[NCNC]; m_dag(d,b); m_mul(r,a,u); m_mul(r,r,d); }
static void cmp(const struct site*a,const struct site*b,const char*w){ char t[60]; for(size_t i=0;i<LVOLUME;i++) for(int mu=0;mu<ND;mu++){ snprintf(t,60,"%s %zu %d",w,i,mu); m_prove_eq(a[i].O[mu],b[i].O[mu],t);} }
