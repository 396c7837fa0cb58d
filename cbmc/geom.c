/* geometry.c and init.c: dimensions fixed per job (D0..D3), sites, coordinates,
   directions and separations symbolic */
#include "Mainfile.h"
#include "geometry.h"
#include "init.h"
#include "vb.h"
#ifndef VB_NATIVE
long long VB_IN[VB_MAXIN]; int VB_N=0;
#endif
struct latt_info Latt ;
void compute_pertinent_indices( void ) { }
static void dims(void){ Latt.dims[0]=D0; Latt.dims[1]=D1;
#if ND>2
 Latt.dims[2]=D2;
#endif
#if ND>3
 Latt.dims[3]=D3;
#endif
 init_latt(); }
static int md(long long a,long long b){ long long r=a%b; return (int)(r<0?r+b:r); }
static size_t lex(const int*x){ size_t s=0; for(int mu=ND-1;mu>=0;mu--) s=s*Latt.dims[mu]+x[mu]; return s; }
void harness(void){
  dims(); size_t V=1; for(int mu=0;mu<ND;mu++) V*=Latt.dims[mu];
  VB_CHECK(Latt.Volume==V,"volume"); VB_CHECK(Latt.Lcu*Latt.dims[ND-1]==V,"timeslice volume");
  int x[ND],y[ND],z[ND]; size_t i=vb_int(0,V-1);
#if PART==0
  { int sum=get_mom_2piBZ(x,i,ND),s=0; for(int mu=0;mu<ND;mu++){ VB_CHECK(x[mu]>=0&&x[mu]<(int)Latt.dims[mu],"coordinate in range"); s+=x[mu]; } VB_CHECK(s==sum,"coordinate sum"); VB_CHECK(lex(x)==i,"site to coordinates is lexicographic"); VB_CHECK(gen_site(x)==i,"coordinates to site inverts"); }
  for(int mu=0;mu<ND;mu++) y[mu]=vb_int(0,Latt.dims[mu]-1);
  size_t s=gen_site(y); VB_CHECK(s<V,"site in range"); VB_CHECK(s==lex(y),"site is lexicographic"); get_mom_2piBZ(z,s,ND); for(int mu=0;mu<ND;mu++) VB_CHECK(z[mu]==y[mu],"site to coordinates inverts");
  /* layout of a HiRep file: time slowest, then x, y, z fastest */
  get_mom_2piBZ_hirep2(y,i); size_t h=y[ND-1]; for(int mu=0;mu<ND-1;mu++) h=h*Latt.dims[mu]+y[mu]; VB_CHECK(h==i,"hirep ordering"); for(int mu=0;mu<ND;mu++) VB_CHECK(y[mu]>=0&&y[mu]<(int)Latt.dims[mu],"hirep range");
#elif PART==1
  int d=(int)vb_int(0,ND-1); get_mom_2piBZ(x,i,ND);
  size_t f=gen_shift(i,d),b=gen_shift(i,-d-1); VB_CHECK(f<V&&b<V,"shift stays on the lattice"); get_mom_2piBZ(y,f,ND); get_mom_2piBZ(z,b,ND);
  for(int mu=0;mu<ND;mu++){ VB_CHECK(y[mu]==(mu==d?md(x[mu]+1,Latt.dims[mu]):x[mu]),"forward shift"); VB_CHECK(z[mu]==(mu==d?md(x[mu]-1,Latt.dims[mu]):x[mu]),"backward shift"); }
  VB_CHECK(gen_shift(f,-d-1)==i,"back of forward is the site"); VB_CHECK(gen_shift(b,d)==i,"forward of back is the site");
#elif PART==2
  /* momenta: every DIMS the callers use (ND, ND-1) */
  for(int DIR=ND-1;DIR<=ND;DIR++){ size_t n=DIR==ND?V:Latt.Lcu; size_t k=vb_int(0,n-1);
    get_mom_2piBZ(x,k,DIR); get_mom_pipi(y,k,DIR); TwoPI_mpipi_momconv(z,k,DIR);
    for(int mu=0;mu<ND;mu++){ int L=Latt.dims[mu]; if(mu==DIR){ VB_CHECK(x[mu]==0&&y[mu]==0&&z[mu]==0,"excluded direction is zero"); continue; }
      VB_CHECK(y[mu]>=-(L/2)&&y[mu]<=(L-1)/2,"momentum in the symmetric zone"); VB_CHECK(y[mu]+L/2==x[mu],"symmetric-zone index");
      VB_CHECK(z[mu]>=-(L/2)&&z[mu]<=(L-1)/2,"converted momentum in the symmetric zone"); VB_CHECK(md(z[mu]-x[mu],L)==0,"converted momentum equal modulo the extent"); }
    size_t s=get_site_pipiBZ(y,DIR); get_mom_2piBZ(x,s,DIR); for(int mu=0;mu<ND;mu++) if(mu!=DIR) VB_CHECK(md(x[mu]-y[mu],Latt.dims[mu])==0,"symmetric to periodic zone");
    get_mom_2piBZ(x,k,DIR); s=get_site_2piBZ(x,DIR); VB_CHECK(s<n,"periodic to symmetric zone in range"); get_mom_pipi(y,s,DIR); for(int mu=0;mu<ND;mu++) if(mu!=DIR) VB_CHECK(md(x[mu]-y[mu],Latt.dims[mu])==0,"periodic to symmetric zone"); }
#elif PART==3
  for(int DIR=ND-1;DIR<=ND;DIR++){ size_t n=DIR==ND?V:Latt.Lcu; size_t k=vb_int(0,n-1); int sep[ND]; 
    get_mom_2piBZ(x,k,DIR); for(int mu=0;mu<ND;mu++) sep[mu]=(int)vb_int(-(long long)Latt.dims[mu],2*(long long)Latt.dims[mu]);
    size_t s=compute_spacing(sep,k,DIR); VB_CHECK(s<n,"separated site in range"); get_mom_2piBZ(y,s,DIR); for(int mu=0;mu<DIR;mu++) VB_CHECK(y[mu]==md(x[mu]+sep[mu],Latt.dims[mu]),"separated site");
    get_vec_from_origin(z,k,DIR); long long r=0; for(int mu=0;mu<DIR;mu++){ int L=Latt.dims[mu]; VB_CHECK(md(z[mu]-x[mu],L)==0,"vector from the origin"); VB_CHECK(2*z[mu]<=L&&2*z[mu]>=-L,"shortest vector"); r+=(long long)z[mu]*z[mu]; } VB_CHECK(compute_rsq(k,DIR)==(size_t)r,"squared distance"); }
#elif PART==4
  static struct site lat[D0*D1*D2*D3]; init_navig(lat); int d=(int)vb_int(0,ND-1); get_mom_2piBZ(x,i,ND);
  size_t f=lat[i].neighbor[d],b=lat[i].back[d]; VB_CHECK(f<V&&b<V,"neighbour in range"); for(int mu=0;mu<ND;mu++){ y[mu]=mu==d?md(x[mu]+1,Latt.dims[mu]):x[mu]; z[mu]=mu==d?md(x[mu]-1,Latt.dims[mu]):x[mu]; } VB_CHECK(f==lex(y),"neighbour table forward"); VB_CHECK(b==lex(z),"neighbour table backward");
#endif
  VB_REACH();
}
