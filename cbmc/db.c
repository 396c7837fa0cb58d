/* draughtboard.c: dimensions fixed per job; colours, positions, directions symbolic */
#include "Mainfile.h"
#include "geometry.h"
#include "draughtboard.h"
#include "vb.h"
#ifndef VB_NATIVE
long long VB_IN[VB_MAXIN]; int VB_N=0;
#endif
struct latt_info Latt ;
#ifndef VDIR
#define VDIR ND
#endif
void harness(void){
  Latt.dims[0]=D0; Latt.dims[1]=D1; Latt.dims[2]=D2;
#if ND>3
  Latt.dims[3]=D3;
#endif
  size_t V=1; for(int mu=0;mu<VDIR;mu++) V*=Latt.dims[mu]; Latt.Volume=V;
  struct draughtboard db; int rc=init_cb(&db,V,VDIR); VB_CHECK(rc==GLU_SUCCESS,"initialises");
  size_t tot=0; for(size_t c=0;c<db.Ncolors;c++) tot+=db.Nsquare[c]; VB_CHECK(tot==V,"colour sizes add to the lattice");
  size_t c=vb_int(0,2),k=vb_int(0,V-1),c2=vb_int(0,2),k2=vb_int(0,V-1); int d=(int)vb_int(0,VDIR-1);
  VB_ASSUME(c<db.Ncolors&&c2<db.Ncolors); VB_ASSUME(k<db.Nsquare[c]&&k2<db.Nsquare[c2]);
  size_t s=db.square[c][k],t=db.square[c2][k2]; VB_CHECK(s<V,"site in range"); VB_CHECK((c==c2&&k==k2)||s!=t,"no site twice");
  int x[ND],y[ND]; get_mom_2piBZ(x,s,VDIR); get_mom_2piBZ(y,t,VDIR); /* t the forward neighbour of s in direction d */
  int nb=1; for(int mu=0;mu<VDIR;mu++){ int L=Latt.dims[mu]; if(y[mu]!=(mu==d?(x[mu]+1)%L:x[mu])) nb=0; }
  VB_CHECK(!(nb&&c==c2),"neighbours have different colours");
  VB_REACH();
}
