/* exponential of hermitian matrices, logarithm of special unitary ones */
#include "lat.h"
#include "expMat.h"
#include "exactQ.h"
#include "effs.h"
#include "vandermonde.h"
static void herm_full(cplx*Q,const cplx*s){ size_t k=0; double tr=0; for(int i=0;i<NC-1;i++){ for(int j=i;j<NC;j++,k++){ if(i==j){ Q[i*NC+i]=sx_mkc(RE(s[k]),0); tr=tr+RE(s[k]); } else { Q[i*NC+j]=s[k]; Q[j*NC+i]=c_conj(s[k]); } } } Q[NCNC-1]=sx_mkc(0-tr,0); }
#if NC==3
/* reference: U = f0+f1 Q+f2 Q^2, eigenvalues 2u, -u+w, -u-w (Cayley-Hamilton) */
static void refexp(cplx*U,const cplx*Q){
  cplx Q2[NCNC],Q3[NCNC]; m_mul(Q2,Q,Q); m_mul(Q3,Q2,Q); double c1=RE(m_tr(Q2))/6,c0=RE(m_tr(Q3))/3; 
  double fl=c0<0?-1:1; double r=sqrt(c1); double th=acos(fl*c0/(2*r*c1))/3; 
  double u=fl*r*cos(th),w=sqrt(3.)*r*sin(th);
  sx_assume_le(0.06,sqrt(3.)*r*sin(th));
  /* Lagrange interpolation of exp(i x) in the three eigenvalues, symmetrised in +-w */
  double cu=cos(r*cos(th)),su=fl*sin(r*cos(th)),cw=cos(w),e=sin(w)/w; cplx m1=sx_mkc(cu,0-su),p2=c_mul(sx_mkc(cu,su),sx_mkc(cu,su)); double uu=u*u,ww=w*w,d=1/(9*uu-ww);
  cplx h0=c_add(c_scale(uu-ww,p2),c_mul(m1,sx_mkc(8*uu*cw,2*u*(3*uu+ww)*e)));
  cplx h1=c_sub(c_scale(2*u,p2),c_mul(m1,sx_mkc(2*u*cw,0-(3*uu-ww)*e)));
  cplx h2=c_sub(p2,c_mul(m1,sx_mkc(cw,3*u*e)));
  h0=c_scale(d,h0); h1=c_scale(d,h1); h2=c_scale(d,h2);
  for(int i=0;i<NC;i++)for(int j=0;j<NC;j++){ cplx t=c_add(c_mul(h1,Q[i*NC+j]),c_mul(h2,Q2[i*NC+j])); if(i==j) t=c_add(t,h0); U[i*NC+j]=t; } }
#endif
#ifdef WRAP_EV
/* eigenvalues given by the harness in place of the closed-form cubic (whose own obligations are outside) */
static double complex EV[NC];
void Eigenvalues_suNC(double complex z[NC],const GLU_complex U[NCNC]){ (void)U; for(int i=0;i<NC;i++) z[i]=EV[i]; }
void Eigenvalues(double complex z[NC],const GLU_complex*U){ Eigenvalues_suNC(z,U); }
void Eigenvalues_hermitian(double z[NC],const GLU_complex U[NCNC]){ (void)z; (void)U; }
static void log3(void){ double u=sx_var_range("u",-1.4,1.4),w=sx_var_range("w",0.1,1.6); double cu=cos(u),su=sin(u),cw=cos(w),sw=sin(w);
  double lam[3]={2*u,w-u,0-w-u}; cplx m=sx_mkc(cu,0-su),e[3]; e[0]=c_mul(c_conj(m),c_conj(m)); e[1]=c_mul(m,sx_mkc(cw,sw)); e[2]=c_mul(m,sx_mkc(cw,0-sw));
  for(int k=0;k<3;k++){ EV[k]=e[k]; sx_hint("atan2",IM(e[k]),RE(e[k]),lam[k]); } sx_assume_ne(9*u*u,w*w); sx_assume_ne(u,0);
  cplx P[3][NCNC],U[NCNC],R[NCNC],Q[NCNC],s[HERMSIZE]; for(int k=0;k<2;k++){ char t[20]; for(int i=0;i<3;i++)for(int j=i;j<3;j++){ sprintf(t,"P%d_%d%d",k,i,j); if(i==j) P[k][i*4]=sx_mkc(i==2?1-RE(P[k][0])-RE(P[k][4]):sx_var(t),0); else { P[k][i*3+j]=sx_cvar(t); P[k][j*3+i]=c_conj(P[k][i*3+j]); } } }
  m_id(P[2]); m_sub(P[2],P[2],P[0]); m_sub(P[2],P[2],P[1]);
  for(int i=0;i<NCNC;i++){ cplx a=0,b=0; for(int k=0;k<3;k++){ a=c_add(a,c_mul(e[k],P[k][i])); b=c_add(b,c_scale(lam[k],P[k][i])); } U[i]=a; R[i]=b; }
  exact_log_slow(Q,U); m_prove_eq(Q,R,"log"); exact_log_slow_short(s,U); int k=0; for(int i=0;i<NC-1;i++)for(int j=i;j<NC;j++,k++){ char t[30]; sprintf(t,"packed log %d%d",i,j); sx_prove_ceq(s[k],R[i*NC+j],t); } }
#endif
int harness(int argc,char**argv){
  sx_sweep(1);
  int part=atoi(argv[1]); if(part==5){ double z[NC]; cplx f[NC],g[NC],h[NC]; for(int i=0;i<NC;i++){ char t[20]; sprintf(t,"z%d",i); z[i]=sx_var(t); sprintf(t,"f%d",i); f[i]=g[i]=h[i]=sx_cvar(t); for(int j=0;j<i;j++) sx_assume_ne(z[i],z[j]); }
    solvandermonde_new(z,g); solvandermonde(h,z); for(int i=0;i<NC;i++){ cplx a=0,b=0; for(int k=NC-1;k>=0;k--){ a=c_add(c_scale(z[i],a),g[k]); b=c_add(c_scale(z[i],b),h[k]); } char t[40]; sprintf(t,"vandermonde %d",i); sx_prove_ceq(a,f[i],t); sprintf(t,"vandermonde variant %d",i); sx_prove_ceq(b,f[i],t); } return 0; }
  int pat=argc>2?atoi(argv[2]):0; (void)pat;
#if NC==2
  double q0=sx_var("q0"); cplx q1=sx_cvar("q1"); cplx s[HERMSIZE]={sx_mkc(q0,0),q1},Q[NCNC],U[NCNC],W[NCNC],R[NCNC];
  if(part==0){ herm_full(Q,s); double z2=q0*q0+RE(q1)*RE(q1)+IM(q1)*IM(q1); sx_assume_le(0.01,z2); sx_assume_le(z2,30);
    exponentiate(U,Q); exponentiate_short(W,s); double z=sqrt(z2),c=cos(z),f=sin(z)/z;
    for(int i=0;i<NCNC;i++) R[i]=c_mul(sx_mkc(0,f),Q[i]); R[0]=c_add(R[0],sx_mkc(c,0)); R[3]=c_add(R[3],sx_mkc(c,0));
    m_prove_eq(U,R,"exp"); m_prove_eq(W,R,"exp of the packed form"); }
  if(part==1){ /* U=cos h + i sin h n.sigma, 0<h<pi : the logarithm is h n.sigma */
    double h=sx_var_range("h",0.01,3.1),n[4],x=sx_var("x"),y=sx_var("y"),d=1/(1+x*x+y*y),n0=(1-x*x-y*y)*d,nr=2*x*d,ni=2*y*d; double c=cos(h),sn=sin(h); (void)n;
    sx_hint("sqrt",1-c*c,0,sn); sx_hint("atan2",sn,c,h);
    cplx u0=sx_mkc(c,sn*n0),u1=c_mul(sx_mkc(0,sn),sx_mkc(nr,ni)); U[0]=u0; U[1]=u1; U[2]=sx_mkc(0-RE(u1),IM(u1)); U[3]=c_conj(u0);
    R[0]=sx_mkc(h*n0,0); R[1]=c_scale(h,sx_mkc(nr,ni)); R[2]=c_conj(R[1]); R[3]=sx_mkc(0-h*n0,0);
    exact_log_slow(Q,U); m_prove_eq(Q,R,"log"); exact_log_slow_short(s,U); sx_prove_ceq(s[0],R[0],"packed log 0"); sx_prove_ceq(s[1],R[1],"packed log 1"); }
#elif NC==3
#ifdef WRAP_EV
  if(part==3){ log3(); return 0; }
#endif
  cplx s[HERMSIZE],Q[NCNC],U[NCNC],W[NCNC],R[NCNC];
  if(part==0){ s[0]=sx_mkc(sx_var("d0"),0); s[3]=sx_mkc(sx_var("d1"),0); s[1]=sx_cvar("o1"); s[2]=sx_cvar("o2"); s[4]=sx_cvar("o5");
    if(pat&1) s[1]=sx_mkc(RE(s[1]),0); if(pat&2) s[2]=0; if(pat&4) s[4]=sx_mkc(RE(s[4]),0);
    herm_full(Q,s); { cplx t[NCNC]; m_mul(t,Q,Q); sx_assume_le(0.01,RE(m_tr(t))/6); } refexp(R,Q); exponentiate(U,Q); exponentiate_short(W,s); m_prove_eq(U,R,"exp"); m_prove_eq(W,R,"exp of the packed form"); }
  if(part==2){ for(int i=0;i<HERMSIZE;i++) s[i]=0; m_zero(Q); exponentiate(U,Q); exponentiate_short(W,s); m_id(R); m_prove_eq(U,R,"exp of zero"); m_prove_eq(W,R,"exp of zero, packed form"); }
#endif
  return 0; }
