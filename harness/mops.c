/* P04: matrix utilities against reference definitions.
   argv[1] selects the section, argv[2] an index inside it */
#include "lat.h"
#include "MMUL.h"
#include "MMUL_SUNC.h"
#include "U_Nops.h"
#include "trace_abc.h"
#include "invert.h"
#include "gramschmidt.h"
#include "LU.h"
#include "exactQ.h"
static void rmk(cplx*a,int seed){ unsigned s=seed*2654435761u+12345; for(int i=0;i<NCNC;i++){ s=s*1664525u+1013904223u; double r=((int)((s>>16)%17)-8)/4.; s=s*1664525u+1013904223u; double im=((int)((s>>16)%17)-8)/4.; a[i]=sx_mkc(r,im); } }
static void herm_var(cplx*a,const char*n){ char t[64]; cplx s=0; for(int i=0;i<NC;i++) for(int j=i;j<NC;j++){ if(i==j){ if(i<NC-1){ snprintf(t,64,"%s_d%d",n,i); a[i*(NC+1)]=sx_mkc(sx_var(t),0); s=c_add(s,a[i*(NC+1)]); } else a[i*(NC+1)]=c_scale(-1,s); } else { snprintf(t,64,"%s_%d%d",n,i,j); a[i*NC+j]=sx_cvar(t); a[j*NC+i]=c_conj(a[i*NC+j]); } } }
static void hermtr_var(cplx*a,const char*n){ char t[64]; for(int i=0;i<NC;i++) for(int j=i;j<NC;j++){ if(i==j){ snprintf(t,64,"%s_d%d",n,i); a[i*(NC+1)]=sx_mkc(sx_var(t),0); } else { snprintf(t,64,"%s_%d%d",n,i,j); a[i*NC+j]=sx_cvar(t); a[j*NC+i]=c_conj(a[i*NC+j]); } } }
static void packref(cplx*h,const cplx*m){ int k=0; for(int i=0;i<NC-1;i++) for(int j=i;j<NC;j++) h[k++]=m[i*NC+j]; }
#define HEQ(x,y,l) for(int i_=0;i_<HERMSIZE;i_++){ char t_[80]; snprintf(t_,80,"%s[%d]",l,i_); sx_prove_ceq((x)[i_],(y)[i_],t_); }
static void lin(void){
  cplx a[NCNC] GLUalign,b[NCNC] GLUalign,c[NCNC] GLUalign,r[NCNC] GLUalign,e[NCNC] GLUalign; m_var(a,"a"); m_var(b,"b"); m_var(c,"c"); cplx S=sx_cvar("S"); double s=sx_var("s");
  m_copy(r,a); add_constant(r,S); m_copy(e,a); for(int i=0;i<NC;i++) e[i*(NC+1)]=c_add(e[i*(NC+1)],S); m_prove_eq(r,e,"add_constant");
  m_copy(r,a); a_plus_b(r,b); m_add(e,a,b); m_prove_eq(r,e,"a_plus_b");
  m_copy(r,a); a_plus_CSxb(r,b,S); for(int i=0;i<NCNC;i++) e[i]=c_add(a[i],c_mul(S,b[i])); m_prove_eq(r,e,"a_plus_CSxb");
  m_copy(r,a); a_plus_Sxb(r,b,s); for(int i=0;i<NCNC;i++) e[i]=c_add(a[i],c_scale(s,b[i])); m_prove_eq(r,e,"a_plus_Sxb");
  b_min_c(r,b,c); m_sub(e,b,c); m_prove_eq(r,e,"b_min_c");
  { cplx h[NCNC] GLUalign,B[NCNC] GLUalign,C[NCNC] GLUalign,x[NCNC]; packref(h,a); packref(B,b); packref(C,c); for(int i=0;i<HERMSIZE;i++) x[i]=c_add(h[i],c_scale(s,c_sub(B[i],C[i]))); a_plus_Sxbminc_short(h,s,B,C); HEQ(h,x,"a_plus_Sxbminc_short"); }
  equiv(r,a); m_prove_eq(r,a,"equiv"); dagger(r,a); m_dag(e,a); m_prove_eq(r,e,"dagger");
  transpose(r,a); for(int i=0;i<NC;i++)for(int j=0;j<NC;j++) e[i*NC+j]=a[j*NC+i]; m_prove_eq(r,e,"transpose");
  m_copy(r,a); diag(r,S); m_zero(e); for(int i=0;i<NC;i++) e[i*(NC+1)]=S; m_prove_eq(r,e,"diag");
  { cplx d[NC]; for(int i=0;i<NC;i++) d[i]=b[i]; m_copy(r,a); diag_vect(r,d); m_zero(e); for(int i=0;i<NC;i++) e[i*(NC+1)]=d[i]; m_prove_eq(r,e,"diag_vect"); }
  m_copy(r,a); identity(r); m_id(e); m_prove_eq(r,e,"identity"); m_copy(r,a); zero_mat(r); m_zero(e); m_prove_eq(r,e,"zero_mat");
  { cplx v[NC],w[NC],x[NC]; for(int i=0;i<NC;i++) v[i]=b[i]; mat_mult_vec(w,a,v); for(int i=0;i<NC;i++){ x[i]=0; for(int j=0;j<NC;j++) x[i]=c_add(x[i],c_mul(a[i*NC+j],v[j])); char t[40]; snprintf(t,40,"mat_mult_vec[%d]",i); sx_prove_ceq(w[i],x[i],t);} 
    outerproduct(r,v,x); for(int i=0;i<NC;i++)for(int j=0;j<NC;j++) e[i*NC+j]=c_mul(v[i],c_conj(x[j])); m_prove_eq(r,e,"outerproduct"); }
  m_copy(r,a); M_times_c(r,S); for(int i=0;i<NCNC;i++) e[i]=c_mul(S,a[i]); m_prove_eq(r,e,"M_times_c");
}
static void tra(void){
  cplx a[NCNC] GLUalign,b[NCNC] GLUalign,c[NCNC] GLUalign,r[NCNC] GLUalign,e[NCNC] GLUalign; m_var(a,"a"); m_var(b,"b"); m_var(c,"c"); cplx t; double d; GLU_real g;
  t=0; speed_trace(&t,a); sx_prove_ceq(t,m_tr(a),"speed_trace"); sx_prove_ceq(trace(a),m_tr(a),"trace"); speed_trace_Re(&d,a); sx_prove_eq(d,RE(m_tr(a)),"speed_trace_Re");
  m_mul(e,a,b); trace_ab(&t,a,b); sx_prove_ceq(t,m_tr(e),"trace_ab"); m_dag(r,b); m_mul(e,a,r); trace_ab_dag(&t,a,b); sx_prove_ceq(t,m_tr(e),"trace_ab_dag"); trace_ab_dag_Re(&g,a,b); sx_prove_eq(g,RE(m_tr(e)),"trace_ab_dag_Re");
  m_mul(e,a,b); m_mul(e,e,c); trace_abc(&t,a,b,c); sx_prove_ceq(t,m_tr(e),"trace_abc"); m_dag(r,c); m_mul(e,a,b); m_mul(e,e,r); trace_abc_dag(&t,a,b,c); sx_prove_ceq(t,m_tr(e),"trace_abc_dag"); trace_abc_dag_Re(&g,a,b,c); sx_prove_eq(g,RE(m_tr(e)),"trace_abc_dag_Re");
  cplx h[NCNC] GLUalign,k[NCNC] GLUalign,hs[NCNC] GLUalign,ks[NCNC] GLUalign;
  herm_var(h,"h"); herm_var(k,"k"); m_mul(e,h,k); trace_ab_herm(&g,h,k); sx_prove_eq(g,RE(m_tr(e)),"trace_ab_herm(traceless)"); packref(hs,h); packref(ks,k); trace_ab_herm_short(&g,hs,ks); sx_prove_eq(g,RE(m_tr(e)),"trace_ab_herm_short");
  m_mul(e,h,h); trace_prod_herm(&g,h); sx_prove_eq(g,RE(m_tr(e)),"trace_prod_herm(traceless)");
#if NC>2
  hermtr_var(h,"H"); hermtr_var(k,"K"); m_mul(e,h,k); trace_ab_herm(&g,h,k); sx_prove_eq(g,RE(m_tr(e)),"trace_ab_herm"); m_mul(e,h,h); trace_prod_herm(&g,h); sx_prove_eq(g,RE(m_tr(e)),"trace_prod_herm");
#endif
}
static void packs(void){
  cplx h[NCNC] GLUalign,p[NCNC] GLUalign,x[NCNC],r[NCNC] GLUalign,e[NCNC];
  herm_var(h,"h"); packref(x,h); pack_hermitian(p,h); HEQ(p,x,"pack_hermitian"); rebuild_hermitian(r,p); m_prove_eq(r,h,"rebuild_hermitian");
  for(int i=0;i<NCNC;i++) e[i]=sx_mkc(-IM(h[i]),RE(h[i])); packref(x,e); rebuild_antihermitian(r,x); m_prove_eq(r,e,"rebuild_antihermitian");
}
static void proj(void){
  cplx u[NCNC] GLUalign,q[NCNC] GLUalign,ah[NCNC],tl[NCNC],hm[NCNC],x[NCNC],d[NCNC];
#if NC==2   /* the two-colour specialisations are stated for U in SU(2) */
  { double a=sx_var("a0"),b=sx_var("a3"),c=sx_var("a1"),e=sx_var("a2"); u[0]=sx_mkc(a,b); u[1]=sx_mkc(e,c); u[2]=sx_mkc(-e,c); u[3]=sx_mkc(a,-b); }
#else
  m_var(u,"u");
#endif
  m_dag(d,u); m_sub(ah,u,d); m_scale(ah,0.5,ah); cplx t=m_tr(ah); m_copy(tl,ah); for(int i=0;i<NC;i++) tl[i*(NC+1)]=sx_mkc(RE(ah[i*(NC+1)])-RE(t)/NC,IM(ah[i*(NC+1)])-IM(t)/NC);
  for(int i=0;i<NCNC;i++) hm[i]=sx_mkc(IM(tl[i]),-RE(tl[i]));
  AntiHermitian_proj(q,u); m_prove_eq(q,ah,"AntiHermitian_proj"); trf_AntiHermitian_proj(q,u); m_prove_eq(q,tl,"trf_AntiHermitian_proj"); packref(x,tl); AntiHermitian_proj_short(q,u); HEQ(q,x,"AntiHermitian_proj_short");
  Hermitian_proj(q,u); m_prove_eq(q,hm,"Hermitian_proj"); packref(x,hm); Hermitian_proj_short(q,u); HEQ(q,x,"Hermitian_proj_short");
}
static void power(int n){ cplx a[NCNC] GLUalign,r[NCNC] GLUalign,e[NCNC]; 
  /* symbolic entries on a band: the polynomial identity has bounded degree */
  rmk(a,3); a[0]=sx_cvar("a0"); a[1]=sx_cvar("a1"); if(n<7) a[NC]=sx_cvar("aN"); else if(n>7) a[1]=sx_mkc(sx_var("a1r"),1);
  matrix_power(r,a,n); m_id(e); for(int i=0;i<n;i++) m_mul(e,e,a); char t[40]; snprintf(t,40,"matrix_power(%d)",n); m_prove_eq(r,e,t); }
/* general matrices with the entries of row i and column j symbolic, the others fixed rationals */
static void spmat(cplx*a,int mode,int seed){ if(mode>=100){ /* generalised permutation matrices: elimination must exchange rows at every step */
    int k=mode-100; m_zero(a); for(int i=0;i<NC;i++){ int j=k<NC?(i+k)%NC:(2*NC-1-i+k)%NC; double v=(i==0)?sx_var_range("s",0.25,2):(i&1?1:-2); a[i*NC+j]=(i&1)?sx_mkc(0,v):sx_mkc(v,0); } a[(NC-1)*NC+(k+1)%NC]=c_add(a[(NC-1)*NC+(k+1)%NC],sx_mkc(seed&1?sx_var("t"):0.5,0)); return; }
  rmk(a,seed); if(mode<0){ m_var(a,"a"); return; } char t[32]; int i=mode/NC,j=mode%NC; snprintf(t,32,"p%d",mode); a[i*NC+j]=(NC<=3||seed>=1000)?sx_cvar(t):sx_mkc(sx_var(t),IM(a[i*NC+j])); int i2=(i+1)%NC,j2=(j+2)%NC; if(seed&1){ snprintf(t,32,"p%d_b",mode); a[i2*NC+j2]=sx_mkc(sx_var(t),0);} if(seed%3==0){ a[0]=0; if(mode==0) a[1]=sx_cvar("p01"); } }
static void dets(int mode,int seed){ cplx a[NCNC] GLUalign,b[NCNC] GLUalign,e[NCNC] GLUalign; spmat(a,mode,seed); cplx D=m_det(a),t; 
  sx_prove_ceq(det(a),D,"det"); speed_det(&t,a); sx_prove_ceq(t,D,"speed_det"); }
static void cof(int mode,int seed){ cplx a[NCNC] GLUalign,b[NCNC] GLUalign,e[NCNC] GLUalign; spmat(a,mode,seed); cplx D=m_det(a); 
  cplx t=cofactor_transpose(b,a); sx_prove_ceq(t,D,"cofactor_transpose.det"); m_mul(e,a,b); cplx x[NCNC]; m_zero(x); for(int i=0;i<NC;i++) x[i*(NC+1)]=D; m_prove_eq(e,x,"a*adj(a)"); }
static void inv(int mode,int seed){ cplx a[NCNC] GLUalign,b[NCNC] GLUalign,e[NCNC] GLUalign,x[NCNC]; spmat(a,mode,seed); cplx D=m_det(a); double n=RE(D)*RE(D)+IM(D)*IM(D); sx_assume_le(0.001,n); 
  int rc=inverse(b,a); sx_prove_true(rc==GLU_SUCCESS,"inverse.rc"); m_mul(e,a,b); m_id(x); m_prove_eq(e,x,"a*inverse(a)"); }
static void gram(int mode,int seed){ cplx a[NCNC] GLUalign,d[NCNC],e[NCNC],x[NCNC],o[NCNC];
#if NC<=3
  spmat(a,mode,seed);
#if NC==2
  a[2]=c_scale(-1,c_conj(a[1])); a[3]=c_conj(a[0]);
#endif
#else
  /* a fixed special unitary matrix, row k scaled and mixed with row j */
  cplx m[NCNC]; m_id(a); double f[4]={0.5,0.5,-0.5,0.5},g[4]={0.6,0,0.8,0}; int k=mode/NC,j=mode%NC;
  for(int i=0;i+1<NC;i++){ if(seed%3==1&&i%2) continue; su2_embed(m,(seed+i)%2?f:g,i,i+1); m_mul(a,a,m);} 
  m_copy(o,a); double s=sx_var_range("s",0.25,2); cplx z=(j==k)?0:sx_cvar("z"); if(seed%2) z=sx_mkc(RE(z),1); 
  for(int c=0;c<NC;c++) a[k*NC+c]=c_add(c_scale(s,o[k*NC+c]),c_mul(z,o[j*NC+c]));
#endif
  m_copy(o,a); gram_reunit(a); m_dag(d,a); m_mul(e,a,d); m_id(x); m_prove_eq(e,x,"U*Udag"); cplx D=m_det(a); sx_prove_ceq(D,1.0,"det U"); 
  /* the leading vector keeps its direction */ for(int q=1;q<NC;q++){ char t[40]; int i=NC<=3?q*NC:q; snprintf(t,40,"leading direction %d",q); sx_prove_ceq(c_mul(a[0],o[i]),c_mul(a[i],o[0]),t); } }
static void abcsu(int seed){ /* Re tr(a b c^dag) for a,b special unitary */
  cplx a[NCNC] GLUalign,b[NCNC] GLUalign,c[NCNC] GLUalign,e[NCNC],r[NCNC]; m_id(a); m_id(b); double q[4]; cplx m[NCNC];
  int p1=seed%3,p2=(seed/3)%3; int A[3][2]={{0,1},{0,NC-1},{NC>2?1:0,NC>2?2:1}};
  su2_var(q,"q"); su2_embed(m,q,A[p1][0],A[p1][1]); m_mul(a,a,m); 
  double f[4]={0.5,0.5,-0.5,0.5}; for(int i=0;i<3;i++){ su2_embed(m,f,A[i][0],A[i][1]); m_mul(a,a,m); m_mul(b,b,m);} su2_var(q,"p"); su2_embed(m,q,A[p2][0],A[p2][1]); m_mul(b,b,m); 
  m_var(c,"c");
#if NC==2
  c[2]=c_scale(-1,c_conj(c[1])); c[3]=c_conj(c[0]);   /* the two-colour routine is for staples, multiples of SU(2) */
#endif
  double t=Re_trace_abc_dag_suNC(a,b,c); m_mul(e,a,b); m_dag(r,c); m_mul(e,e,r); sx_prove_eq(t,RE(m_tr(e)),"Re_trace_abc_dag_suNC"); }
static void isu(void){ cplx a[NCNC] GLUalign; double q[4]; cplx m[NCNC]; m_id(a); su2_var(q,"q"); su2_embed(m,q,0,1); m_mul(a,a,m); double f[4]={0.5,0.5,-0.5,0.5}; for(int i=0;i+1<NC;i++){ su2_embed(m,f,i,i+1); m_mul(a,a,m);} sx_prove_true(is_unitary(a)==GLU_TRUE,"is_unitary accepts");
  double s=sx_var_range("s",0.01,3); cplx b[NCNC] GLUalign; int k=(NC>2)?NC+1:0; m_copy(b,a); b[k]=sx_mkc(RE(a[k])+s,IM(a[k])); /* perturb one entry */
  (void)b; }
int harness(int c,char**v){ int m=c>2?atoi(v[2]):0,s=c>3?atoi(v[3]):0; const char*w=v[1];
  if(!strcmp(w,"lin")) lin(); else if(!strcmp(w,"tra")) tra(); else if(!strcmp(w,"pack")) packs(); else if(!strcmp(w,"proj")) proj(); else if(!strcmp(w,"power")) power(m); else if(!strcmp(w,"det")) dets(m,s); else if(!strcmp(w,"cof")) cof(m,s); else if(!strcmp(w,"inv")) inv(m,s); else if(!strcmp(w,"gram")) gram(m,s); else if(!strcmp(w,"abcsu")) abcsu(m); else if(!strcmp(w,"isu")) isu(); else return 1;
  return 0; }
