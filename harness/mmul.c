/* the whole matrix-product family against the definition */
#include "lat.h"
static void general(void){
  cplx a[NCNC] GLUalign,b[NCNC] GLUalign,c[NCNC] GLUalign,r[NCNC],t1[NCNC],t2[NCNC];
  m_var(b,"b"); m_var(c,"c");
  multab(a,b,c); m_mul(r,b,c); m_prove_eq(a,r,"multab");
  m_copy(a,c); multab_atomic_left(a,b); m_prove_eq(a,r,"multab_atomic_left");
  m_copy(a,b); multab_atomic_right(a,c); m_prove_eq(a,r,"multab_atomic_right");
  multabdag(a,b,c); m_dag(t1,b); m_mul(r,t1,c); m_prove_eq(a,r,"multabdag");
  multab_dag(a,b,c); m_dag(t2,c); m_mul(r,b,t2); m_prove_eq(a,r,"multab_dag");
  multab_dagdag(a,b,c); m_mul(r,t1,t2); m_prove_eq(a,r,"multab_dagdag");
}
/* the tuned products: both factors special unitary.  b = E(q) F and c = G E(p)
   with q,p symbolic SU(2) elements embedded in the planes P1,P2 and F,G fixed */
static void tuned(int P1,int P2,int order){
  cplx a[NCNC] GLUalign,b[NCNC] GLUalign,c[NCNC] GLUalign,r[NCNC],t1[NCNC],t2[NCNC],m[NCNC]; double q[4]; int A[3][2]={{0,1},{0,NC-1},{NC>2?1:0,NC>2?2:1}};
  double f[4]={0.5,0.5,-0.5,0.5},g[4]={0.6,0,0.8,0}; m_id(b); m_id(c);
  for(int i=0;i<3;i++){ su2_embed(m,i&1?f:g,A[i][0],A[i][1]); m_mul(b,b,m); su2_embed(m,i&1?g:f,A[2-i][0],A[2-i][1]); m_mul(c,c,m); }
  su2_var(q,"q"); su2_embed(m,q,A[P1][0],A[P1][1]); if(order&1) m_mul(b,m,b); else m_mul(b,b,m);
  su2_var(q,"p"); su2_embed(m,q,A[P2][0],A[P2][1]); if(order&2) m_mul(c,m,c); else m_mul(c,c,m);
  m_dag(t1,b); m_dag(t2,c);
  multab_suNC(a,b,c); m_mul(r,b,c); m_prove_eq(a,r,"multab_suNC");
  multabdag_suNC(a,b,c); m_mul(r,t1,c); m_prove_eq(a,r,"multabdag_suNC");
  multab_dag_suNC(a,b,c); m_mul(r,b,t2); m_prove_eq(a,r,"multab_dag_suNC");
  multab_dagdag_suNC(a,b,c); m_mul(r,t1,t2); m_prove_eq(a,r,"multab_dagdag_suNC");
}
int harness(int argc,char**argv){ if(argc<2) general(); else tuned(atoi(argv[1]),atoi(argv[2]),atoi(argv[3])); return 0; }
