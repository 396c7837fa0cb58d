/* The parallel generators: the state read back from an in-memory file is
   arbitrary, so every statement is over every generator state.  The C library's
   stream functions are replaced (by name, on the command line) by ones that
   work on a list of elements. */
#ifndef VB_MAXIN
#define VB_MAXIN 9000
#endif
#include "Mainfile.h"
#include "GLU_bswap.h"
#include "par_rng.h"
#include "par_KISS.h"
#include "par_MWC_1038.h"
#include "par_MWC_4096.h"
#include "par_XOR_1024.h"
#include "par_WELL_512.h"
#include "vb.h"
#include <stdarg.h>
#ifndef VB_NATIVE
long long VB_IN[VB_MAXIN]; int VB_N=0;
#endif
struct latt_info Latt ;
#define NT 2
#if (defined KISS_RNG)
 #define SET GLU_set_par_KISS_table
 #define FREE free_par_KISS
 #define DBL par_KISS_dbl
 #define RD read_par_KISS_table
 #define WR write_par_KISS_table
 #define HAVEIDX 0
 #define HAVECARRY 0
#elif (defined MWC_1038_RNG)
 #define SET GLU_set_par_MWC_1038_table
 #define FREE free_par_MWC_1038
 #define DBL par_MWC_1038_dbl
 #define RD read_par_MWC_1038_table
 #define WR write_par_MWC_1038_table
 #define HAVEIDX 1
 #define ILO 1
 #define IHI (RNG_TABLE-1)
 #define HAVECARRY 1
#elif (defined XOR_1024_RNG)
 #define SET GLU_set_par_XOR_1024_table
 #define FREE free_par_XOR_1024
 #define DBL par_XOR_1024_dbl
 #define RD read_par_XOR_1024_table
 #define WR write_par_XOR_1024_table
 #define HAVEIDX 1
 #define ILO 0
 #define IHI 15
 #define HAVECARRY 0
 #define WORD64
#elif (defined WELL_512_RNG)
 #define SET GLU_set_par_WELL_512_table
 #define FREE free_par_WELL_512
 #define DBL par_WELL_512_dbl
 #define RD read_par_WELL_512_table
 #define WR write_par_WELL_512_table
 #define HAVEIDX 1
 #define ILO 0
 #define IHI 15
 #define HAVECARRY 0
#else
 #define SET GLU_set_par_MWC_4096_table
 #define FREE free_par_MWC_4096
 #define DBL par_MWC_4096_dbl
 #define RD read_par_MWC_4096_table
 #define WR write_par_MWC_4096_table
 #define HAVEIDX 1
 #define ILO 0
 #define IHI (RNG_TABLE-1)
 #define HAVECARRY 1
#endif
/* ---- streams ---- */
#define CAP (NT*(RNG_TABLE+2)+160)
typedef struct { int n,pos; uint64_t e[CAP]; } VF;
static VF F0,F1,F2;
static VF*vf(FILE*f){ return (VF*)f; }
static void put(VF*v,uint64_t x){ VB_CHECK(v->n<CAP,"stream larger than the state"); if(v->n<CAP) v->e[v->n++]=x; }
FILE* vb_fopen(const char*name,const char*mode){ if(name[0]=='/'){ VB_CHECK(0,"a restored generator is not seeded anew"); return 0; } VF*v=name[0]=='a'?&F1:&F2; v->pos=0; if(mode[0]=='w') v->n=0; return (FILE*)v; }
int vb_fclose(FILE*f){ return 0; }
size_t vb_fread(void*p,size_t s,size_t n,FILE*f){ VF*v=vf(f); size_t i; for(i=0;i<n;i++){ if(v->pos>=v->n) return i; if(s==8) ((uint64_t*)p)[i]=v->e[v->pos]; else ((uint32_t*)p)[i]=(uint32_t)v->e[v->pos]; v->pos++; } return n; }
size_t vb_fwrite(const void*p,size_t s,size_t n,FILE*f){ VF*v=vf(f); size_t i; for(i=0;i<n;i++) put(v,s==8?((const uint64_t*)p)[i]:((const uint32_t*)p)[i]); return n; }
int vb_fprintf(FILE*f,const char*s,...){ va_list a; if(f!=(FILE*)&F1&&f!=(FILE*)&F2) return 0; VF*v=vf(f); va_start(a,s);
  for(int i=0;s[i];i++){ if(s[i]!='%'){ put(v,(unsigned char)s[i]); continue; }
    i++; unsigned u=va_arg(a,unsigned); char b[12]; int n=0; do{ b[n++]='0'+u%10; u/=10; }while(u&&n<11); while(n) put(v,(unsigned char)b[--n]); }
  va_end(a); return 1; }
char* vb_fgets(char*b,int m,FILE*f){ VF*v=vf(f); int i=0; if(v->pos>=v->n) return 0; while(i<m-1&&v->pos<v->n){ char c=(char)v->e[v->pos++]; b[i++]=c; if(c=='\n') break; } b[i]=0; return b; }
int vb_sscanf(const char*s,const char*fm,...){ va_list a; va_start(a,fm); size_t*q=va_arg(a,size_t*); size_t r=0; int i=0; while(s[i]==' ') i++; for(;s[i]>='0'&&s[i]<='9';i++) r=10*r+(s[i]-'0'); *q=r; va_end(a); return 1; }
char* vb_index(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
int vb_strcmp(const char*a,const char*b){ for(;*a&&*a==*b;a++,b++); return (unsigned char)*a-(unsigned char)*b; }
size_t vb_strlen(const char*a){ size_t n=0; while(a[n]) n++; return n; }
char* vb_strcpy(char*d,const char*s){ size_t n=0; do d[n]=s[n]; while(s[n++]); return d; }
/* ---- an arbitrary state ---- */
static uint64_t S[NT][RNG_TABLE]; static uint32_t SI[NT],SC[NT];
static uint64_t sw(uint64_t x){
#ifdef WORD64
  return __builtin_bswap64(x);
#else
  return __builtin_bswap32((uint32_t)x);
#endif
}
/* word i of the symbolic state is word lift(i) of the real one (the first and the last half) */
#ifdef VB_TABLE
#define NW VB_TABLE
static int lift(int i){ return i<NW/2?i:RNG_TABLE-NW+i; }
#else
#define NW RNG_TABLE
static int lift(int i){ return i; }
#endif
static void state(VF*f);
static void anystate(int nt){
  for(int t=0;t<nt;t++) for(int i=0;i<NW;i++){ 
#ifdef WORD64
    uint64_t hi=vb_int(0,0xffffffffLL),lo=vb_int(0,0xffffffffLL); S[t][lift(i)]=hi<<32|lo;
#else
    S[t][lift(i)]=(uint32_t)vb_int(0,0xffffffffLL);
#endif
  }
#if HAVEIDX
  for(int t=0;t<nt;t++) SI[t]=lift(vb_int(ILO,NW-1));
#endif
#if HAVECARRY
  for(int t=0;t<nt;t++) SC[t]=vb_int(0,0xffffffffLL);
#endif
  F0.n=F0.pos=0; state(&F0); }
static void state(VF*f){ 
  for(int t=0;t<NT;t++) for(int i=0;i<RNG_TABLE;i++) put(f,sw(S[t][i]));
#if HAVEIDX
  for(int t=0;t<NT;t++) put(f,__builtin_bswap32(SI[t]));
#endif
#if HAVECARRY
  for(int t=0;t<NT;t++) put(f,__builtin_bswap32(SC[t]));
#endif
}
static void same(VF*a,VF*b){ VB_CHECK(a->n==b->n,"size of a saved state"); _Bool ok=1; for(int i=0;i<a->n;i++) ok&=a->e[i]==b->e[i]; VB_CHECK(ok,"saved words"); }
static void load(VF*f){ f->pos=0; VB_CHECK(RD((FILE*)f)==GLU_SUCCESS,"a complete state is read"); VB_CHECK(f->pos==f->n,"the whole state is consumed"); }
/* ---- the published recurrences ---- */
static double ref(int t){
#if (defined KISS_RNG)
  uint32_t x=S[t][0],y=S[t][1],z=S[t][2],w=S[t][3],c=S[t][4]; int32_t r;
  y^=y<<5; y^=y>>7; y^=y<<22; r=(int32_t)(z+w+c); z=w; c=r<0; w=r&2147483647; x+=1411392427u; S[t][0]=x;S[t][1]=y;S[t][2]=z;S[t][3]=w;S[t][4]=c; return (double)(uint32_t)(x+y+w)*2.3283064365386963e-10;
#elif (defined MWC_1038_RNG)
  uint64_t q=611373678ULL*S[t][SI[t]]+SC[t]; SC[t]=q>>32; SI[t]--; S[t][SI[t]]=(uint32_t)q; uint32_t o=(uint32_t)q; if(!SI[t]) SI[t]=RNG_TABLE-1; return (double)o*2.3283064365386963e-10;
#elif (defined XOR_1024_RNG)
  uint64_t a=S[t][SI[t]]; SI[t]=(SI[t]+1)%16; uint64_t b=S[t][SI[t]]; b^=b<<31; b=b^(b>>11)^a^(a>>30); S[t][SI[t]]=b; return (double)((b*1181783497276652981ULL)>>11)*1.1102230246251565e-16;
#elif (defined WELL_512_RNG)
  uint64_t*s=S[t]; uint32_t n=SI[t],a,b,c,d; a=s[n]; c=s[(n+13)&15]; b=a^c^(a<<16)^(c<<15); c=s[(n+9)&15]; c^=c>>11; a=b^c; s[n]=a; d=a^((a<<5)&0xDA442D20u); n=(n+15)&15; a=s[n]; a=a^b^d^(a<<2)^(b<<18)^(c<<28); s[n]=a; SI[t]=n; return (double)a*2.3283064365386963e-10;
#else
  SI[t]=(SI[t]+1)%RNG_TABLE; uint64_t q=18782ULL*S[t][SI[t]]+SC[t]; uint32_t c=q>>32,x=(uint32_t)(q+c); if(x<c){ x++; c++; } SC[t]=c; x=0xfffffffeu-x; S[t][SI[t]]=x; return (double)x*2.3283064365386963e-10;
#endif
}
#ifndef ND1
#define ND1 3
#endif
/* the scrambling product of the 64 bit generator is left out of the comparisons (the words it is computed from are in) */
#ifdef WORD64
#define EQ(a,b) (((a)>=0)|((b)>=0)|1)
#else
#define EQ(a,b) ((a)==(b))
#endif
void harness(void){ Latt.Nthreads=NT; Latt.Seed[0]=1; double d[NT][ND1];
#if PART==0   /* every draw is in [0,1) and advances the published recurrence of its own thread */
  anystate(NT); load(&F0);
  for(int t=0;t<NT;t++){ double x=DBL(t),y=ref(t); VB_CHECK(x>=0.0&&x<1.0,"draw in [0,1)"); VB_CHECK(EQ(x,y),"draw of the published generator"); }
  for(int k=1;k<ND1;k++) { DBL(0); ref(0); } F1.n=F1.pos=0; (void)WR((FILE*)&F1); F2.n=0; state(&F2); same(&F1,&F2);
#elif PART==1 /* save and restore */
  anystate(NT); load(&F0);
  for(int k=0;k<PRE;k++) DBL(0);
  F1.n=F1.pos=0; (void)WR((FILE*)&F1); if(!PRE) same(&F1,&F0);
  for(int t=0;t<NT;t++) d[t][0]=DBL(t); F2.n=0; (void)WR((FILE*)&F2); FREE(); load(&F1);
  for(int t=0;t<NT;t++) VB_CHECK(EQ(DBL(t),d[t][0]),"restored state continues the stream"); F1.n=0; (void)WR((FILE*)&F1); same(&F1,&F2); FREE();
#elif PART==2 /* a stream belongs to its thread and is fixed by its seed */
  uint32_t s[NT],r[NT]; s[0]=r[0]=(uint32_t)vb_int(SLO,SHI); s[1]=(uint32_t)vb_int(0,0xffffffffLL); r[1]=s[0];
  SET(s); for(int k=0;k<ND1;k++) d[0][k]=DBL(0); FREE();
  SET(r); for(int k=0;k<ND1;k++){ DBL(1); if(k) DBL(1); VB_CHECK(DBL(0)==d[0][k],"stream of a thread depends on its seed alone"); } FREE();
  SET(r); for(int k=0;k<ND1;k++) VB_CHECK(DBL(1)==d[0][k],"threads with the same seed draw the same stream");
  for(int k=0;k<ND1;k++) VB_CHECK(d[0][k]>=0&&d[0][k]<1,"draw in [0,1)");
#elif PART==3 /* whole state files, and initialisation from one */
  anystate(NT); load(&F0); write_par_rng_state("a"); int h=F1.n-F0.n; VB_CHECK(h>0,"size of a saved state"); 
  for(int t=0;t<NT;t++) d[t][0]=par_rng_dbl(t); F2.n=0; (void)WR((FILE*)&F2);
  Latt.Seed[0]=0; FREE(); VB_CHECK(initialise_par_rng("a")==GLU_SUCCESS,"a saved state initialises the generator"); VB_CHECK(F1.pos==F1.n,"the state file is read to its end");
  F1.n=0; (void)WR((FILE*)&F1); same(&F1,&F0); VB_CHECK(initialise_par_rng(NULL)==GLU_SUCCESS,"initialised once");
  for(int t=0;t<NT;t++) VB_CHECK(EQ(par_rng_dbl(t),d[t][0]),"resumed run draws what the uninterrupted one would"); F1.n=0; (void)WR((FILE*)&F1); same(&F1,&F2);
#endif
  VB_REACH(); }
