// A deterministic OpenMP runtime for the symbolic build: T logical threads are
// coroutines scheduled one at a time between synchronisation points.  The
// order, and the iteration->thread map, are chosen by the harness.  When the
// build carries memory instrumentation, accesses of different threads inside
// one barrier interval are collected so that conflicts can be decided.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <vector>
#include <unordered_map>
#include <set>
#include <string>
#include <ucontext.h>
#include <algorithm>
#include <unistd.h>

struct Team;
struct Th { ucontext_t ctx; int tid; bool done,atbar; std::vector<char>*stk; int singleCount; };
static int g_T=1; static int g_order=0; static int g_map=0;
static Team*cur=nullptr; static int curTid=0,outTid=-1;
struct Team { int T; std::vector<Th> th; ucontext_t main; int phase; std::vector<int> singleOwner;
  // dynamic loops
  struct Dyn{ int64_t lb,ub,st,chunk; int64_t next; int left; }; std::vector<Dyn> dyn; std::vector<int> dynIdx;
  void*mt; void**args; int argc; };
extern "C" { void sx_mem_phase(int team_begin,int end); extern int sx_mem_on,sx_mem_lock; }
static std::vector<std::vector<char>*> stackPool;
extern "C" int sx_cur_thread(){ return outTid>=0?outTid:curTid; }
extern "C" void sx_omp_config(int T,int order,int map){ g_T=T; g_order=order; g_map=map; }
extern "C" int omp_get_thread_num(){ return cur?curTid:0; }
extern "C" int omp_get_num_threads(){ return cur?cur->T:1; }
extern "C" int omp_get_max_threads(){ return g_T; }
extern "C" void omp_set_num_threads(int n){ g_T=n; }
extern "C" void omp_set_dynamic(int){}
extern "C" int omp_get_num_procs(){ return g_T; }
extern "C" int omp_in_parallel(){ return cur!=0; }
extern "C" double omp_get_wtime(){ return 0; }
// acquiring a lock hands over to the other threads first: what was read before it may be stale afterwards
extern "C" { void omp_init_lock(void*){} void omp_destroy_lock(void*){} void omp_set_lock(void*); void omp_unset_lock(void*); }
typedef int32_t kint;
static void invoke(void*mt,kint*g,kint*b,int argc,void**a){
  typedef void(*F)(...);
  switch(argc){
#define P(...) ((void(*)(kint*,kint* __VA_ARGS__))mt)
  case 0: ((void(*)(kint*,kint*))mt)(g,b);break;
  case 1: ((void(*)(kint*,kint*,void*))mt)(g,b,a[0]);break;
  case 2: ((void(*)(kint*,kint*,void*,void*))mt)(g,b,a[0],a[1]);break;
  case 3: ((void(*)(kint*,kint*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2]);break;
  case 4: ((void(*)(kint*,kint*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3]);break;
  case 5: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4]);break;
  case 6: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5]);break;
  case 7: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6]);break;
  case 8: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]);break;
  case 9: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]);break;
  case 10: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]);break;
  case 11: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10]);break;
  case 12: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11]);break;
  case 13: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12]);break;
  case 14: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13]);break;
  case 15: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14]);break;
  case 16: ((void(*)(kint*,kint*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*))mt)(g,b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15]);break;
  default: fprintf(stderr,"SXOMP: too many captured variables\n"); _exit(4); }
}
static void entry(unsigned lo,unsigned hi){ Th*t=(Th*)(((uint64_t)hi<<32)|lo); kint g=t->tid,b=t->tid; invoke(cur->mt,&g,&b,cur->argc,cur->args); t->done=true; swapcontext(&t->ctx,&cur->main); }
static std::vector<int> order(int T,int phase){ std::vector<int> v(T); for(int i=0;i<T;i++) v[i]=i; if(g_order==1) std::reverse(v.begin(),v.end()); else if(g_order>1){ unsigned s=g_order*7919u+phase*104729u; for(int i=T-1;i>0;i--){ s=s*1664525u+1013904223u; std::swap(v[i],v[(s>>8)%(i+1)]); } } return v; }
extern "C" {
void __kmpc_fork_call(void*,kint argc,void*mt,...){
  va_list ap; va_start(ap,mt); std::vector<void*> a(argc); for(int i=0;i<argc;i++) a[i]=va_arg(ap,void*); va_end(ap);
  if(cur||g_T<=1){ kint g=curTid,b=0; if(!cur){ Team t; t.T=1; t.mt=mt;t.args=a.data();t.argc=argc;t.phase=0;t.dynIdx.assign(1,0); t.th.resize(1); t.th[0].singleCount=0; cur=&t; curTid=0; kint z=0; invoke(mt,&z,&b,argc,a.data()); cur=nullptr; } else { /* nested region: a team of one (the OpenMP default) */ Team*o=cur; int ot=curTid,on=outTid; if(outTid<0) outTid=ot; Team t; t.T=1; t.mt=mt;t.args=a.data();t.argc=argc;t.phase=0;t.dynIdx.assign(1,0); t.th.resize(1); t.th[0].singleCount=0; cur=&t; curTid=0; kint z=0; b=0; invoke(mt,&z,&b,argc,a.data()); cur=o; curTid=ot; outTid=on; } return; }
  Team t; t.T=g_T; t.mt=mt; t.args=a.data(); t.argc=argc; t.phase=0; t.th.resize(g_T); t.dynIdx.assign(g_T,0); cur=&t;
  for(int i=0;i<g_T;i++){ Th&h=t.th[i]; h.tid=i;h.done=false;h.atbar=false;h.singleCount=0; if(stackPool.empty()) h.stk=new std::vector<char>(8u<<20); else { h.stk=stackPool.back(); stackPool.pop_back(); }
    getcontext(&h.ctx); h.ctx.uc_stack.ss_sp=h.stk->data(); h.ctx.uc_stack.ss_size=h.stk->size(); h.ctx.uc_link=&t.main; uint64_t p=(uint64_t)&h; makecontext(&h.ctx,(void(*)())entry,2,(unsigned)p,(unsigned)(p>>32)); }
  if(sx_mem_on) sx_mem_phase(1,0);
  for(;;){ bool any=false; // run until every thread waits at a barrier or is done (a thread may also hand over between chunks of a dynamic loop)
    for(;;){ bool run=false; for(int i:order(g_T,t.phase)){ Th&h=t.th[i]; if(h.done||h.atbar) continue; any=run=true; curTid=i; swapcontext(&t.main,&h.ctx); } if(!run) break; }
    for(auto&h:t.th) h.atbar=false;
    t.phase++; if(sx_mem_on) sx_mem_phase(0,0); if(!any) break; }
  if(sx_mem_on) sx_mem_phase(0,1);
  for(auto&h:t.th) stackPool.push_back(h.stk);
  cur=nullptr; curTid=0;
}
void __kmpc_barrier(void*,kint){ if(!cur||cur->T<=1) return; Th&h=cur->th[curTid]; h.atbar=true; int me=curTid; swapcontext(&h.ctx,&cur->main); curTid=me; }
kint __kmpc_cancel_barrier(void*l,kint g){ __kmpc_barrier(l,g); return 0; }
kint __kmpc_global_thread_num(void*){ return cur?curTid:0; }
void __kmpc_push_num_threads(void*,kint,kint){}
void __kmpc_push_proc_bind(void*,kint,kint){}
void __kmpc_serialized_parallel(void*,kint){} void __kmpc_end_serialized_parallel(void*,kint){}
kint __kmpc_master(void*,kint g){ return curTid==0; } void __kmpc_end_master(void*,kint){}
kint __kmpc_masked(void*,kint,kint f){ return curTid==f; } void __kmpc_end_masked(void*,kint){}
kint __kmpc_single(void*,kint){ if(!cur) return 1; Th&h=cur->th[curTid]; int k=h.singleCount++; if((int)cur->singleOwner.size()<=k) cur->singleOwner.resize(k+1,-1); if(cur->singleOwner[k]<0){ cur->singleOwner[k]=curTid; return 1;} return 0; }
void __kmpc_end_single(void*,kint){}
void __kmpc_critical(void*,kint,void*){ omp_set_lock(0); } void __kmpc_end_critical(void*,kint,void*){ sx_mem_lock--; }
void __kmpc_critical_with_hint(void*,kint,void*,uint32_t){ omp_set_lock(0); }
void __kmpc_flush(void*){}
kint __kmpc_reduce(void*,kint,kint,size_t,void*,void(*)(void*,void*),void*){ if(sx_mem_on) sx_mem_on|=2; return 1; }
kint __kmpc_reduce_nowait(void*,kint,kint,size_t,void*,void(*)(void*,void*),void*){ if(sx_mem_on) sx_mem_on|=2; return 1; }
void __kmpc_end_reduce(void*l,kint g,void*){ if(sx_mem_on) sx_mem_on&=~2; __kmpc_barrier(l,g); } void __kmpc_end_reduce_nowait(void*,kint,void*){ if(sx_mem_on) sx_mem_on&=~2; }
#define SINIT(NAME,IT,UT) void NAME(void*,kint,kint sched,kint*last,IT*lb,IT*ub,IT*st,IT incr,IT chunk){ int T=cur?cur->T:1,t=curTid; \
   if(T<=1){ if(last)*last=1; *st=*ub-*lb+1; return; } \
   int64_t L=(int64_t)*lb,U=(int64_t)*ub,I=(int64_t)incr; int64_t trip=I>0?(U<L?0:(U-L)/I+1):(U>L?0:(L-U)/(-I)+1); \
   if(sched==33){ int64_t c=chunk<1?1:chunk; *lb=(IT)(L+t*c*I); *ub=(IT)(L+t*c*I+(c-1)*I); *st=(IT)(T*c*I); if(last)*last=0; return; } \
   int64_t small=trip/T,ex=trip%T; int64_t b=t*small+(t<ex?t:ex),n=small+(t<ex?1:0); if(g_map==1){ b=0;n=0; for(int k=T-1;k>=t;k--){ n=small+((T-1-k)<ex?1:0); if(k>t) b+=n; } } \
   *lb=(IT)(L+b*I); *ub=(IT)(L+(b+n-1)*I); *st=(IT)(n*I?n*I:1); if(last)*last=(n>0&&b+n==trip); if(n==0){ *lb=(IT)(U+I); *ub=(IT)U; } }
SINIT(__kmpc_for_static_init_4,int32_t,uint32_t)
SINIT(__kmpc_for_static_init_4u,uint32_t,uint32_t)
SINIT(__kmpc_for_static_init_8,int64_t,uint64_t)
SINIT(__kmpc_for_static_init_8u,uint64_t,uint64_t)
void __kmpc_for_static_fini(void*,kint){}
static Team*serial(){ static Team*t=nullptr; if(!t){ t=new Team; t->T=1; t->phase=0; t->dynIdx.assign(1,0); t->th.resize(1); t->th[0].singleCount=0; } return t; }
#define DINIT(SUF,IT,CT) void __kmpc_dispatch_init_##SUF(void*,kint,kint sched,IT lb,IT ub,CT st,CT chunk){ Team*cur=::cur?::cur:serial(); int t=::cur?curTid:0; int k=cur->dynIdx[t]; if((int)cur->dyn.size()<=k){ Team::Dyn d; d.lb=(int64_t)lb; d.ub=(int64_t)ub; d.st=(int64_t)st; d.chunk=chunk<1?1:chunk; d.next=(int64_t)lb; d.left=cur->T; cur->dyn.push_back(d);} } \
 kint __kmpc_dispatch_next_##SUF(void*,kint,kint*last,IT*lb,IT*ub,CT*st){ Team*cur=::cur?::cur:serial(); int t=::cur?curTid:0; Team::Dyn&d=cur->dyn[cur->dynIdx[t]]; bool emp=d.st>0?d.next>d.ub:d.next<d.ub; if(emp){ cur->dynIdx[t]++; return 0; } int64_t e=d.next+(d.chunk-1)*d.st; if(d.st>0?e>d.ub:e<d.ub) e=d.ub; *lb=(IT)d.next; *ub=(IT)e; *st=(CT)d.st; d.next=e+d.st; if(last)*last=0; \
   if(cur->T>1&&g_order>=0){ Th&h=cur->th[t]; int me=t; swapcontext(&h.ctx,&cur->main); curTid=me; } return 1; } \
 void __kmpc_dispatch_fini_##SUF(void*,kint){} void __kmpc_dispatch_deinit(void*,kint); 
DINIT(4,int32_t,int32_t) DINIT(4u,uint32_t,int32_t) DINIT(8,int64_t,int64_t) DINIT(8u,uint64_t,int64_t)
void __kmpc_dispatch_deinit(void*,kint){}
}
// 16-byte atomics of complex reductions (the logical threads are coroutines)
extern "C" void vp_at_load(size_t n,void*s,void*d,int) __asm__("__atomic_load");
extern "C" void vp_at_load(size_t n,void*s,void*d,int){ memcpy(d,s,n); }
extern "C" bool vp_at_cx(size_t n,void*p,void*e,void*v,int,int) __asm__("__atomic_compare_exchange");
extern "C" bool vp_at_cx(size_t n,void*p,void*e,void*v,int,int){ if(!memcmp(p,e,n)){ memcpy(p,v,n); return true; } memcpy(e,p,n); return false; }
extern "C" void omp_set_lock(void*){ if(cur&&cur->T>1){ Th&h=cur->th[curTid]; int me=curTid; swapcontext(&h.ctx,&cur->main); curTid=me; } sx_mem_lock++; }
extern "C" void omp_unset_lock(void*){ sx_mem_lock--; }
