// Shared-memory access log and the decision of thread independence.
// Every access inside a parallel region is recorded per logical thread and per
// barrier interval.  With as many logical threads as the longest work-shared
// loop has iterations, a logical thread stands for one iteration; at the end of
// the interval the solver decides whether any assignment of logical threads to
// real threads lets two real threads touch one location, one of them writing.
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <string>
#ifndef SX_NATIVE_MEM
#include <z3++.h>
#include <chrono>
extern "C" void sx_count_query(double sec,int unsat);
#endif
extern "C" int sx_mem_on; int sx_mem_on=0;       // 1 on, |2 inside the combination of a reduction
extern "C" int sx_mem_lock; int sx_mem_lock=0;   // inside a critical section
extern "C" int sx_cur_thread();
extern "C" int omp_in_parallel();
struct Acc { uint64_t R=0,W=0,LR=0,LW=0; const char*wf=nullptr,*rf=nullptr; uint32_t val=0; bool same=true; };
static std::unordered_map<uint64_t,Acc> A,B1; static long phases=0,accesses=0,classes=0,queries=0;
struct Conf{ uint64_t addr; int t1,t2; const char*f1,*f2; }; static std::vector<Conf> C;
// stores of one and the same value by several threads count as one store; a thread reading what it stored itself in this interval reads its own
static inline void touch(Acc&x,bool w,uint64_t m,const char*fn,uint32_t v){ if(!w&&((x.W|x.LW)&m)) return; if(w){ if((x.W|x.LW)&&v!=x.val) x.same=false; x.val=v; } if(sx_mem_lock){ if(w) x.LW|=m; else x.LR|=m; } else { if(w) x.W|=m; else x.R|=m; } if(w) x.wf=fn; else x.rf=fn; }
static inline void rec(uint64_t a,size_t n,bool w,const char*fn){ if(sx_mem_on!=1||!omp_in_parallel()||!n) return; int t=sx_cur_thread(); if(t<0||t>63) return; accesses++; uint64_t m=1ull<<t,e=a+n;
  for(;a<e&&(a&3);a++) touch(B1[a],w,m,fn,*(unsigned char*)a);
  for(;a+4<=e;a+=4) touch(A[a],w,m,fn,*(uint32_t*)a);
  for(;a<e;a++) touch(B1[a],w,m,fn,*(unsigned char*)a); }
static void decide(){
  for(auto&b:B1){ auto it=A.find(b.first&~3ull); if(it!=A.end()){ Acc&x=it->second; b.second.R|=x.R; b.second.W|=x.W; b.second.LR|=x.LR; b.second.LW|=x.LW; if(x.W|x.LW) b.second.same=false; if(x.wf) b.second.wf=x.wf; if(x.rf) b.second.rf=x.rf; } }
  struct K{ uint64_t R,W,LR,LW; bool same; bool operator<(const K&o)const{ if(same!=o.same) return same<o.same; if(R!=o.R) return R<o.R; if(W!=o.W) return W<o.W; if(LR!=o.LR) return LR<o.LR; return LW<o.LW; } };
  std::map<K,std::pair<uint64_t,Acc*>> cl; for(auto*Mp:{&A,&B1}) for(auto&g:*Mp){ Acc&x=g.second; if(!(x.W|x.LW)) continue; cl.emplace(K{x.R,x.W,x.LR,x.LW,x.same},std::make_pair(g.first,&x)); }
  if(cl.empty()) return; classes+=cl.size();
#ifndef SX_NATIVE_MEM
  static std::set<std::string> done; std::string sig; for(auto&k:cl){ char b[100]; snprintf(b,100,"%d,%lx,%lx,%lx,%lx;",k.first.same,k.first.R,k.first.W,k.first.LR,k.first.LW); sig+=b; } if(done.count(sig)) return;
  auto t0=std::chrono::steady_clock::now(); z3::context z; z3::solver s(z); int n=0; for(auto&k:cl){ uint64_t m=k.first.R|k.first.W|k.first.LR|k.first.LW; while(m>>n) n++; }
  // real(i): the real thread that runs logical thread (iteration) i; location class c; accesses by i and j
  z3::func_decl real=z.function("real",z.int_sort(),z.int_sort()); z3::expr c=z.int_const("c"),i=z.int_const("i"),j=z.int_const("j"); 
  auto mem=[&](const z3::expr&t,uint64_t m){ z3::expr_vector o(z); for(int q=0;q<n;q++) if(m>>q&1) o.push_back(t==q); return o.empty()?z.bool_val(false):z3::mk_or(o); };
  z3::expr_vector any(z); std::vector<std::pair<uint64_t,Acc*>> ord; int idx=0;
  for(auto&k:cl){ const K&q=k.first; ord.push_back(k.second); any.push_back(c==idx++ && ((mem(i,q.W)&&mem(j,(q.same?0:q.W|q.LW)|q.R|q.LR))||(mem(i,q.LW)&&mem(j,q.same?0:q.W)))); }
  s.add(z3::mk_or(any)); s.add(real(i)!=real(j)); auto r=s.check(); queries++;
  sx_count_query(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(),r==z3::unsat);
  if(r==z3::unsat){ done.insert(sig); return; }
  if(r==z3::sat){ z3::model m=s.get_model(); int64_t ci=m.eval(c,true).get_numeral_int64(),ii=m.eval(i,true).get_numeral_int64(),jj=m.eval(j,true).get_numeral_int64(); auto&o=ord.at(ci); C.push_back({o.first,(int)ii,(int)jj,o.second->wf?o.second->wf:"?",o.second->rf?o.second->rf:"?"}); }
  else C.push_back({0,-1,-1,"undecided","undecided"});
#else
  for(auto&k:cl){ const K&q=k.first; for(int i=0;i<64;i++)for(int j=0;j<64;j++) if(i!=j){ bool x=((q.W>>i&1)&&(((q.same?0:q.W|q.LW)|q.R|q.LR)>>j&1))||(!q.same&&(q.LW>>i&1)&&(q.W>>j&1)); if(x){ Acc*o=k.second.second; C.push_back({k.second.first,i,j,o->wf?o->wf:"?",o->rf?o->rf:"?"}); goto next; } } next:; }
#endif
}
extern "C" {
void sx_load(void*p,size_t n,const char*fn){ rec((uint64_t)p,n,false,fn); }
void sx_store(void*p,size_t n,const char*fn){ rec((uint64_t)p,n,true,fn); }
void sx_mem_phase(int b,int e){ (void)e; if(!b&&sx_mem_on) decide(); A.clear(); B1.clear(); phases++; }
long sx_mem_conflicts(){ return (long)C.size(); }
long sx_mem_accesses(){ return accesses; }
long sx_mem_phases(){ return phases; }
long sx_mem_classes(){ return classes; }
const char*sx_mem_where(int i){ static char b[256]; if(i>=(int)C.size()) return ""; snprintf(b,256,"written in %s by thread %d, also accessed (last in %s) by thread %d",C[i].f1,C[i].t1,C[i].f2,C[i].t2); return b; }
void sx_mem_enable(int on){ sx_mem_on=on; A.clear(); B1.clear(); }
void sx_mem_reset(){ C.clear(); A.clear(); B1.clear(); accesses=0; phases=0; }
void __real_free(void*); void*__real_realloc(void*,size_t);
// memory given back inside a region is kept: another thread may get the same address, which is no sharing
void __wrap_free(void*p){ if(sx_mem_on&&omp_in_parallel()) return; __real_free(p); }
}
