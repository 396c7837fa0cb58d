// Symbolic runtime: NaN-boxed terms over the reals, solver-decided branches,
// solver-discharged proof obligations.  Rounding is idealised away: every
// floating operation is the exact real operation.
#include <execinfo.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <random>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <gmpxx.h>
#include <z3++.h>

typedef long double LD;
static double now(){ struct timeval t; gettimeofday(&t,0); return t.tv_sec+1e-6*t.tv_usec; }

// ------------------------------------------------------------ terms
enum K : uint8_t { CONST, VAR, ADD, MUL, INV, SQRT, UF };
struct Node { K k; int a=0,b=0; int q=-1; int fn=-1; bool na=false,nb=false; };
struct Ref { int id; bool neg; };
static std::vector<Node> N;
static std::vector<mpq_class> Q;
static std::vector<double> Qd;
static std::vector<std::string> Nm;         // var names / fn names
struct VarInfo { std::string name; double lo,hi; bool ranged; int id; };
static std::vector<VarInfo> Vars; static std::unordered_map<int,int> VarIdx;
struct Key { uint64_t a,b; bool operator==(const Key&o)const{return a==o.a&&b==o.b;} };
struct KH { size_t operator()(const Key&k)const{ return k.a*0x9E3779B97F4A7C15ull ^ (k.b+0x7F4A7C15ull+(k.a<<6)+(k.a>>2))*0xC2B2AE3D27D4EB4Full; } };
static std::unordered_map<Key,int,KH> HC;
static std::map<std::string,int> QH;
static std::map<std::string,int> FnH;

static const uint64_t BOX=0x7FF8000000000000ull;
static inline bool isbox(double d){ uint64_t u; memcpy(&u,&d,8); return (u&BOX)==BOX && (u&0x0007FFFFFFFFFFFFull)!=0; }
static inline double box(Ref r){ uint64_t u=BOX|(uint64_t)(r.id+1)|(r.neg?1ull<<63:0); double d; memcpy(&d,&u,8); return d; }
static inline Ref unbox(double d){ uint64_t u; memcpy(&u,&d,8); return Ref{(int)((u&0x0007FFFFFFFFFFFFull)-1),(bool)(u>>63)}; }

static int addnode(Node n){ N.push_back(n); return (int)N.size()-1; }
static int hc(K k,int a,bool na,int b,bool nb,int fn=0){
  Key key{ ((uint64_t)k<<60)|((uint64_t)(fn&0xFFF)<<40)|((uint64_t)na<<39)|((uint64_t)nb<<38)|0, ((uint64_t)(uint32_t)a<<32)|(uint32_t)b };
  auto it=HC.find(key); if(it!=HC.end()) return it->second;
  Node n; n.k=k;n.a=a;n.b=b;n.na=na;n.nb=nb;n.fn=fn;
  int id=addnode(n); HC[key]=id; return id;
}
static Ref mkconst(const mpq_class&q){
  bool neg=q<0; mpq_class p=neg?mpq_class(-q):q;
  std::string s=p.get_str(62);
  auto it=QH.find(s); if(it!=QH.end()) return Ref{it->second,neg};
  Q.push_back(p); Qd.push_back(p.get_d());
  Node n; n.k=CONST; n.q=(int)Q.size()-1; int id=addnode(n); QH[s]=id; return Ref{id,neg};
}
static inline bool isC(Ref r){ return N[r.id].k==CONST; }
static mpq_class cval(Ref r){ mpq_class q=Q[N[r.id].q]; return r.neg?mpq_class(-q):q; }
static inline bool isZero(Ref r){ return isC(r)&&Q[N[r.id].q]==0; }
static inline bool isOne(Ref r){ return isC(r)&&Q[N[r.id].q]==1; }
static Ref neg(Ref r){ if(isZero(r)) return r; return Ref{r.id,!r.neg}; }

static bool deepOn=false; static Ref deep(int id,int before);
static Ref mkadd(Ref x,Ref y){
  if(isZero(x)) return y; if(isZero(y)) return x;
  if(isC(x)&&isC(y)) return mkconst(cval(x)+cval(y));
  if(x.id==y.id){ if(x.neg!=y.neg) return mkconst(0); }
  if(x.id>y.id) std::swap(x,y);
  bool flip=x.neg; if(flip){x.neg=false;y.neg=!y.neg;}
  int before=(int)N.size(); int id=hc(ADD,x.id,false,y.id,y.neg);
  if(deepOn){ Ref r=deep(id,before); return Ref{r.id,r.neg!=flip}; }
  return Ref{id,flip};
}
static Ref mkmul(Ref x,Ref y){
  if(isZero(x)) return x; if(isZero(y)) return y;
  if(isC(x)&&isC(y)) return mkconst(cval(x)*cval(y));
  bool s=x.neg!=y.neg; x.neg=y.neg=false;
  if(isOne(x)) return Ref{y.id,s}; if(isOne(y)) return Ref{x.id,s};
  if(x.id==y.id && N[x.id].k==SQRT) return Ref{N[x.id].a,(bool)(s!=N[x.id].na)};
  if(N[x.id].k==INV && N[x.id].a==y.id) return Ref{mkconst(1).id,s};
  if(N[y.id].k==INV && N[y.id].a==x.id) return Ref{mkconst(1).id,s};
  // constant * (constant * t)
  if(isC(y)) std::swap(x,y);
  if(isC(x) && N[y.id].k==MUL && N[N[y.id].a].k==CONST){ Ref c=mkconst(cval(x)*Q[N[N[y.id].a].q]); Ref r=mkmul(c,Ref{N[y.id].b,false}); return s?neg(r):r; }
  if(x.id>y.id && !isC(x)) std::swap(x,y);
  if(isC(y)) std::swap(x,y);
  int before=(int)N.size(); int id=hc(MUL,x.id,false,y.id,false);
  if(deepOn){ Ref r=deep(id,before); return Ref{r.id,r.neg!=s}; }
  return Ref{id,s};
}
static void die(const char*fmt,...){ va_list a; va_start(a,fmt); fprintf(stderr,"SXRT: "); vfprintf(stderr,fmt,a); fprintf(stderr,"\n"); va_end(a); _exit(4); }
static void nonfinite(const char*why);
static bool assume_definedness=true;
static void note_nonzero(Ref x); static void note_nonneg(Ref x);
static Ref mkinv(Ref x){
  if(isC(x)){ if(isZero(x)) nonfinite("division by zero"); return mkconst(mpq_class(1)/cval(x)); }
  if(N[x.id].k==INV) return Ref{N[x.id].a,(bool)(x.neg)};
  int before=(int)N.size(); int id=hc(INV,x.id,false,0,false);
  if(id>=before) note_nonzero(Ref{x.id,false});
  return Ref{id,x.neg};
}
static bool sweep(K k,int fn,Ref x,Ref y,Ref&out); static void sweep_add(K k,int fn,Ref x,Ref y,Ref val);
static int hclook(K k,int a,bool na,int b,bool nb,int fn=0){ Key key{ ((uint64_t)k<<60)|((uint64_t)(fn&0xFFF)<<40)|((uint64_t)na<<39)|((uint64_t)nb<<38)|0, ((uint64_t)(uint32_t)a<<32)|(uint32_t)b }; auto it=HC.find(key); return it==HC.end()?-1:it->second; }
static Ref mksqrt(Ref x){
  if(isC(x)){
    mpq_class q=cval(x); if(q<0) die("sqrt of a negative constant");
    mpz_class n=q.get_num(),d=q.get_den();
    // write as r*sqrt(k), k squarefree (trial division)
    mpz_class nd=n*d, out=1, k=nd;
    for(unsigned p=2;p<2000;p++){ mpz_class pp=p*(unsigned long)p; while(k!=0&&mpz_divisible_p(k.get_mpz_t(),pp.get_mpz_t())){ k/=pp; out*=p; } }
    mpz_class sr=sqrt(k); if(sr*sr==k){ out*=sr; k=1; }
    Ref c=mkconst(mpq_class(out,d));  // sqrt(n/d)=sqrt(n*d)/d
    if(k==1||k==0) return k==0?mkconst(0):mkconst([&]{mpq_class t(out,d);t.canonicalize();return t;}());
    mpq_class t(out,d); t.canonicalize(); c=mkconst(t);
    Ref kk=mkconst(mpq_class(k)); Ref r{hc(SQRT,kk.id,false,0,false),false};
    return mkmul(c,r);
  }
  int old=hclook(SQRT,x.id,x.neg,0,false); if(old>=0) return Ref{old,false};
  Ref w; if(sweep(SQRT,0,x,Ref{0,false},w)) return w;
  int id=hc(SQRT,x.id,x.neg,0,false); note_nonneg(x); sweep_add(SQRT,0,x,Ref{0,false},Ref{id,false});
  return Ref{id,false};
}
static int fnid(const char*n){ auto it=FnH.find(n); if(it!=FnH.end()) return it->second; int i=(int)Nm.size(); Nm.push_back(n); FnH[n]=i; return i; }
static Ref mkuf(const char*n,Ref x,Ref y=Ref{0,false}){
  int f=fnid(n); int old=hclook(UF,x.id,x.neg,y.id,y.neg,f); if(old>=0) return Ref{old,false};
  Ref w; if(sweep(UF,f,x,y,w)) return w;
  Ref r{hc(UF,x.id,x.neg,y.id,y.neg,f),false}; sweep_add(UF,f,x,y,r); return r; }
static Ref mkuf_raw(const char*n,Ref x,Ref y=Ref{0,false}){ return Ref{hc(UF,x.id,x.neg,y.id,y.neg,fnid(n)),false}; }

// ------------------------------------------------------------ literals
static std::unordered_map<uint64_t,double> recogCache; // double bits -> boxed
static int ref_pi=-1;
static Ref pi_ref(){ if(ref_pi<0){ Node n; n.k=VAR; ref_pi=addnode(n); VarIdx[ref_pi]=(int)Vars.size(); Vars.push_back({"pi",M_PI,M_PI,true,ref_pi}); } return Ref{ref_pi,false}; }
static mpq_class dexact(double d){ return mpq_class(d); }
static bool cfrac(double d,double maxden,mpq_class&out){
  double x=fabs(d); mpz_class p0=0,q0=1,p1=1,q1=0; double y=x; double ulp=nextafter(x,INFINITY)-x;
  for(int i=0;i<40;i++){
    double f=floor(y); if(f>1e15) return false; mpz_class a(f); mpz_class p2=a*p1+p0,q2=a*q1+q0; p0=p1;q0=q1;p1=p2;q1=q2;
    if(q1.get_d()>maxden) return false;
    mpq_class t(p1,q1); t.canonicalize();
    mpq_class diff=abs(t-mpq_class(x));
    if(diff<=mpq_class(1.01*ulp)){ out=d<0?mpq_class(-t):t; return true; }
    double r=y-f; if(r<=0) return false; y=1/r;
  }
  return false;
}
static bool simpleDyadic(double d){ if(d==0) return true; int e; double m=frexp(d,&e); double s=ldexp(m,34); return s==floor(s)&&e>-60&&e<80; }
static Ref recog(double d){
  if(std::isnan(d)||std::isinf(d)) nonfinite("non-finite value");
  if(simpleDyadic(d)) return mkconst(dexact(d));
  uint64_t u; memcpy(&u,&d,8); auto it=recogCache.find(u); if(it!=recogCache.end()){ return unbox(it->second);}
  Ref r; bool done=false; mpq_class q;
  char b[64]; 
  for(int p=1;p<=11&&!done;p++){ snprintf(b,64,"%.*e",p-1,d); if(strtod(b,0)==d){ // decimal literal
      std::string s(b); bool ng=false; size_t i=0; if(s[0]=='-'){ng=true;i=1;} std::string dig; int fr=0; bool dot=false; for(;i<s.size()&&s[i]!='e';i++){ if(s[i]=='.'){dot=true;continue;} dig+=s[i]; if(dot) fr++; }
      int ex=atoi(s.c_str()+s.find('e')+1)-fr; mpz_class ten; mpz_ui_pow_ui(ten.get_mpz_t(),10,abs(ex)); mpz_class n(dig,10); mpq_class t; if(ex>=0) t=mpq_class(n*ten); else {t=mpq_class(n,ten);} t.canonicalize(); q=ng?mpq_class(-t):t; r=mkconst(q); done=true; } }
  if(!done&&cfrac(d,100000,q)){ r=mkconst(q); done=true; }
  if(!done){ int ks[]={2,3,5,6,7,10,15}; for(int k:ks){ double e=d/sqrt((double)k); if(cfrac(e,500,q)){ if(fabs(q.get_d()*sqrt((double)k)-d)<=2.01*(nextafter(fabs(d),INFINITY)-fabs(d))){ r=mkmul(mkconst(q),mksqrt(mkconst(k))); done=true; break; } } } }
  if(!done&&cfrac(d/M_PI,2000,q)&&fabs((double)(q.get_d()*M_PI)-d)<=2.01*(nextafter(fabs(d),INFINITY)-fabs(d))){ r=mkmul(mkconst(q),pi_ref()); done=true; }
  if(!done) r=mkconst(dexact(d));
  recogCache[u]=box(r); return r;
}
static inline Ref toR(double d){ return isbox(d)?unbox(d):recog(d); }
static inline double outR(Ref r){
  if(isC(r)){ double d=Qd[N[r.id].q]; if(simpleDyadic(d)&&dexact(d)==Q[N[r.id].q]) return r.neg?-d:d; }
  return box(r);
}

// ------------------------------------------------------------ numeric evaluation at sample points
struct Sample { std::unordered_map<int,double> v; std::vector<LD> memo; std::vector<char> have; };
static std::vector<Sample*> Pool; static std::mt19937_64 rng(1);
static LD evalN(Sample&S,int root);
static LD uf_num(const std::string&f,LD x,LD y){
  if(f=="sin") return sinl(x); if(f=="cos") return cosl(x); if(f=="exp") return expl(x); if(f=="log") return logl(x);
  if(f=="acos") return acosl(x<-1?-1:x>1?1:x); if(f=="asin") return asinl(x<-1?-1:x>1?1:x); if(f=="atan") return atanl(x); if(f=="atan2") return atan2l(x,y); if(f=="tan") return tanl(x);
  if(f=="pow") return powl(x,y); if(f=="floor") return floorl(x); if(f=="tanh") return tanhl(x); if(f=="abs") return fabsl(x);
  if(f=="max") return x>y?x:y; if(f=="min") return x<y?x:y; if(f=="cbrt") return cbrtl(x);
  // opaque: a fixed smooth scrambling function
  size_t h=std::hash<std::string>()(f)%1000; return sinl(x*1.37L+y*0.73L+0.01L*h)+0.3L*cosl(2.1L*x-y);
}
static LD evalN(Sample&S,int root){
  if(S.memo.size()<N.size()){ S.memo.resize(N.size()); S.have.resize(N.size(),0); }
  if(S.have[root]) return S.memo[root];
  std::vector<int> st{root};
  while(!st.empty()){
    int i=st.back(); if(S.have[i]){st.pop_back();continue;}
    Node&n=N[i]; bool ok=true;
    if(n.k==ADD||n.k==MUL||n.k==UF){ if(!S.have[n.a]){st.push_back(n.a);ok=false;} if(!S.have[n.b]){st.push_back(n.b);ok=false;} }
    else if(n.k==INV||n.k==SQRT){ if(!S.have[n.a]){st.push_back(n.a);ok=false;} }
    if(!ok) continue;
    LD r=0;
    switch(n.k){
      case CONST: r=Qd[n.q]; break;
      case VAR: { auto it=S.v.find(i); if(it==S.v.end()){ VarInfo&vi=Vars[VarIdx[i]]; double x; if(vi.lo==vi.hi) x=vi.lo; else { std::uniform_int_distribution<int> u(1,1023); x=vi.lo+(vi.hi-vi.lo)*u(rng)/1024.0; } S.v[i]=x; r=x; if(vi.name=="pi") r=M_PIl; } else r=it->second; break; }
      case ADD: r=(n.na?-S.memo[n.a]:S.memo[n.a])+(n.nb?-S.memo[n.b]:S.memo[n.b]); break;
      case MUL: r=S.memo[n.a]*S.memo[n.b]; break;
      case INV: r=1/S.memo[n.a]; break;
      case SQRT: { LD x=n.na?-S.memo[n.a]:S.memo[n.a]; r=x<0?(x>-1e-12L?0:NAN):sqrtl(x); break; }
      case UF: r=uf_num(Nm[n.fn],n.na?-S.memo[n.a]:S.memo[n.a],n.nb?-S.memo[n.b]:S.memo[n.b]); break;
    }
    S.memo[i]=r; S.have[i]=1; st.pop_back();
  }
  return S.memo[root];
}
static LD evalR(Sample&S,Ref r){ LD v=evalN(S,r.id); return r.neg?-v:v; }

// ------------------------------------------------------------ path condition
enum Rel { LT, LE, EQ, NE };
struct Cond { Ref d; Rel rel; bool def; }; // d rel 0
static std::vector<Cond> PC;
static bool condHolds(Sample&S,const Cond&c){ LD v=evalR(S,c.d); if(std::isnan((double)v)) return false; switch(c.rel){case LT:return v<0;case LE:return v<=0;case EQ:return fabsl(v)<1e-12L;case NE:return v!=0;} return false; }
static void note_nonzero(Ref x){ PC.push_back({x,NE,true}); }
static void note_nonneg(Ref x){ PC.push_back({neg(x),LE,true}); }

// ------------------------------------------------------------ bookkeeping
struct Shared { long queries,unsat,sat,unknown,paths,forks,infeasible,prunedbr,cex,undecided; double solver_s; long witness; long trivially; };
static Shared*SH; static int outfd=-1; static int timeout_ms=30000; static const char*cexdir; static bool child=false; static int depthLimit=400; static long maxPaths=4000;
static void emit(const char*fmt,...){ char b[4096]; va_list a; va_start(a,fmt); int n=vsnprintf(b,4095,fmt,a); va_end(a); if(n>4094)n=4094; if(outfd>=0) { if(write(outfd,b,n)<0){} } }

// ------------------------------------------------------------ z3
static z3::context*Z; static std::unordered_map<int,z3::expr>*ZM; 
static void zreset(){ Z=new z3::context(); ZM=new std::unordered_map<int,z3::expr>(); }
static z3::expr zc(const mpq_class&q){ return Z->real_val(q.get_str().c_str()); }
static z3::expr zt(int root){
  std::vector<int> st{root};
  while(!st.empty()){
    int i=st.back(); if(ZM->count(i)){st.pop_back();continue;}
    Node n=N[i]; 
    if(n.k==ADD){
      // flatten
      std::vector<std::pair<int,bool>> leaves; std::vector<std::pair<int,bool>> w{{i,false}}; 
      while(!w.empty()){ auto p=w.back(); w.pop_back(); Node&m=N[p.first]; if(m.k==ADD && (p.first==i||!ZM->count(p.first)) && leaves.size()+w.size()<200000){ w.push_back({m.a,p.second!=m.na}); w.push_back({m.b,p.second!=m.nb}); } else leaves.push_back(p); }
      bool ok=true; for(auto&p:leaves) if(!ZM->count(p.first)){ st.push_back(p.first); ok=false; }
      if(!ok) continue;
      z3::expr_vector v(*Z); for(auto&p:leaves){ z3::expr e=ZM->at(p.first); v.push_back(p.second?-e:e); }
      ZM->emplace(i,z3::sum(v)); st.pop_back(); continue;
    }
    bool ok=true;
    if(n.k==MUL){ if(!ZM->count(n.a)){st.push_back(n.a);ok=false;} if(!ZM->count(n.b)){st.push_back(n.b);ok=false;} }
    if(!ok) continue;
    char nm[64];
    switch(n.k){
      case CONST: ZM->emplace(i,zc(Q[n.q])); break;
      case VAR: snprintf(nm,64,"v%d_%.40s",i,Vars[VarIdx[i]].name.c_str()); ZM->emplace(i,Z->real_const(nm)); break;
      case MUL: ZM->emplace(i,ZM->at(n.a)*ZM->at(n.b)); break;
      case INV: snprintf(nm,64,"inv%d",i); ZM->emplace(i,Z->real_const(nm)); break;
      case SQRT: snprintf(nm,64,"sqrt%d",i); ZM->emplace(i,Z->real_const(nm)); break;
      case UF: snprintf(nm,64,"%.20s%d",Nm[n.fn].c_str(),i); ZM->emplace(i,Z->real_const(nm)); break;
      default: break;
    }
    st.pop_back();
  }
  return ZM->at(root);
}
static z3::expr zr(Ref r){ z3::expr e=zt(r.id); return r.neg?-e:e; }
static z3::expr zcond(const Cond&c){ z3::expr e=zr(c.d); z3::expr z=Z->real_val(0); switch(c.rel){case LT:return e<z;case LE:return e<=z;case EQ:return e==z;default:return e!=z;} }
// atoms (INV,SQRT,UF) in the cone of the given roots
static void cone(const std::vector<int>&roots,std::set<int>&atoms,std::set<int>&vars){
  static std::vector<int> mark; static int stamp=0; stamp++; if(mark.size()<N.size()) mark.resize(N.size(),0);
  std::vector<int> st(roots);
  while(!st.empty()){ int i=st.back(); st.pop_back(); if(mark[i]==stamp) continue; mark[i]=stamp; Node&n=N[i];
    switch(n.k){ case VAR: vars.insert(i); break; case ADD: case MUL: st.push_back(n.a); st.push_back(n.b); break;
      case INV: case SQRT: atoms.insert(i); st.push_back(n.a); break; case UF: atoms.insert(i); st.push_back(n.a); st.push_back(n.b); break; default: break; } }
}
static void axioms(const std::set<int>&atoms,const std::set<int>&vars,z3::expr_vector&out){
  for(int i:atoms){ Node n=N[i];
    if(n.k==INV) out.push_back(zt(i)*zt(n.a)==Z->real_val(1));
    else if(n.k==SQRT){ z3::expr r=zt(i); z3::expr x=zr(Ref{n.a,n.na}); out.push_back(r*r==x); out.push_back(r>=Z->real_val(0)); }
    else if(n.k==UF){ const std::string&f=Nm[n.fn]; z3::expr e=zt(i);
      if(f=="cos"){ // pair with sin of the same argument
        Key key{ ((uint64_t)UF<<60)|((uint64_t)(fnid("sin")&0xFFF)<<40)|((uint64_t)n.na<<39)|((uint64_t)n.nb<<38), ((uint64_t)(uint32_t)n.a<<32)|(uint32_t)n.b };
        auto it=HC.find(key); if(it!=HC.end()&&atoms.count(it->second)){ z3::expr s=zt(it->second); out.push_back(e*e+s*s==Z->real_val(1)); }
        else { out.push_back(e*e<=Z->real_val(1)); } }
      else if(f=="sin"){ out.push_back(e*e<=Z->real_val(1)); }
      else if(f=="exp"){ out.push_back(e>Z->real_val(0)); }
      else if(f=="cbrt"){ z3::expr x=zr(Ref{n.a,n.na}); out.push_back(e*e*e==x); out.push_back((e>=0)==(x>=0)); }
      else if(f=="pow"){ z3::expr x=zr(Ref{n.a,n.na}),y=zr(Ref{n.b,n.nb}); out.push_back(z3::implies(x>0,e>0)); out.push_back(z3::implies(x>=1&&y<=0,e<=1)); out.push_back(z3::implies(x>0&&x<=1&&y<=0,e>=1)); out.push_back(z3::implies(x>=1&&y>=0,e>=1)); out.push_back(z3::implies(x>0&&x<=1&&y>=0,e<=1)); }
      else if(f=="abs"){ z3::expr x=zr(Ref{n.a,n.na}); out.push_back(e>=0&&(e==x||e==-x)); }
      else if(f=="floor"){ z3::expr x=zr(Ref{n.a,n.na}); out.push_back(e<=x&&x<e+1); }
    } }
  for(int v:vars){ VarInfo&vi=Vars[VarIdx[v]]; if(vi.name=="pi"){ out.push_back(zt(v)>Z->real_val("3.14159265")&&zt(v)<Z->real_val("3.14159266")); } else if(vi.ranged){ out.push_back(zt(v)>=zc(dexact(vi.lo))&&zt(v)<=zc(dexact(vi.hi))); } }
  // congruence of equal-function atoms is obtained by hash consing; add pairwise congruence for small sets
  std::vector<int> ufs; for(int i:atoms) if(N[i].k==UF) ufs.push_back(i);
  if(ufs.size()<=24) for(size_t x=0;x<ufs.size();x++) for(size_t y=x+1;y<ufs.size();y++){ Node a=N[ufs[x]],b=N[ufs[y]]; if(a.fn!=b.fn) continue;
      out.push_back(z3::implies(zr(Ref{a.a,a.na})==zr(Ref{b.a,b.na})&&zr(Ref{a.b,a.nb})==zr(Ref{b.b,b.nb}),zt(ufs[x])==zt(ufs[y]))); }
}
enum Res { UNSAT, SAT, UNK };
static int dumpno=0;
static Res zcheck(z3::expr_vector&as,int to,std::unordered_map<int,double>*model,const std::set<int>*vars,bool count=true){
  double t0=now(); Res r=UNK;
  try{
    z3::params p(*Z); p.set("timeout",(unsigned)to);
    z3::params ps(*Z); ps.set("som",true); ps.set("som_blowup",(unsigned)1000000);
    z3::solver s=(z3::with(z3::tactic(*Z,"simplify"),ps)&z3::tactic(*Z,"propagate-values")&z3::tactic(*Z,"qfnra-nlsat")).mk_solver();
    s.set("timeout",(unsigned)to);
    for(unsigned i=0;i<as.size();i++) s.add(as[i]);
    if(getenv("SX_DUMP")){ char f[256]; snprintf(f,256,"%s/q%d_%d.smt2",getenv("SX_DUMP"),getpid(),dumpno++); FILE*o=fopen(f,"w"); if(o){ fprintf(o,"(set-logic QF_NRA)\n%s\n(check-sat)\n",s.to_smt2().c_str()); fclose(o);} }
    z3::check_result c=s.check();
    r=c==z3::unsat?UNSAT:c==z3::sat?SAT:UNK;
    if(r==SAT&&model&&vars){ z3::model m=s.get_model(); for(int v:*vars){ z3::expr e=m.eval(zt(v),true); double d=0; std::string t; if(e.is_numeral()) { t=e.get_decimal_string(17); } else if(e.is_algebraic()) { Z3_string q=Z3_get_numeral_decimal_string(*Z,e,17); t=q; } if(!t.empty()){ if(t.back()=='?') t.pop_back(); d=atof(t.c_str()); } (*model)[v]=d; } }
  }catch(z3::exception&e){ if(getenv("SX_VERBOSE")) fprintf(stderr,"z3: %s\n",e.msg()); r=UNK; }
  double dt=now()-t0; SH->solver_s+=dt; if(count){ SH->queries++; if(r==UNSAT) SH->unsat++; else if(r==SAT) SH->sat++; else SH->unknown++; }
  return r;
}
extern "C" void sx_count_query(double sec,int unsat){ SH->solver_s+=sec; SH->queries++; if(unsat) SH->unsat++; else SH->sat++; }
static void relevantPC(const std::set<int>&vars,std::vector<Cond>&out,bool all){ for(auto&c:PC){ if(all){out.push_back(c);continue;} std::set<int> a,v; cone({c.d.id},a,v); for(int x:v) if(vars.count(x)){ out.push_back(c); break; } } }

// linear abstraction: every product of two terms is a free value (squares are non-negative); only its "unsat" is used
static std::unordered_map<int,z3::expr>*ZL;
static z3::expr zl(int root,z3::expr_vector&ax){ if(!ZL) ZL=new std::unordered_map<int,z3::expr>();
  std::vector<int> st{root}; while(!st.empty()){ int i=st.back(); if(ZL->count(i)){st.pop_back();continue;} Node n=N[i]; bool ok=true;
    if(n.k==ADD||(n.k==MUL&&N[n.a].k==CONST)){ if(!ZL->count(n.a)){st.push_back(n.a);ok=false;} if(!ZL->count(n.b)){st.push_back(n.b);ok=false;} } if(!ok) continue;
    char nm[32]; snprintf(nm,32,"l%d",i);
    if(n.k==CONST) ZL->emplace(i,zc(Q[n.q])); else if(n.k==ADD){ z3::expr x=ZL->at(n.a),y=ZL->at(n.b); ZL->emplace(i,(n.na?-x:x)+(n.nb?-y:y)); } else if(n.k==MUL&&N[n.a].k==CONST) ZL->emplace(i,ZL->at(n.a)*ZL->at(n.b));
    else ZL->emplace(i,Z->real_const(nm));
    st.pop_back(); } return ZL->at(root); }
static void zlax(const std::vector<int>&roots,z3::expr_vector&ax){ std::set<int> seen; std::vector<int> st(roots); while(!st.empty()){ int i=st.back(); st.pop_back(); if(!seen.insert(i).second) continue; Node&n=N[i]; if(n.k==ADD||(n.k==MUL&&N[n.a].k==CONST)){ st.push_back(n.a); st.push_back(n.b); } else if(n.k==MUL&&n.a==n.b) ax.push_back(zl(i,ax)>=0); else if(n.k==SQRT) ax.push_back(zl(i,ax)>=0); else if(n.k==VAR){ VarInfo&vi=Vars[VarIdx[i]]; if(vi.name=="pi"){ ax.push_back(zl(i,ax)>Z->real_val("3.14159265")&&zl(i,ax)<Z->real_val("3.14159266")); } else if(vi.ranged) ax.push_back(zl(i,ax)>=zc(dexact(vi.lo))&&zl(i,ax)<=zc(dexact(vi.hi))); } else if(n.k==UF){ const std::string&f=Nm[n.fn]; if(f=="sin"||f=="cos") ax.push_back(zl(i,ax)<=1&&zl(i,ax)>=-1); else if(f=="exp") ax.push_back(zl(i,ax)>0); } } }
static Res askLinear(const std::vector<Cond>&cs){ z3::expr_vector as(*Z); std::vector<int> roots; size_t sz=0; for(auto&c:cs){ if(c.rel==NE) continue; roots.push_back(c.d.id); z3::expr e=zl(c.d.id,as); if(c.d.neg) e=-e; as.push_back(c.rel==LT?e<0:c.rel==LE?e<=0:e==0); sz++; } if(!sz) return UNK; zlax(roots,as);
  double t0=now(); Res r=UNK; try{ z3::solver s(*Z,"QF_LRA"); s.set("timeout",1000u); for(unsigned i=0;i<as.size();i++) s.add(as[i]); z3::check_result c=s.check(); r=c==z3::unsat?UNSAT:UNK; }catch(z3::exception&){ } SH->solver_s+=now()-t0; SH->queries++; if(r==UNSAT) SH->unsat++; return r; }
static Res ask(const std::vector<Cond>&goal,bool withPC,bool all,int to,std::unordered_map<int,double>*model,bool count=true){
  std::vector<int> roots; for(auto&c:goal) roots.push_back(c.d.id);
  std::set<int> atoms,vars; cone(roots,atoms,vars);
  std::vector<Cond> pcs; if(withPC){ relevantPC(vars,pcs,all); for(auto&c:pcs) roots.push_back(c.d.id); atoms.clear(); vars.clear(); cone(roots,atoms,vars); }
  z3::expr_vector as(*Z); for(auto&c:goal) as.push_back(zcond(c)); for(auto&c:pcs) as.push_back(zcond(c));
  if(goal.size()==1&&goal[0].rel!=NE){ std::vector<Cond> l(pcs); l.push_back(goal[0]); if(askLinear(l)==UNSAT) return UNSAT; }
  axioms(atoms,vars,as);
  return zcheck(as,to,model,&vars,count);
}

// ------------------------------------------------------------ own polynomial reduction (fallback preprocessing for the solver)
typedef std::vector<std::pair<int,int>> Mono; // (atom,exp) sorted
typedef std::map<Mono,mpq_class> Poly;
static size_t polyBudget=400000;
struct Blow{};
static Poly pmul(const Poly&a,const Poly&b);
static std::unordered_map<int,Poly>*PM;
static Poly reduceMono(Mono m,const mpq_class&c);
static Poly pnode(int root);
static Poly padd(const Poly&a,const Poly&b,bool na,bool nb){ Poly r; for(auto&t:a) r[t.first]=na?mpq_class(-t.second):t.second; for(auto&t:b){ auto it=r.find(t.first); if(it==r.end()) r[t.first]=nb?mpq_class(-t.second):t.second; else { if(nb) it->second-=t.second; else it->second+=t.second; if(it->second==0) r.erase(it);} } if(r.size()>polyBudget) throw Blow(); return r; }
static int sinOf(int cosId){ Node n=N[cosId]; Key key{ ((uint64_t)UF<<60)|((uint64_t)(fnid("sin")&0xFFF)<<40)|((uint64_t)n.na<<39)|((uint64_t)n.nb<<38), ((uint64_t)(uint32_t)n.a<<32)|(uint32_t)n.b }; auto it=HC.find(key); return it==HC.end()?-1:it->second; }
static int cosOf(int sinId){ Node n=N[sinId]; Key key{ ((uint64_t)UF<<60)|((uint64_t)(fnid("cos")&0xFFF)<<40)|((uint64_t)n.na<<39)|((uint64_t)n.nb<<38), ((uint64_t)(uint32_t)n.a<<32)|(uint32_t)n.b }; auto it=HC.find(key); return it==HC.end()?-1:it->second; }
static std::unordered_map<int,Poly>*substEq; // atom^2 -> poly (from harness equalities)
static Poly pmul(const Poly&a,const Poly&b){ Poly r; if(a.size()*b.size()>polyBudget*20) throw Blow();
  for(auto&x:a) for(auto&y:b){ Mono m; size_t i=0,j=0; while(i<x.first.size()||j<y.first.size()){ if(j>=y.first.size()||(i<x.first.size()&&x.first[i].first<y.first[j].first)) m.push_back(x.first[i++]); else if(i>=x.first.size()||y.first[j].first<x.first[i].first) m.push_back(y.first[j++]); else { m.push_back({x.first[i].first,x.first[i].second+y.first[j].second}); i++;j++; } }
    bool red=false; for(auto&p:m){ K k=N[p.first].k; if(p.second>=2&&(k==SQRT||(k==UF&&Nm[N[p.first].fn]=="sin"&&cosOf(p.first)>=0)||substEq->count(p.first))) red=true; }
    mpq_class c=x.second*y.second;
    if(!red){ auto it=r.find(m); if(it==r.end()) r[m]=c; else { it->second+=c; if(it->second==0) r.erase(it);} }
    else { Poly q=reduceMono(m,c); for(auto&t:q){ auto it=r.find(t.first); if(it==r.end()) r[t.first]=t.second; else { it->second+=t.second; if(it->second==0) r.erase(it);} } }
    if(r.size()>polyBudget) throw Blow(); }
  return r; }
static Poly reduceMono(Mono m,const mpq_class&c){
  for(size_t i=0;i<m.size();i++){ K k=N[m[i].first].k; int id=m[i].first; if(m[i].second<2) continue;
    Poly sq; bool has=false;
    if(k==SQRT){ Poly p=pnode(N[id].a); if(N[id].na) for(auto&t:p) t.second=-t.second; sq=p; has=true; }
    else if(k==UF&&Nm[N[id].fn]=="sin"&&cosOf(id)>=0){ int co=cosOf(id); sq[Mono()]=1; sq[Mono{{co,2}}]=-1; has=true; }
    else if(substEq->count(id)){ sq=substEq->at(id); has=true; }
    if(!has) continue;
    Mono rest=m; rest[i].second-=2; if(rest[i].second==0) rest.erase(rest.begin()+i);
    Poly a; a[rest]=c; return pmul(a,sq); }
  Poly r; r[m]=c; return r; }
static Poly pnode(int root){
  std::vector<int> st{root};
  while(!st.empty()){ int i=st.back(); if(PM->count(i)){st.pop_back();continue;} Node n=N[i]; bool ok=true;
    if(n.k==ADD||n.k==MUL){ if(!PM->count(n.a)){st.push_back(n.a);ok=false;} if(!PM->count(n.b)){st.push_back(n.b);ok=false;} }
    if(!ok) continue;
    Poly r; switch(n.k){ case CONST: if(Q[n.q]!=0) r[Mono()]=Q[n.q]; break; case ADD: r=padd(PM->at(n.a),PM->at(n.b),n.na,n.nb); break; case MUL: r=pmul(PM->at(n.a),PM->at(n.b)); break; default: r[Mono{{i,1}}]=1; }
    PM->emplace(i,std::move(r)); st.pop_back(); }
  return PM->at(root); }
// reduced polynomial of a term after clearing INV atoms; true when it vanishes
static bool clearInv(Poly&p){ // multiply by the denominators until no INV atom is left
  for(int it=0;it<200;it++){
    int best=-1,be=0; for(auto&t:p) for(auto&x:t.first) if(N[x.first].k==INV&&x.first>best){best=x.first;} if(best<0) return true;
    for(auto&t:p) for(auto&x:t.first) if(x.first==best) be=std::max(be,x.second);
    Poly y=pnode(N[best].a); std::vector<Poly> pw{Poly()}; pw[0][Mono()]=1; for(int e=1;e<=be;e++) pw.push_back(pmul(pw.back(),y));
    Poly r; for(auto&t:p){ int e=0; Mono m; for(auto&x:t.first){ if(x.first==best) e=x.second; else m.push_back(x);} Poly s; s[m]=t.second; Poly u=pmul(s,pw[be-e]); r=padd(r,u,false,false); }
    p=r; }
  return false; }
static z3::expr zpoly(const Poly&p){ z3::expr_vector v(*Z); v.push_back(Z->real_val(0)); for(auto&t:p){ z3::expr e=zc(t.second); for(auto&x:t.first) for(int k=0;k<x.second;k++) e=e*zt(x.first); v.push_back(e);} return z3::sum(v); }

// ------------------------------------------------------------ equal arguments: one atom (decided by the polynomial identity of the arguments)
struct Sw { K k; int fn; Ref x,y,val; LD sx,sy; };
static std::vector<Sw> SW; static Sample*SigS=nullptr; static bool sweepOn=true; static long sweepN=0;
static LD sigOf(Ref r){ if(!SigS) SigS=new Sample(); std::mt19937_64 keep=rng; LD v=evalR(*SigS,r); rng=keep; rng.discard(1); return v; }
static bool polyEq(Ref a,Ref b){ if(a.id==b.id&&a.neg==b.neg) return true; Ref d=mkadd(a,neg(b)); if(isC(d)) return isZero(d); size_t keep=polyBudget; polyBudget=60000; bool ok=false; try{ if(!PM) PM=new std::unordered_map<int,Poly>(); Poly p=pnode(d.id); if(clearInv(p)) ok=p.empty(); }catch(Blow&){ PM->clear(); } polyBudget=keep; return ok; }
static bool sweep(K k,int fn,Ref x,Ref y,Ref&out){
  if(!sweepOn||SW.empty()) return false; bool any=false; for(auto&e:SW) if(e.k==k&&e.fn==fn) {any=true;break;} if(!any) return false;
  LD a=sigOf(x),b=k==UF?sigOf(y):0; if(std::isnan((double)a)||std::isnan((double)b)) return false;
  for(size_t i=SW.size();i-->0;){ Sw e=SW[i]; if(e.k!=k||e.fn!=fn) continue; 
    if(fabsl(e.sx-a)<1e-11L*(1+fabsl(a))&&fabsl(e.sy-b)<1e-11L*(1+fabsl(b))){ if(polyEq(x,e.x)&&(k!=UF||polyEq(y,e.y))){ sweepN++; out=e.val; return true; } }
    else if(k==UF&&fabsl(e.sx+a)<1e-11L*(1+fabsl(a))&&fabsl(e.sy-b)<1e-11L*(1+fabsl(b))){ const std::string&f=Nm[fn]; if(f=="sin"||f=="cos"){ if(polyEq(neg(x),e.x)){ sweepN++; out=f=="sin"?neg(e.val):e.val; return true; } } } }
  return false; }
static void sweep_add(K k,int fn,Ref x,Ref y,Ref val){ if(!sweepOn||SW.size()>4000) return; LD a=sigOf(x),b=k==UF?sigOf(y):0; if(std::isnan((double)a)||std::isnan((double)b)) return; SW.push_back({k,fn,x,y,val,a,b}); }
// every sum and product: merged with an earlier term of the same value at sample points when the two
// are proved equal as polynomials in the subterms a few levels below
static Poly cutpoly(int root,std::unordered_map<int,int>&dist,int d,std::unordered_map<int,Poly>&memo,size_t bud){
  std::vector<int> st{root};
  while(!st.empty()){ int i=st.back(); if(memo.count(i)){st.pop_back();continue;} Node n=N[i]; bool leaf=!(n.k==ADD||n.k==MUL)||dist[i]>=d; bool ok=true;
    if(!leaf){ if(!memo.count(n.a)){st.push_back(n.a);ok=false;} if(!memo.count(n.b)){st.push_back(n.b);ok=false;} }
    if(!ok) continue; Poly r;
    if(n.k==CONST){ if(Q[n.q]!=0) r[Mono()]=Q[n.q]; } else if(leaf) r[Mono{{i,1}}]=1; else if(n.k==ADD) r=padd(memo[n.a],memo[n.b],n.na,n.nb); else { if(memo[n.a].size()*memo[n.b].size()>bud*4) throw Blow(); r=pmul(memo[n.a],memo[n.b]); }
    if(r.size()>bud) throw Blow(); memo.emplace(i,std::move(r)); st.pop_back(); }
  return memo[root]; }
static bool cutEq(int a,int b,bool ng){
  if(!PM) PM=new std::unordered_map<int,Poly>();
  for(int d:{2,3,5,8,14,40}){ std::unordered_map<int,int> dist; std::vector<int> q{a,b}; dist[a]=0; dist[b]=0; bool more=false; for(size_t h=0;h<q.size();h++){ int i=q[h],di=dist[i]; if(di>=d){ if(N[i].k==ADD||N[i].k==MUL) more=true; continue; } Node&n=N[i]; if(n.k==ADD||n.k==MUL){ for(int c:{n.a,n.b}) if(!dist.count(c)){ dist[c]=di+1; q.push_back(c);} } }
    try{ std::unordered_map<int,Poly> memo; Poly p=cutpoly(a,dist,d,memo,1500),r=cutpoly(b,dist,d,memo,1500); if(padd(p,r,false,!ng).empty()) return true; }catch(Blow&){ PM->clear(); return false; }
    if(!more) break; }
  return false; }
static std::unordered_map<long long,std::vector<int>> DeepT; static std::unordered_map<int,Ref> DeepMap; static Sample*SigS2=nullptr; static long deepN=0,deepTry=0;
static long long qkey(LD v){ int e; LD m=frexpl(fabsl(v),&e); return (long long)(m*(1ll<<36))*2048+(e&2047); }
static Ref deep(int id,int before){
  auto it=DeepMap.find(id); if(it!=DeepMap.end()) return it->second; if(id<before) return Ref{id,false};
  if(!SigS) SigS=new Sample(); if(!SigS2) SigS2=new Sample();
  LD v=evalN(*SigS,id),w=evalN(*SigS2,id); if(std::isnan((double)v)||std::isnan((double)w)||fabsl(v)<1e-9L) return Ref{id,false};
  long long k=qkey(v);
  for(long long kk:{k,k+2048,k-2048}){ auto f=DeepT.find(kk); if(f==DeepT.end()) continue; int tries=0; for(int c:f->second){ LD cv=evalN(*SigS,c),cw=evalN(*SigS2,c); bool ng=(cv<0)!=(v<0); if(fabsl((ng?-cv:cv)-v)>1e-13L*fabsl(v)+1e-15L||fabsl((ng?-cw:cw)-w)>1e-12L*(fabsl(w)+1e-3L)) continue; if(tries++>2) break; deepTry++;
      if(cutEq(id,c,ng)){ deepN++; DeepMap[id]=Ref{c,ng}; return Ref{c,ng}; } } }
  DeepT[k].push_back(id); return Ref{id,false}; }
static std::string show(Ref r,int d){ Node&n=N[r.id]; std::string s=r.neg?"-":""; switch(n.k){ case CONST: return s+Q[n.q].get_str(); case VAR: return s+Vars[VarIdx[r.id]].name; default: break; } if(d==0) return s+"#"+std::to_string(r.id); auto A=[&]{return show(Ref{n.a,n.na},d-1);}; auto B=[&]{return show(Ref{n.b,n.nb},d-1);}; switch(n.k){ case ADD: return s+"("+A()+" + "+B()+")"; case MUL: return s+A()+"*"+B(); case INV: return s+"1/"+A(); case SQRT: return s+"sqrt("+A()+")"; default: return s+Nm[n.fn]+"("+A()+")"; } }
// ------------------------------------------------------------ obligations
static std::set<std::string> failedLabels; static int failCount=0; static std::map<std::string,int> labelSeen;
static void ensurePool(){ 
  while(Pool.size()<6){ bool ok=false; for(int t=0;t<400&&!ok;t++){ Sample*s=new Sample(); ok=true; for(auto&c:PC) if(!condHolds(*s,c)){ok=false;break;} if(ok) Pool.push_back(s); else delete s; } if(!ok) break; } 
  // drop samples invalidated by later conditions
  for(size_t i=0;i<Pool.size();){ bool ok=true; for(auto&c:PC) if(!condHolds(*Pool[i],c)){ok=false;break;} if(ok) i++; else { Pool.erase(Pool.begin()+i);} }
}
static int cexno=0;
static void writeCex(const std::string&label,Sample&S,LD lhs,LD rhs){
  SH->cex++; char f[512]; snprintf(f,512,"%s/cex_%d_%d.txt",cexdir?cexdir:"/tmp",getpid(),cexno++);
  FILE*o=fopen(f,"w"); if(!o) return; fprintf(o,"label %s\nlhs %.17g\nrhs %.17g\n",label.c_str(),(double)lhs,(double)rhs);
  for(auto&v:Vars){ if(v.name=="pi") continue; double x; auto it=S.v.find(v.id); if(it!=S.v.end()) x=it->second; else { evalN(S,v.id); x=S.v[v.id]; } fprintf(o,"var %s %.17g\n",v.name.c_str(),x); }
  fclose(o); emit("CEX %s %s %.17g %.17g\n",f,label.c_str(),(double)lhs,(double)rhs);
}
static const char*lab(const char*l){ static char b[4][256]; static int k=0; char*o=b[k++&3]; size_t i=0; for(;l[i]&&i<255;i++) o[i]=(l[i]==' '||l[i]=='\t')?'_':l[i]; o[i]=0; return o; }
static void debugAtoms(int root){ std::set<int> a,v; cone({root},a,v); for(int i:a) fprintf(stderr,"  atom %d sig %.12Lg %s\n",i,evalN(*SigS,i),show(Ref{i,false},4).c_str()); fprintf(stderr," root %s\n deep %ld tries %ld sweep %ld\n",show(Ref{root,false},9).c_str(),deepN,deepTry,sweepN); }
static pid_t rootpid; static void endline(int rc);
static void nonfinite(const char*why){ // the code divides by zero (or computes with inf/nan) on this path: a candidate for the native replay
  static int in=0; if(in++) die("%s",why); if(getenv("SX_DEBUG")){ void*bt[12]; int n=backtrace(bt,12); backtrace_symbols_fd(bt,n,2); }
  Sample*s=nullptr; for(auto*p:Pool) { s=p; break; } if(!s&&!PC.empty()){ std::unordered_map<int,double> m; std::vector<Cond> g(PC); Res r=ask(g,false,false,timeout_ms,&m); if(r==UNSAT){ emit("INFEASIBLE\n"); if(getpid()==rootpid) endline(0); _exit(0);} s=new Sample(); for(auto&kv:m) s->v[kv.first]=kv.second; } if(!s) s=new Sample();
  writeCex(lab(why),*s,0,0); emit("Q %s sat path\n",lab(why)); failCount++; if(getpid()==rootpid) endline(0); _exit(0); }
static void prove(Ref a,Ref b,Rel rel,const char*label0){ const char*label=lab(label0);
  // claim: a==b (EQ) / a<=b / a<b ; negation handed to the solver
  Ref d=mkadd(a,neg(b)); labelSeen[label]++;
  Cond ng; if(rel==EQ) ng={d,NE,false}; else if(rel==LE) ng={neg(d),LT,false}; else ng={neg(d),LE,false};
  // 1. look for a candidate counterexample among sample points
  ensurePool();
  for(auto*s:Pool){ LD va=evalR(*s,a),vb=evalR(*s,b); LD sc=1+fabsl(va)+fabsl(vb); bool bad=false;
    if(rel==EQ) bad=fabsl(va-vb)>1e-9L*sc; else if(rel==LE) bad=va-vb>1e-9L*sc; else bad=va-vb>=1e-12L*sc; if(std::isnan((double)va)||std::isnan((double)vb)) bad=false;
    if(bad){ // the solver confirms the candidate: all variables fixed to it
      std::set<int> at,vs; cone({d.id},at,vs); z3::expr_vector as(*Z); as.push_back(zcond(ng)); for(int v:vs) if(Vars[VarIdx[v]].name!="pi") as.push_back(zt(v)==zc(dexact((double)evalN(*s,v)))); axioms(at,vs,as);
      Res r=zcheck(as,8000,nullptr,&vs); emit("Q %s %s cand\n",label,r==SAT?"sat":r==UNSAT?"unsat":"unknown");
      if(r==UNSAT){ SH->undecided++; emit("UNDECIDED %s numeric-candidate-refuted\n",label); continue; }
      writeCex(label,*s,va,vb); if(++failCount>25) { emit("TOOMANY\n"); _exit(9);} return; } }
  if(getenv("SX_DEBUG")&&!isC(d)){ fprintf(stderr,"prove %s\n",label); debugAtoms(d.id); }
  // 2. the solver on the negated claim
  double t0=now(); Res r=UNK; std::unordered_map<int,double> model; const char*how="z3";
  std::set<int> at,vs; cone({d.id},at,vs); size_t cs=0; (void)cs;
  if(at.empty()) r=ask({ng},false,false,timeout_ms/3,nullptr);
  else r=ask({ng},false,false,std::min(timeout_ms/6,3000),nullptr);
  if(r!=UNSAT){ // algebraic preprocessing: atoms reduced (r^2=x, sin^2=1-cos^2, denominators cleared), then the solver again
    try{ if(!PM) PM=new std::unordered_map<int,Poly>(); if(rel==EQ){ Poly p=pnode(d.id); if(clearInv(p)){ 
          z3::expr_vector as(*Z); as.push_back(zpoly(p)!=Z->real_val(0)); std::set<int> v2; Res r2=zcheck(as,5000,nullptr,nullptr); if(r2==UNSAT){ r=UNSAT; how="z3+reduce"; } } } }catch(Blow&){ PM->clear(); }
  }
  if(r!=UNSAT){ r=ask({ng},true,false,timeout_ms,&model); how="z3+path"; 
    if(r==SAT){ // validate the model numerically against the whole path
      Sample*s=new Sample(); for(auto&kv:model) s->v[kv.first]=kv.second; LD va=evalR(*s,a),vb=evalR(*s,b); bool ok=true; for(auto&c:PC) if(!condHolds(*s,c)) ok=false; LD sc=1+fabsl(va)+fabsl(vb);
      bool bad=rel==EQ?fabsl(va-vb)>1e-12L*sc:rel==LE?va>vb:va>=vb;
      if(ok&&bad){ emit("Q %s sat model\n",label); writeCex(label,*s,va,vb); failCount++; return; }
      if(!ok){ model.clear(); Res r3=ask({ng},true,true,timeout_ms,&model); if(r3==UNSAT){ emit("Q %s unsat z3+allpath %.3f\n",label,now()-t0); return; } }
      if(getenv("SX_DEBUG")){ fprintf(stderr,"NOTVAL %s va %.17Lg vb %.17Lg ok %d bad %d\n",label,va,vb,ok,bad); for(auto&c:PC) fprintf(stderr,"   PC rel %d %s val %.17Lg holds %d\n",c.rel,show(c.d,6).c_str(),evalR(*s,c.d),condHolds(*s,c)); }
      r=UNK; how="model-not-validated"; } }
  emit("Q %s %s %s %.3f\n",label,r==UNSAT?"unsat":"unknown",how,now()-t0);
  if(r==UNK){ SH->undecided++; emit("UNDECIDED %s %s\n",label,how); }
}

// ------------------------------------------------------------ branching
static std::map<std::pair<int,int>,bool> decided;
static bool takeBranch(Cond c,bool val){ // record
  if(val) PC.push_back(c); else { Cond n=c; switch(c.rel){case LT:n.rel=LE;n.d=neg(c.d);break;case LE:n.rel=LT;n.d=neg(c.d);break;case EQ:n.rel=NE;break;case NE:n.rel=EQ;break;} n.def=false; PC.push_back(n);} return val; }
static Cond negc(Cond c){ Cond n=c; switch(c.rel){case LT:n.rel=LE;n.d=neg(c.d);break;case LE:n.rel=LT;n.d=neg(c.d);break;case EQ:n.rel=NE;break;case NE:n.rel=EQ;break;} return n; }
static void finishPath();
static int brTimeout=3000;
static bool branch(Cond c){
  // constants (possibly with pi / algebraic atoms)
  if(isC(c.d)){ mpq_class v=cval(c.d); switch(c.rel){case LT:return v<0;case LE:return v<=0;case EQ:return v==0;default:return v!=0;} }
  std::pair<int,int> key{c.d.id*2+c.d.neg,(int)c.rel}; auto it=decided.find(key); if(it!=decided.end()) return it->second;
  Cond nc=negc(c); std::pair<int,int> nkey{nc.d.id*2+nc.d.neg,(int)nc.rel};
  if(c.rel==LT||c.rel==LE){} 
  ensurePool(); bool t=false,f=false; for(auto*s:Pool){ LD v=evalR(*s,c.d); if(std::isnan((double)v)) continue; bool amb=fabsl(v)<1e-13L; if(amb){ continue; } if(condHolds(*s,c)) t=true; else f=true; }
  auto tryside=[&](Cond cc)->int{ // 1 feasible, 0 infeasible, 2 unknown
    std::unordered_map<int,double> m; Res r=ask({cc},false,false,brTimeout,nullptr); if(r==UNSAT) return 0;
    try{ if(!PM) PM=new std::unordered_map<int,Poly>(); Poly p=pnode(cc.d.id); if(clearInv(p)&&p.empty()){ if(cc.rel==LT||cc.rel==NE) return 0; return 1; } }catch(Blow&){ PM->clear(); }
    r=ask({cc},true,false,brTimeout,&m); if(r==UNSAT) return 0; if(r==SAT){ Sample*s=new Sample(); for(auto&kv:m) s->v[kv.first]=kv.second; bool ok=condHolds(*s,cc); for(auto&q:PC) if(!condHolds(*s,q)) ok=false; if(ok) {Pool.push_back(s);} else { delete s; std::unordered_map<int,double> m2; r=ask({cc},true,true,brTimeout,&m2); if(r==UNSAT) return 0; if(r==SAT){ s=new Sample(); for(auto&kv:m2) s->v[kv.first]=kv.second; ok=condHolds(*s,cc); for(auto&q:PC) if(!condHolds(*s,q)) ok=false; if(ok) Pool.push_back(s); else delete s; } } return 1; } return 2; };
  int ft=t?1:tryside(c), ff=f?1:tryside(nc);
  bool val;
  if(ft==0&&ff==0){ emit("INFEASIBLE\n"); SH->infeasible++; _exit(0); }
  if(ft==0) val=false; else if(ff==0) val=true;
  else {
    if(ft==2||ff==2) emit("NOTE undecided branch feasibility explored both ways\n");
    if(getenv("SX_DEBUG")) fprintf(stderr,"FORK rel %d %s sig %Lg\n",(int)c.rel,show(c.d,6).c_str(),SigS?evalR(*SigS,c.d):0);
    SH->forks++; if(SH->paths+SH->forks>maxPaths) die("path bound exceeded");
    fflush(stdout); fflush(stderr);
    pid_t p=fork(); if(p<0) die("fork"); if(p==0) prctl(PR_SET_PDEATHSIG,SIGKILL);
    if(p==0){ child=true; val=true; }
    else { int st; waitpid(p,&st,0); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ if(WIFEXITED(st)&&WEXITSTATUS(st)==9){ _exit(9);} emit("CHILDFAIL %d\n",st); _exit(5);} val=false; }
    decided[key]=val; decided[nkey]=!val; takeBranch(c,val); 
    return val;
  }
  SH->prunedbr++; decided[key]=val; decided[nkey]=!val; takeBranch(c,val); return val;
}

// ------------------------------------------------------------ runtime entry points
// SX_FOLD: operations on plain numbers are rounded as the machine rounds them (thread-independence runs only)
static const bool FOLD=getenv("SX_FOLD")!=nullptr;
extern "C" {
double sx_bin(int op,double a,double b){
  bool ba=isbox(a),bb=isbox(b);
  if(!ba&&!bb){
    if(FOLD) switch(op){case 0:return a+b;case 1:return a-b;case 2:return a*b;case 3:return a/b;default:return fmod(a,b);}
    if(std::isnan(a)||std::isnan(b)||std::isinf(a)||std::isinf(b)){ switch(op){case 0:return a+b;case 1:return a-b;case 2:return a*b;case 3:return a/b;default:return fmod(a,b);} }
    if(op==4) return fmod(a,b);
    if(simpleDyadic(a)&&simpleDyadic(b)){
      if(op==0||op==1){ double r=op==0?a+b:a-b; if(simpleDyadic(r)){ double bv=r-a; double e=(a-(r-bv))+((op==0?b:-b)-bv); if(e==0) return r; } }
      else if(op==2){ double r=a*b; if(fma(a,b,-r)==0) return r; }
      else { if(b==0) return a/b; double r=a/b; if(fma(r,b,-a)==0&&simpleDyadic(r)) return r; }
    }
    if(op==3&&b==0) return a/b;
  }
  if(op==2){ if(!ba&&a==0) return 0; if(!bb&&b==0) return 0; if(!ba&&a==1) return b; if(!bb&&b==1) return a; }
  if(op==0){ if(!ba&&a==0) return b; if(!bb&&b==0) return a; }
  if(op==1){ if(!bb&&b==0) return a; }
  if(op==3&&!bb&&b==1) return a;
  Ref x=toR(a),y=toR(b);
  switch(op){
    case 0: return outR(mkadd(x,y));
    case 1: return outR(mkadd(x,neg(y)));
    case 2: return outR(mkmul(x,y));
    case 3: if(isZero(x)) { if(!isC(y)) mkinv(y); return 0; } return outR(mkmul(x,mkinv(y)));
    default: die("fmod on symbolic"); }
  return 0;
}
float sx_fptrunc(double d){
  if(!isbox(d)) return (float)d;
  Ref r=unbox(d); if(r.id+1>=(1<<22)) die("float handle overflow");
  uint32_t u=0x7FC00000u|(uint32_t)(r.id+1)|(r.neg?0x80000000u:0); float f; memcpy(&f,&u,4); return f; }
double sx_fpext(float f){ uint32_t u; memcpy(&u,&f,4); if((u&0x7FC00000u)==0x7FC00000u&&(u&0x3FFFFF)){ return box(Ref{(int)((u&0x3FFFFF)-1),(bool)(u>>31)}); } return (double)f; }
// llvm.is.fpclass: 3 nan, 4 -inf, 8 -normal, 16 -sub, 32 -0, 64 +0, 128 +sub, 256 +normal, 512 +inf.  Boxed values are finite reals.
int sx_cmp(int p,double a,double b);
int sx_fpclass(double a,int m){
  if(!isbox(a)){ int c=std::isnan(a)?3:std::isinf(a)?(a<0?4:512):a==0?(std::signbit(a)?32:64):std::isnormal(a)?(a<0?8:256):(a<0?16:128); return (c&m)!=0; }
  int n=m&(8|16),p=m&(128|256),z=m&(32|64); if(!(m&(8|16|32|64|128|256))) return 0; if((n&&n!=24)||(p&&p!=384)||(z&&z!=96)) die("unsupported floating point class test");
  if(n&&p&&z) return 1; if(n&&p) return sx_cmp(6,a,0); if(n&&z) return sx_cmp(5,a,0); if(p&&z) return sx_cmp(3,a,0); if(n) return sx_cmp(4,a,0); if(p) return sx_cmp(2,a,0); return sx_cmp(1,a,0); }
// predicates as in llvm::CmpInst
int sx_cmp(int p,double a,double b){
  bool ba=isbox(a),bb=isbox(b);
  if(!ba&&!bb){ bool un=std::isnan(a)||std::isnan(b); switch(p){case 1:return !un&&a==b;case 2:return a>b;case 3:return a>=b;case 4:return a<b;case 5:return a<=b;case 6:return !un&&a!=b;case 7:return !un;case 8:return un;case 9:return un||a==b;case 10:return un||a>b;case 11:return un||a>=b;case 12:return un||a<b;case 13:return un||a<=b;case 14:return un||a!=b;case 15:return 1;default:return 0;} }
  if((!ba&&std::isnan(a))||(!bb&&std::isnan(b))) return p>=8; 
  if(!ba&&std::isinf(a)){ bool lt=a<0; switch(p&7){case 1:return 0;case 2:case 3:return !lt;case 4:case 5:return lt;case 6:return 1;case 7:return p==7||p==15;default:return 0;} }
  if(!bb&&std::isinf(b)){ bool lt=b>0; switch(p&7){case 1:return 0;case 2:case 3:return !lt;case 4:case 5:return lt;case 6:return 1;case 7:return p==7||p==15;default:return 0;} }
  if(p==7) return 1; if(p==8) return 0; if(p==15) return 1; if(p==0) return 0;
  Ref d=mkadd(toR(a),neg(toR(b)));
  switch(p&7){
    case 1: return branch({d,EQ,false});
    case 2: return branch({neg(d),LT,false});
    case 3: return branch({neg(d),LE,false});
    case 4: return branch({d,LT,false});
    case 5: return branch({d,LE,false});
    case 6: return branch({d,NE,false}); }
  return 0;
}
double sx_fabs(double a){ if(!isbox(a)) return fabs(a); Ref r=unbox(a); Ref c=r; c.neg=false; if(isC(r)) return outR(c);
  if(N[r.id].k==SQRT) return box(c);
  return branch({r,LT,false})?box(neg(r)):a; }
double sx_sqrt(double a){ if(!isbox(a)){ if(FOLD) return sqrt(a); if(a<0||std::isnan(a)) return sqrt(a); double r=sqrt(a); if(simpleDyadic(a)&&r*r==a&&simpleDyadic(r)) return r; } return outR(mksqrt(toR(a))); }
static bool piMultiple(Ref r,mpq_class&q){ if(isC(r)){ if(isZero(r)){q=0;return true;} return false; } if(r.id==ref_pi){ q=r.neg?-1:1; return true;} Node&n=N[r.id]; if(n.k==MUL&&N[n.a].k==CONST&&n.b==ref_pi){ q=Q[N[n.a].q]; if(r.neg) q=-q; return true;} return false; }
static bool trigTable(mpq_class q,bool sine,Ref&out){ // sin/cos(q*pi)
  if(!sine) q+=mpq_class(1,2); // cos x = sin(x+pi/2)
  mpz_class two=2; mpz_class fl; mpq_class h=q/2; mpz_fdiv_q(fl.get_mpz_t(),h.get_num_mpz_t(),h.get_den_mpz_t()); q-=mpq_class(2*fl);
  bool ng=false; if(q>=1){ q-=1; ng=true; } if(q>mpq_class(1,2)) q=1-q;
  Ref r; mpq_class half(1,2);
  if(q==0) r=mkconst(0); else if(q==half) r=mkconst(1); else if(q==mpq_class(1,6)) r=mkconst(half); else if(q==mpq_class(1,4)) r=mkmul(mkconst(half),mksqrt(mkconst(2))); else if(q==mpq_class(1,3)) r=mkmul(mkconst(half),mksqrt(mkconst(3)));
  else if(q==mpq_class(1,8)) r=mkmul(mkconst(half),mksqrt(mkadd(mkconst(2),neg(mksqrt(mkconst(2)))))); else if(q==mpq_class(3,8)) r=mkmul(mkconst(half),mksqrt(mkadd(mkconst(2),mksqrt(mkconst(2)))));
  else if(q==mpq_class(1,12)) r=mkmul(mkconst(mpq_class(1,4)),mkadd(mksqrt(mkconst(6)),neg(mksqrt(mkconst(2))))); else if(q==mpq_class(5,12)) r=mkmul(mkconst(mpq_class(1,4)),mkadd(mksqrt(mkconst(6)),mksqrt(mkconst(2))));
  else if(q==mpq_class(1,10)) r=mkmul(mkconst(mpq_class(1,4)),mkadd(mksqrt(mkconst(5)),mkconst(-1))); else if(q==mpq_class(3,10)) r=mkmul(mkconst(mpq_class(1,4)),mkadd(mksqrt(mkconst(5)),mkconst(1)));
  else if(q==mpq_class(1,5)) r=mkmul(mkconst(mpq_class(1,4)),mksqrt(mkadd(mkconst(10),neg(mkmul(mkconst(2),mksqrt(mkconst(5))))))); else if(q==mpq_class(2,5)) r=mkmul(mkconst(mpq_class(1,4)),mksqrt(mkadd(mkconst(10),mkmul(mkconst(2),mksqrt(mkconst(5))))));
  else return false;
  out=ng?neg(r):r; return true; }
static double trig(bool sine,double a){
  if(!isbox(a)&&a==0) return sine?0:1;
  if(FOLD&&!isbox(a)) return sine?sin(a):cos(a);
  Ref r=toR(a); mpq_class q; Ref o;
  if(piMultiple(r,q)&&trigTable(q,sine,o)) return outR(o);
  // even/odd normalisation: strip the sign
  Ref p=r; p.neg=false; 
  if(N[p.id].k==UF&&Nm[N[p.id].fn]=="acos"&&!r.neg){ Ref x{N[p.id].a,N[p.id].na}; if(!sine) return outR(x); return outR(mksqrt(mkadd(mkconst(1),neg(mkmul(x,x))))); }
  if(N[p.id].k==UF&&Nm[N[p.id].fn]=="atan2"){ Ref y{N[p.id].a,N[p.id].na},x{N[p.id].b,N[p.id].nb}; Ref h=mkinv(mksqrt(mkadd(mkmul(x,x),mkmul(y,y)))); Ref v=mkmul(sine?y:x,h); if(sine&&r.neg) v=neg(v); return outR(v); }
  // make both atoms exist so that sin^2+cos^2=1 is available
  Ref s=mkuf("sin",p),c=mkuf("cos",p);
  if(sine) return box(r.neg?neg(s):s); return box(c); }
double sx_sin(double a){ return trig(true,a); }
double sx_cos(double a){ return trig(false,a); }
float sx_sinf(float a){ return sx_fptrunc(trig(true,sx_fpext(a))); }
float sx_cosf(float a){ return sx_fptrunc(trig(false,sx_fpext(a))); }
float sx_sqrtf(float a){ return sx_fptrunc(sx_sqrt(sx_fpext(a))); }
float sx_fabsf(float a){ return sx_fptrunc(sx_fabs(sx_fpext(a))); }
void sx_sincos(double a,double*s,double*c){ *s=trig(true,a); *c=trig(false,a); }
static double un(const char*f,double a,double conc){ if(FOLD&&!isbox(a)) return !strcmp(f,"asin")?asin(a):!strcmp(f,"acos")?acos(a):!strcmp(f,"exp")?exp(a):!strcmp(f,"log")?log(a):conc; if(!isbox(a)&&std::isfinite(conc)&&simpleDyadic(conc)&&simpleDyadic(a)&&(a==0||a==1)&&(conc==floor(conc))) return conc; return box(mkuf(f,toR(a))); }
double sx_tan(double a){ return sx_bin(3,sx_sin(a),sx_cos(a)); }
double sx_asin(double a){ return un("asin",a,asin(a)); }
double sx_acos(double a){ if(FOLD&&!isbox(a)) return acos(a); if(!isbox(a)){ if(a==1) return 0; if(a==0) return outR(mkmul(mkconst(mpq_class(1,2)),pi_ref())); if(a==-1) return outR(pi_ref()); } return un("acos",a,NAN); }
double sx_atan(double a){ if(FOLD&&!isbox(a)) return atan(a); if(!isbox(a)&&a==0) return 0; return box(mkuf("atan",toR(a))); }
double sx_atan2(double y,double x){ if(FOLD&&!isbox(y)&&!isbox(x)) return atan2(y,x); if(!isbox(y)&&!isbox(x)){ if(y==0) return x>=0?0:outR(pi_ref()); if(x==0) return outR(mkmul(mkconst(y>0?mpq_class(1,2):mpq_class(-1,2)),pi_ref())); } Ref a=toR(y),b=toR(x); 
  // atan2(-y,x) = -atan2(y,x)
  if(a.neg) return box(neg(mkuf("atan2",neg(a),b))); return box(mkuf("atan2",a,b)); }
double sx_exp(double a){ return un("exp",a,a==0?1:NAN); }
double sx_log(double a){ return un("log",a,a==1?0:NAN); }
double sx_log2(double a){ if(!isbox(a)) return log2(a); return box(mkuf("log2",toR(a))); }
double sx_log10(double a){ if(!isbox(a)) return log10(a); return box(mkuf("log10",toR(a))); }
double sx_cbrt(double a){ if(!isbox(a)) return cbrt(a); return box(mkuf("cbrt",toR(a))); }
double sx_tanh(double a){ if(!isbox(a)) return tanh(a); return box(mkuf("tanh",toR(a))); }
double sx_sinh(double a){ if(!isbox(a)) return sinh(a); return box(mkuf("sinh",toR(a))); }
double sx_cosh(double a){ if(!isbox(a)) return cosh(a); return box(mkuf("cosh",toR(a))); }
double sx_pow(double a,double b){
  if(FOLD&&!isbox(a)&&!isbox(b)) return pow(a,b);
  if(!isbox(b)&&b==floor(b)&&fabs(b)<=64){ int n=(int)fabs(b); Ref r=mkconst(1),x=toR(a); for(int i=0;i<n;i++) r=mkmul(r,x); if(b<0) r=mkinv(r); return outR(r); }
  if(!isbox(b)&&b==0.5) return sx_sqrt(a);
  return box(mkuf("pow",toR(a),toR(b))); }
double sx_hypot(double a,double b){ return sx_sqrt(sx_bin(0,sx_bin(2,a,a),sx_bin(2,b,b))); }
double sx_floor(double a){ if(!isbox(a)) return floor(a); Ref r=unbox(a); if(isC(r)){ mpq_class q=cval(r); mpz_class z; mpz_fdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return z.get_d(); } return box(mkuf("floor",r)); }
double sx_ceil(double a){ if(!isbox(a)) return ceil(a); return -sx_floor(-a); }
double sx_round(double a){ if(!isbox(a)) return round(a); die("round on symbolic"); return 0; }
double sx_rint(double a){ if(!isbox(a)) return rint(a); die("rint on symbolic"); return 0; }
double sx_nearbyint(double a){ return sx_rint(a); }
double sx_trunc(double a){ if(!isbox(a)) return trunc(a); die("trunc on symbolic"); return 0; }
long sx_lround(double a){ if(!isbox(a)) return lround(a); die("lround on symbolic"); return 0; }
double sx_fmod(double a,double b){ if(!isbox(a)&&!isbox(b)) return fmod(a,b); die("fmod on symbolic"); return 0; }
double sx_fmin(double a,double b){ return sx_cmp(4,a,b)?a:b; }
double sx_fmax(double a,double b){ return sx_cmp(2,a,b)?a:b; }
double sx_ldexp(double a,int e){ return sx_bin(2,a,ldexp(1.0,e)); }
double sx_log1p(double a){ return sx_log(sx_bin(0,a,1)); }
double sx_expm1(double a){ return sx_bin(1,sx_exp(a),1); }
static LD numericConst(Ref r){ static Sample*s=nullptr; if(!s) s=new Sample(); return evalR(*s,r); }
static bool closed(Ref r){ std::set<int> a,v; cone({r.id},a,v); for(int x:v) if(Vars[VarIdx[x]].name!="pi") return false; return true; }
int64_t sx_fptosi(double a){ if(!isbox(a)) return (int64_t)a; Ref r=unbox(a); if(isC(r)){ mpq_class q=cval(r); mpz_class z=q.get_num()/q.get_den(); return z.get_si(); } if(closed(r)){ LD v=numericConst(r); LD e=v-roundl(v); if(fabsl(e)<1e-12L) return (int64_t)roundl(v); return (int64_t)v; } 
  // a symbolic value used as an integer: solver-decided case split over the feasible integers in a small window
  for(int64_t k=0;k<64;k++){ for(int sg=0;sg<2;sg++){ int64_t v=sg?-k:k; if(k==0&&sg) continue;
      // trunc semantics
      if(v>0){ if(sx_cmp(3,a,(double)v)&&sx_cmp(4,a,(double)v+1)) return v; }
      else if(v<0){ if(sx_cmp(5,a,(double)v)&&sx_cmp(2,a,(double)v-1)) return v; }
      else { if(sx_cmp(2,a,-1)&&sx_cmp(4,a,1)) return 0; } } }
  die("symbolic value used as an integer outside [-63,63]"); return 0; }
uint64_t sx_fptoui(double a){ return (uint64_t)sx_fptosi(a); }
struct cpx { double re,im; };
cpx sx___muldc3(double a,double b,double c,double d){ return {sx_bin(1,sx_bin(2,a,c),sx_bin(2,b,d)),sx_bin(0,sx_bin(2,a,d),sx_bin(2,b,c))}; }
cpx sx___divdc3(double a,double b,double c,double d){ if(!isbox(d)&&d==0) return {sx_bin(3,a,c),sx_bin(3,b,c)}; double n=sx_bin(0,sx_bin(2,c,c),sx_bin(2,d,d)); return {sx_bin(3,sx_bin(0,sx_bin(2,a,c),sx_bin(2,b,d)),n),sx_bin(3,sx_bin(1,sx_bin(2,b,c),sx_bin(2,a,d)),n)}; }
double sx_cabs(double a,double b){ return sx_sqrt(sx_bin(0,sx_bin(2,a,a),sx_bin(2,b,b))); }
double sx_carg(double a,double b){ return sx_atan2(b,a); }
double sx_creal(double a,double b){ return a; }
double sx_cimag(double a,double b){ return b; }
cpx sx_conj(double a,double b){ return {a,-b}; }
cpx sx_cexp(double a,double b){ double e=sx_exp(a); return {sx_bin(2,e,sx_cos(b)),sx_bin(2,e,sx_sin(b))}; }
cpx sx_clog(double a,double b){ return {sx_log(sx_cabs(a,b)),sx_carg(a,b)}; }
cpx sx_csqrt(double a,double b){ if(!isbox(b)&&b==0){ if(sx_cmp(3,a,0)) return {sx_sqrt(a),0}; return {0,sx_sqrt(-a)}; }
  double m=sx_cabs(a,b); double re=sx_sqrt(sx_bin(3,sx_bin(0,m,a),2)), im=sx_sqrt(sx_bin(3,sx_bin(1,m,a),2)); if(sx_cmp(4,b,0)) im=-im; return {re,im}; }
cpx sx_cpow(double a,double b,double c,double d){ if(!isbox(c)&&!isbox(d)&&d==0){ if(c==floor(c)&&fabs(c)<32){ cpx r={1,0}; for(int i=0;i<(int)fabs(c);i++) r=sx___muldc3(r.re,r.im,a,b); if(c<0) r=sx___divdc3(1,0,r.re,r.im); return r; }
    double th=sx_bin(2,c,sx_carg(a,b)),m=sx_pow(sx_cabs(a,b),c); return {sx_bin(2,m,sx_cos(th)),sx_bin(2,m,sx_sin(th))}; } die("cpow"); return {0,0}; }

// printf family: boxed doubles are printed as nan(0x..) which strtod/scanf restore
static int vform(std::string&out,const char*f,va_list ap){
  while(*f){ if(*f!='%'){ out+=*f++; continue; } if(f[1]=='%'){ out+='%'; f+=2; continue; }
    std::string sp="%"; f++; std::vector<int> stars; int nl=0; bool z=false;
    while(*f&&strchr("-+ #0123456789.'*hlzjtLq",*f)){ if(*f=='*'){ int v=va_arg(ap,int); sp+=std::to_string(v); } else { if(*f=='l'||*f=='q') nl++; if(*f=='z'||*f=='j'||*f=='t') z=true; sp+=*f; } f++; }
    char cv=*f++; sp+=cv; char b[8192];
    if(strchr("fFeEgGaA",cv)){ double d=va_arg(ap,double); if(isbox(d)){ uint64_t u; memcpy(&u,&d,8); snprintf(b,8192,"%snan(0x%llx)",(u>>63)?"-":"",(unsigned long long)(u&0x0007FFFFFFFFFFFFull)); } else snprintf(b,8192,sp.c_str(),d); }
    else if(strchr("di",cv)){ if(nl||z) snprintf(b,8192,sp.c_str(),va_arg(ap,long)); else snprintf(b,8192,sp.c_str(),va_arg(ap,int)); }
    else if(strchr("ouxX",cv)){ if(nl||z) snprintf(b,8192,sp.c_str(),va_arg(ap,unsigned long)); else snprintf(b,8192,sp.c_str(),va_arg(ap,unsigned)); }
    else if(cv=='c') snprintf(b,8192,sp.c_str(),va_arg(ap,int));
    else if(cv=='s'){ const char*s=va_arg(ap,char*); std::string t; if(sp=="%s"){ out+=s?s:"(null)"; continue; } snprintf(b,8192,sp.c_str(),s); }
    else if(cv=='p') snprintf(b,8192,sp.c_str(),va_arg(ap,void*));
    else die("printf conversion %s",sp.c_str());
    out+=b; }
  return (int)out.size(); }
int sx_printf(const char*f,...){ va_list a; va_start(a,f); std::string s; vform(s,f,a); va_end(a); if(getenv("SX_QUIET")==0) fwrite(s.data(),1,s.size(),stdout); return s.size(); }
int sx_fprintf(FILE*o,const char*f,...){ va_list a; va_start(a,f); std::string s; vform(s,f,a); va_end(a); if((o==stdout||o==stderr)&&getenv("SX_QUIET")) return s.size(); fwrite(s.data(),1,s.size(),o); return s.size(); }
int sx_sprintf(char*b,const char*f,...){ va_list a; va_start(a,f); std::string s; vform(s,f,a); va_end(a); memcpy(b,s.c_str(),s.size()+1); return s.size(); }
int sx_snprintf(char*b,size_t n,const char*f,...){ va_list a; va_start(a,f); std::string s; vform(s,f,a); va_end(a); if(n){ size_t k=std::min(n-1,s.size()); memcpy(b,s.data(),k); b[k]=0; } return s.size(); }

void sx_unsupported(const char*t){ die("operation outside the encoding: %s",t); }
void sx_enter(char*flag,const char*name){ if(*flag) return; *flag=1; emit("FN %s\n",name); }
// ---- harness API
double sx_var_range(const char*name,double lo,double hi){ Node n; n.k=VAR; int id=addnode(n); VarIdx[id]=(int)Vars.size(); Vars.push_back({name,lo,hi,true,id}); for(auto*s:Pool){ s->memo.resize(N.size()); s->have.resize(N.size(),0);} return box(Ref{id,false}); }
double sx_var(const char*name){ Node n; n.k=VAR; int id=addnode(n); VarIdx[id]=(int)Vars.size(); Vars.push_back({name,-2,2,false,id}); return box(Ref{id,false}); }
static void assume(double a,double b,Rel r){ Ref d=mkadd(toR(a),neg(toR(b))); if(isC(d)){ mpq_class v=cval(d); bool ok=r==LE?v<=0:r==LT?v<0:r==EQ?v==0:v!=0; if(!ok){ emit("ASSUME-FALSE\n"); _exit(0);} return; } PC.push_back({d,r,false}); }
void sx_assume_le(double a,double b){ assume(a,b,LE); }
void sx_assume_lt(double a,double b){ assume(a,b,LT); }
void sx_assume_ne(double a,double b){ assume(a,b,NE); }
void sx_assume_eq(double a,double b){ assume(a,b,EQ); }
void sx_prove_eq(double a,double b,const char*l0){ const char*l=lab(l0); if((!isbox(a)&&std::isnan(a))||(!isbox(b)&&std::isnan(b))||std::isinf(a)||std::isinf(b)){ if(!(std::isinf(a)&&a==b)){ ensurePool(); Sample*s=Pool.size()?Pool[0]:new Sample(); writeCex(l,*s,a,b);} return; } prove(toR(a),toR(b),EQ,l); }
void sx_prove_le(double a,double b,const char*l){ prove(toR(a),toR(b),LE,l); }
void sx_prove_lt(double a,double b,const char*l){ prove(toR(a),toR(b),LT,l); }
void sx_prove_true(int c,const char*l0){ const char*l=lab(l0); // the claim is concrete on this path; the solver decides whether the path is reachable
  labelSeen[l]++; if(c){ emit("Q %s unsat path-concrete 0\n",l); SH->trivially++; return; }
  ensurePool(); Sample*s=Pool.size()?Pool[0]:nullptr;
  if(!s){ std::unordered_map<int,double> m; std::vector<Cond> g(PC); if(g.empty()){ s=new Sample(); } else { Res r=ask(g,false,false,timeout_ms,&m); if(r==UNSAT){ emit("Q %s unsat path-infeasible 0\n",l); return; } s=new Sample(); for(auto&kv:m) s->v[kv.first]=kv.second; } }
  writeCex(l,*s,c,1); failCount++; }
double sx_cut(double v,const char*name){ return isbox(v)?sx_var(name):v; }
int sx_is_symbolic(double v){ return isbox(v); }
int sx_same(double a,double b){ return memcmp(&a,&b,8)==0; }
double sx_uf(const char*n,double a){ return box(mkuf(n,toR(a))); }
double sx_pi(void){ if(FOLD) return M_PI; return box(pi_ref()); }
double sx_numeric(double v){ if(!isbox(v)) return v; ensurePool(); if(Pool.empty()) Pool.push_back(new Sample()); return (double)evalR(*Pool[0],unbox(v)); }
void sx_note(const char*f,...){ char b[1024]; va_list a; va_start(a,f); std::string s; vform(s,f,a); va_end(a); snprintf(b,1024,"NOTE %s\n",s.c_str()); emit("%s",b); }
// a mathematical fact stated by the harness: f(x[,y]) = v (checked numerically here); used when the code's argument is proved equal to x
void sx_hint(const char*f,double x,double y,double v){ Ref a=toR(x),b=toR(y),r=toR(v); K k=strcmp(f,"sqrt")?UF:SQRT; ensurePool(); for(auto*s:Pool){ LD p=evalR(*s,a),q=evalR(*s,b),w=evalR(*s,r); LD t=k==SQRT?sqrtl(p):uf_num(f,p,q); if(std::isnan((double)t)) continue; if(fabsl(t-w)>1e-9L*(1+fabsl(w))) die("hint %s is not a fact: %Lg vs %Lg",f,t,w); } sweep_add(k,k==UF?fnid(f):0,a,k==UF?b:Ref{0,false},r); }
void sx_sweep(int on){ deepOn=on; }
void sx_set_timeout(int ms){ timeout_ms=ms; }
void sx_set_proof_hint(int h){ (void)h; }
void sx_require_paths(int n){ (void)n; }
int sx_replaying(void){ return 0; }
extern int harness(int argc,char**argv);
}
static void finishPath(){ SH->paths++; ensurePool(); if(!Pool.empty()) SH->witness++; else { // ask the solver for a witness of the path
    std::unordered_map<int,double> m; std::vector<Cond> g(PC); Res r=g.empty()?SAT:ask(g,false,false,5000,&m,false); if(r==SAT) SH->witness++; else emit("NOTE path without witness (%s)\n",r==UNSAT?"infeasible":"unknown"); } }
static double T0;
static void endline(int rc){ double t0=T0;
  emit("END rc=%d queries=%ld unsat=%ld sat=%ld unknown=%ld undecided=%ld paths=%ld witness=%ld forks=%ld pruned=%ld cex=%ld solver_s=%.3f nodes=%zu wall=%.2f merged=%ld\n",rc,SH->queries,SH->unsat,SH->sat,SH->unknown,SH->undecided,SH->paths,SH->witness,SH->forks,SH->prunedbr,SH->cex,SH->solver_s,N.size(),now()-t0,deepN+sweepN);
}
int main(int argc,char**argv){
  prctl(PR_SET_PDEATHSIG,SIGKILL);
  SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset(SH,0,sizeof*SH);
  const char*o=getenv("SX_OUT"); outfd=o?open(o,O_WRONLY|O_CREAT|O_APPEND,0644):2; cexdir=getenv("SX_CEXDIR");
  if(getenv("VERIF_SEED")) rng.seed(atol(getenv("VERIF_SEED"))); if(getenv("SX_TIMEOUT")) timeout_ms=atoi(getenv("SX_TIMEOUT")); if(getenv("SX_MAXPATHS")) maxPaths=atol(getenv("SX_MAXPATHS"));
  zreset(); substEq=new std::unordered_map<int,Poly>(); mkconst(0);
  T0=now(); pid_t root=rootpid=getpid();
  int rc=harness(argc,argv); fflush(stdout);
  finishPath();
  if(getpid()!=root) _exit(0);
  endline(rc);
  _exit(0);
}
