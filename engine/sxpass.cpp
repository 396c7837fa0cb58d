// LLVM 18 pass: route every floating-point operation through the symbolic
// runtime (sxrt.cpp).  Doubles/floats become NaN-boxed handles to SMT terms.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <cstdlib>
using namespace llvm;

namespace {
// libm / libc functions diverted to the runtime (name -> sx_<name>)
static const char *kRename[] = {
  "sqrt","sin","cos","tan","asin","acos","atan","atan2","exp","log","pow","fabs","sincos",
  "hypot","floor","ceil","round","rint","lround","llround","fmod","sqrtf","sinf","cosf","fabsf","cbrt","log2","log10",
  "fmin","fmax","tanh","sinh","cosh","atanf","sincosf","log1p","expm1","ldexp","nearbyint","trunc",
  "cabs","carg","csqrt","cexp","clog","cpow","conj","creal","cimag","cabsf","cargf","ccos","csin",
  "__muldc3","__divdc3","__mulsc3","__divsc3",
  "printf","fprintf","sprintf","snprintf","abort_never", 0 };

struct SX : public PassInfoMixin<SX> {
  Module *M; LLVMContext *C;
  Type *D,*F,*I64,*I32,*I1;
  unsigned n=0;
  bool mem=false;
  FunctionCallee fn(StringRef name, FunctionType *T){ return M->getOrInsertFunction(name,T); }

  Value *binD(IRBuilder<>&B,int op,Value*a,Value*b){
    return B.CreateCall(fn("sx_bin",FunctionType::get(D,{I32,D,D},false)),{B.getInt32(op),a,b});
  }
  Value *toD(IRBuilder<>&B,Value*a){
    if(a->getType()->isFloatTy()) return B.CreateCall(fn("sx_fpext",FunctionType::get(D,{F},false)),{a});
    return a;
  }
  Value *fromD(IRBuilder<>&B,Value*a,Type*T){
    if(T->isFloatTy()) return B.CreateCall(fn("sx_fptrunc",FunctionType::get(F,{D},false)),{a});
    return a;
  }
  bool isFP(Type*T){ Type*S=T->getScalarType(); return S->isDoubleTy()||S->isFloatTy(); }
  template<class G> Value *lanes(IRBuilder<>&B,Type*RT,ArrayRef<Value*> ops,G g){
    if(auto*VT=dyn_cast<FixedVectorType>(RT)){
      Value *R=PoisonValue::get(RT);
      for(unsigned i=0;i<VT->getNumElements();i++){
        SmallVector<Value*,4> o; for(auto*v:ops) o.push_back(v->getType()->isVectorTy()?B.CreateExtractElement(v,i):v);
        Value*r=g(o); R=B.CreateInsertElement(R,r,i);
      }
      return R;
    }
    SmallVector<Value*,4> o(ops.begin(),ops.end());
    return g(o);
  }
  void rep(Instruction*I,Value*V){ I->replaceAllUsesWith(V); I->eraseFromParent(); n++; }

  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager&){
    M=&Mod; C=&M->getContext();
    D=Type::getDoubleTy(*C);F=Type::getFloatTy(*C);I64=Type::getInt64Ty(*C);I32=Type::getInt32Ty(*C);I1=Type::getInt1Ty(*C);
    mem = getenv("SX_MEM")!=nullptr;
    bool nofloat=getenv("SX_NOFLOAT")!=nullptr; // only the memory instrumentation (native replay of conflicts)
    // rename libm declarations
    if(!nofloat) for(const char**p=kRename;*p;p++){
      if(Function*f=M->getFunction(*p)) if(f->isDeclaration()){
        std::string nn=std::string("sx_")+*p;
        if(Function*g=M->getFunction(nn)) f->replaceAllUsesWith(g); else f->setName(nn);
      }
    }
    // a complex temporary written by an aligned vector store: x86-64 compilers give it 16 bytes, the instrumented frame must too
    for(auto&Fn:*M) for(auto&BB:Fn) for(auto&I:BB) if(auto*A=dyn_cast<AllocaInst>(&I)){ auto z=A->getAllocationSize(M->getDataLayout()); if(z&&z->getFixedValue()>=16&&A->getAlign()<Align(16)) A->setAlignment(Align(16)); }
    SmallVector<Instruction*,1024> work;
    for(auto&Fn:*M){ if(Fn.getName().starts_with("sx_")) continue; for(auto&BB:Fn) for(auto&I:BB) work.push_back(&I);}
    if(!nofloat) for(Instruction*I:work) visit(I);
    if(mem) for(auto&Fn:*M){ if(Fn.getName().starts_with("sx_")||Fn.getName().starts_with("__")) continue; SmallVector<Instruction*,256> w; for(auto&BB:Fn) for(auto&I:BB) if(isa<LoadInst>(I)||isa<StoreInst>(I)||isa<MemIntrinsic>(I)||isa<AtomicRMWInst>(I)) w.push_back(&I);
      if(w.empty()) continue; IRBuilder<> B0(&*Fn.getEntryBlock().getFirstInsertionPt()); Value*nm=B0.CreateGlobalStringPtr(Fn.getName());
      for(Instruction*I:w) memop(I,nm); }
    // record which functions are executed (reported as the functions encoded)
    const char*wantfn=getenv("SX_FN"); if(wantfn&&wantfn[0]=='1') for(auto&Fn:*M){ if(Fn.isDeclaration()||Fn.getName().starts_with("sx_")||Fn.getName().starts_with("_mm_")||Fn.getName().starts_with("__")) continue;
      IRBuilder<> B(&*Fn.getEntryBlock().getFirstInsertionPt());
      auto*flag=new GlobalVariable(*M,B.getInt8Ty(),false,GlobalValue::InternalLinkage,B.getInt8(0),"sxhit");
      B.CreateCall(fn("sx_enter",FunctionType::get(Type::getVoidTy(*C),{B.getPtrTy(),B.getPtrTy()},false)),{flag,B.CreateGlobalStringPtr(Fn.getName())}); }
    // every defined function loses attributes that let later passes assume purity
    return PreservedAnalyses::none();
  }
  void memop(Instruction*I,Value*nm){
    IRBuilder<> B(I); const DataLayout&DL=M->getDataLayout();
    auto rec=[&](bool st,Value*p,Value*n){ B.CreateCall(fn(st?"sx_store":"sx_load",FunctionType::get(Type::getVoidTy(*C),{B.getPtrTy(),I64,B.getPtrTy()},false)),{p,n,nm}); };
    if(auto*L=dyn_cast<LoadInst>(I)){ if(!L->isAtomic()) rec(false,L->getPointerOperand(),B.getInt64(DL.getTypeStoreSize(L->getType()))); }
    else if(auto*S=dyn_cast<StoreInst>(I)){ B.SetInsertPoint(I->getNextNode()); if(!S->isAtomic()) rec(true,S->getPointerOperand(),B.getInt64(DL.getTypeStoreSize(S->getValueOperand()->getType()))); }
    else if(auto*T=dyn_cast<MemTransferInst>(I)){ rec(false,T->getSource(),T->getLength()); B.SetInsertPoint(I->getNextNode()); rec(true,T->getDest(),T->getLength()); }
    else if(auto*T=dyn_cast<MemSetInst>(I)){ B.SetInsertPoint(I->getNextNode()); rec(true,T->getDest(),T->getLength()); }
  }
  void visit(Instruction*I){
    IRBuilder<> B(I);
    if(auto*BO=dyn_cast<BinaryOperator>(I)){
      int op=-1;
      switch(BO->getOpcode()){case Instruction::FAdd:op=0;break;case Instruction::FSub:op=1;break;case Instruction::FMul:op=2;break;case Instruction::FDiv:op=3;break;case Instruction::FRem:op=4;break;default:break;}
      if(op<0){ return; }
      if(!isFP(I->getType())){ unsup(I); return; }
      Type*S=I->getType()->getScalarType();
      rep(I,lanes(B,I->getType(),{I->getOperand(0),I->getOperand(1)},[&](ArrayRef<Value*>o){return fromD(B,binD(B,op,toD(B,o[0]),toD(B,o[1])),S);}));
      return;
    }
    if(auto*FC=dyn_cast<FCmpInst>(I)){
      int pred=FC->getPredicate();
      if(!isFP(FC->getOperand(0)->getType())){ unsup(I); return; }
      rep(I,lanes(B,I->getType(),{I->getOperand(0),I->getOperand(1)},[&](ArrayRef<Value*>o){
        return (Value*)B.CreateICmpNE(B.CreateCall(fn("sx_cmp",FunctionType::get(I32,{I32,D,D},false)),{B.getInt32(pred),toD(B,o[0]),toD(B,o[1])}),B.getInt32(0));}));
      return;
    }
    if(auto*CI=dyn_cast<CastInst>(I)){
      Type*ST=CI->getSrcTy(),*DT=CI->getDestTy();
      switch(CI->getOpcode()){
      case Instruction::FPExt: if(ST->getScalarType()->isFloatTy()&&DT->getScalarType()->isDoubleTy()){rep(I,lanes(B,DT,{CI->getOperand(0)},[&](ArrayRef<Value*>o){return toD(B,o[0]);}));} else unsup(I); return;
      case Instruction::FPTrunc: if(ST->getScalarType()->isDoubleTy()&&DT->getScalarType()->isFloatTy()){rep(I,lanes(B,DT,{CI->getOperand(0)},[&](ArrayRef<Value*>o){return fromD(B,o[0],F);}));} else unsup(I); return;
      case Instruction::FPToSI: case Instruction::FPToUI: {
        bool u=CI->getOpcode()==Instruction::FPToUI;
        rep(I,lanes(B,DT,{CI->getOperand(0)},[&](ArrayRef<Value*>o){
          Value*r=B.CreateCall(fn(u?"sx_fptoui":"sx_fptosi",FunctionType::get(I64,{D},false)),{toD(B,o[0])});
          return B.CreateIntCast(r,DT->getScalarType(),!u);}));
        return; }
      default: return;
      }
    }
    if(auto*CB=dyn_cast<CallInst>(I)){
      Function*f=CB->getCalledFunction();
      if(!f) return;
      if(f->isIntrinsic()){
        StringRef nm=f->getName();
        auto un=[&](const char*rt){
          Type*S=I->getType()->getScalarType();
          rep(I,lanes(B,I->getType(),{CB->getArgOperand(0)},[&](ArrayRef<Value*>o){
            return fromD(B,B.CreateCall(fn(rt,FunctionType::get(D,{D},false)),{toD(B,o[0])}),S);}));};
        auto bi=[&](const char*rt){
          Type*S=I->getType()->getScalarType();
          rep(I,lanes(B,I->getType(),{CB->getArgOperand(0),CB->getArgOperand(1)},[&](ArrayRef<Value*>o){
            return fromD(B,B.CreateCall(fn(rt,FunctionType::get(D,{D,D},false)),{toD(B,o[0]),toD(B,o[1])}),S);}));};
        switch(f->getIntrinsicID()){
          case Intrinsic::fabs: un("sx_fabs");return;
          case Intrinsic::sqrt: un("sx_sqrt");return;
          case Intrinsic::floor: un("sx_floor");return;
          case Intrinsic::ceil: un("sx_ceil");return;
          case Intrinsic::round: un("sx_round");return;
          case Intrinsic::rint: un("sx_rint");return;
          case Intrinsic::nearbyint: un("sx_rint");return;
          case Intrinsic::trunc: un("sx_trunc");return;
          case Intrinsic::sin: un("sx_sin");return;
          case Intrinsic::cos: un("sx_cos");return;
          case Intrinsic::exp: un("sx_exp");return;
          case Intrinsic::log: un("sx_log");return;
          case Intrinsic::pow: bi("sx_pow");return;
          case Intrinsic::is_fpclass:
            rep(I,lanes(B,I->getType(),{CB->getArgOperand(0)},[&](ArrayRef<Value*>o){
              return (Value*)B.CreateICmpNE(B.CreateCall(fn("sx_fpclass",FunctionType::get(I32,{D,I32},false)),{toD(B,o[0]),CB->getArgOperand(1)}),B.getInt32(0));})); return;
          case Intrinsic::minnum: bi("sx_fmin");return;
          case Intrinsic::maxnum: bi("sx_fmax");return;
          case Intrinsic::powi: {
            Value*e=B.CreateSIToFP(CB->getArgOperand(1),D);
            rep(I,fromD(B,B.CreateCall(fn("sx_pow",FunctionType::get(D,{D,D},false)),{toD(B,CB->getArgOperand(0)),e}),I->getType())); return; }
          case Intrinsic::fmuladd: case Intrinsic::fma: {
            Type*S=I->getType()->getScalarType();
            rep(I,lanes(B,I->getType(),{CB->getArgOperand(0),CB->getArgOperand(1),CB->getArgOperand(2)},[&](ArrayRef<Value*>o){
              return fromD(B,binD(B,0,binD(B,2,toD(B,o[0]),toD(B,o[1])),toD(B,o[2])),S);}));
            return; }
          default: break;
        }
        if(nm.starts_with("llvm.x86.sse2.")){
          int pred=-1;
          if(nm.contains("comilt")) pred=FCmpInst::FCMP_OLT;
          else if(nm.contains("comile")) pred=FCmpInst::FCMP_OLE;
          else if(nm.contains("comigt")) pred=FCmpInst::FCMP_OGT;
          else if(nm.contains("comige")) pred=FCmpInst::FCMP_OGE;
          else if(nm.contains("comieq")) pred=FCmpInst::FCMP_OEQ;
          else if(nm.contains("comineq")) pred=FCmpInst::FCMP_UNE;
          if(pred>=0){
            Value*a=B.CreateExtractElement(CB->getArgOperand(0),(uint64_t)0),*b=B.CreateExtractElement(CB->getArgOperand(1),(uint64_t)0);
            rep(I,B.CreateCall(fn("sx_cmp",FunctionType::get(I32,{I32,D,D},false)),{B.getInt32(pred),a,b}));
            return;
          }
          int mm=nm.contains(".min.pd")?0:nm.contains(".max.pd")?1:-1;
          if(mm>=0){ bi(mm?"sx_fmax":"sx_fmin"); return; }
        }
        if(nm.starts_with("llvm.x86.sse3.addsub") || nm.starts_with("llvm.x86.sse3.hsub")|| nm.starts_with("llvm.x86.sse3.hadd")|| (nm.starts_with("llvm.x86.")&& isFP(I->getType()))) { unsup(I); return; }
        if(!nm.starts_with("llvm.dbg") && !nm.starts_with("llvm.lifetime") && !nm.starts_with("llvm.x86") && !nm.starts_with("llvm.masked")){ bool fp=isFP(I->getType()); for(auto&a:CB->args()) fp|=isFP(a->getType()); if(fp) unsup(I); }
        return;
      }
    }
  }
  // an operation outside the encoding stops the run if (and only if) it is executed
  void unsup(Instruction*I){ IRBuilder<> B(I); std::string t; raw_string_ostream o(t); I->print(o); t=t.substr(0,120)+" in "+I->getFunction()->getName().str();
    B.CreateCall(fn("sx_unsupported",FunctionType::get(Type::getVoidTy(*C),{B.getPtrTy()},false)),{B.CreateGlobalStringPtr(t)}); }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"sx","1",[](PassBuilder&PB){
    PB.registerPipelineParsingCallback([](StringRef N,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){
      if(N=="sx"){MPM.addPass(SX());return true;} return false;});
    PB.registerPipelineStartEPCallback([](ModulePassManager&MPM,OptimizationLevel){
      if(getenv("SX_MEM")) MPM.addPass(createModuleToFunctionPassAdaptor(PromotePass()));
      MPM.addPass(SX()); });
  }};
}
