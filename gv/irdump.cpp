// irdump: LLVM bitcode -> JSON lines (one per function / global), for gv.
// Reads a module, prints for each defined function its instructions with
// data-layout-resolved offsets.  No analysis happens here.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include <map>
#include <string>
using namespace llvm;
static const DataLayout *DL;
static raw_ostream &O = outs();
static std::string esc(StringRef s){ std::string r="\""; char b[8];
  for(unsigned char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){snprintf(b,8,"\\u%04x",c);r+=b;} else r+=c;} return r+"\""; }
static std::string ty(Type*t){ std::string s; raw_string_ostream o(s);
  if(t->isStructTy()||t->isArrayTy()) { o<<"agg"; return o.str(); }
  t->print(o); return o.str(); }
static std::map<const Value*,int> ids;
static std::map<const BasicBlock*,int> bbs;
static void con(const Constant*c);
static void gepparts(const GEPOperator*g, bool local);
static void opnd(const Value*v){
  auto it=ids.find(v); if(it!=ids.end()){ O<<it->second; return; }
  if(auto c=dyn_cast<Constant>(v)) { con(c); return; }
  if(isa<MetadataAsValue>(v)) { O<<"[\"md\"]"; return; }
  if(isa<InlineAsm>(v)) { O<<"[\"asm\"]"; return; }
  O<<"[\"?\"]";
}
static void con(const Constant*c){
  if(auto i=dyn_cast<ConstantInt>(c)){ SmallString<40> s; i->getValue().toStringUnsigned(s); O<<"[\"i\","<<i->getBitWidth()<<","<<s<<"]"; return; }
  if(auto f=dyn_cast<ConstantFP>(c)){
    APFloat v=f->getValueAPF();
    if(f->getType()->isDoubleTy()||f->getType()->isFloatTy()){
      bool l; v.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&l);
      SmallString<40> s; v.bitcastToAPInt().toStringUnsigned(s); O<<"[\"d\","<<s<<"]"; return; }
    SmallString<80> s; v.toString(s,60,0); O<<"[\"ld\","<<esc(s)<<"]"; return; }
  if(isa<ConstantPointerNull>(c)){ O<<"[\"n\"]"; return; }
  if(isa<UndefValue>(c)){ O<<"[\"u\","<<esc(ty(c->getType()))<<"]"; return; }
  if(auto a=dyn_cast<GlobalAlias>(c)){ O<<"[\"g\","<<esc(a->getAliasee()->stripPointerCasts()->getName())<<"]"; return; }
  if(auto g=dyn_cast<GlobalValue>(c)){ O<<"[\"g\","<<esc(g->getName())<<"]"; return; }
  if(auto e=dyn_cast<ConstantExpr>(c)){
    if(auto g=dyn_cast<GEPOperator>(e)){ APInt off(64,0);
      if(g->accumulateConstantOffset(*DL,off)){ O<<"[\"ge\","; con(cast<Constant>(g->getPointerOperand())); O<<","<<off.getSExtValue()<<"]"; return; } }
    if(e->isCast()){ O<<"[\"cast\","<<esc(e->getOpcodeName())<<","<<esc(ty(e->getType()))<<","; con(e->getOperand(0)); O<<"]"; return; }
    O<<"[\"ce\","<<esc(e->getOpcodeName())<<","<<esc(ty(e->getType())); for(auto&o:e->operands()){ O<<","; opnd(o.get()); } O<<"]"; return; }
  if(isa<ConstantAggregateZero>(c)||isa<ConstantDataSequential>(c)||isa<ConstantAggregate>(c)){
    unsigned n; if(auto st=dyn_cast<StructType>(c->getType())) n=st->getNumElements(); else if(auto at=dyn_cast<ArrayType>(c->getType())) n=at->getNumElements(); else n=cast<FixedVectorType>(c->getType())->getNumElements();
    O<<"[\"agg\",["; for(unsigned i=0;i<n;i++){ if(i)O<<","; con(c->getAggregateElement(i)); } O<<"]]"; return; }
  O<<"[\"?\","<<esc(ty(c->getType()))<<"]";
}
// flatten initializer to [offset,size,const] leaves; zero regions skipped
static bool firstleaf;
static void flat(const Constant*c,uint64_t off){
  if(c->isNullValue()&&!isa<ConstantFP>(c)) return;
  if(isa<UndefValue>(c)) return;
  if(auto ds=dyn_cast<ConstantDataSequential>(c)){ if(ds->getElementByteSize()==1){ StringRef b=ds->getRawDataValues();
      if(!firstleaf)O<<","; firstleaf=false; O<<"["<<off<<",\"bytes\",\""; char h[4]; for(unsigned char x:b){snprintf(h,4,"%02x",x);O<<h;} O<<"\"]"; return; } }
  if(auto st=dyn_cast<StructType>(c->getType())){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) flat(c->getAggregateElement(i),off+sl->getElementOffset(i)); return; }
  if(auto at=dyn_cast<ArrayType>(c->getType())){ uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(uint64_t i=0;i<at->getNumElements();i++) flat(c->getAggregateElement(i),off+i*es); return; }
  if(!firstleaf)O<<","; firstleaf=false;
  O<<"["<<off<<","<<DL->getTypeStoreSize(c->getType())<<",";con(c);O<<"]";
}
static void call(const CallBase*c,int id){
  // [op,res,retty,callee,args,argtys,byval,(normal,unwind)]
  O<<"[\""<<(isa<InvokeInst>(c)?"invoke":"call")<<"\","<<id<<","<<esc(ty(c->getType()))<<",";
  opnd(c->getCalledOperand()); O<<",[";
  for(unsigned i=0;i<c->arg_size();i++){ if(i)O<<","; opnd(c->getArgOperand(i)); }
  O<<"],["; for(unsigned i=0;i<c->arg_size();i++){ if(i)O<<","; O<<esc(ty(c->getArgOperand(i)->getType())); }
  O<<"],["; for(unsigned i=0;i<c->arg_size();i++){ if(i)O<<","; O<<(c->isByValArgument(i)?(long)DL->getTypeAllocSize(c->getParamByValType(i)):0L); } O<<"]";
  if(auto v=dyn_cast<InvokeInst>(c)) O<<","<<bbs[v->getNormalDest()]<<","<<bbs[v->getUnwindDest()];
  O<<"]";
}
// scalar fields of an aggregate: [[path...],offset,type,size]
static bool ffirst;
static void fields(Type*t,uint64_t off,std::vector<unsigned>&path){
  if(auto st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++){ path.push_back(i); fields(st->getElementType(i),off+sl->getElementOffset(i),path); path.pop_back(); } return; }
  if(auto at=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++){ path.push_back(i); fields(at->getElementType(),off+i*es,path); path.pop_back(); } return; }
  if(!ffirst)O<<","; ffirst=false; O<<"[["; for(unsigned i=0;i<path.size();i++){ if(i)O<<","; O<<path[i]; } O<<"],"<<off<<","<<esc(ty(t))<<","<<DL->getTypeStoreSize(t)<<"]";
}
static void aggfields(Type*t){ if(!(t->isStructTy()||t->isArrayTy())) return; std::vector<unsigned> p; ffirst=true; O<<",["; fields(t,0,p); O<<"]"; }
static void inst(const Instruction&I){
  int id=ids.count(&I)?ids[&I]:-1;
  const char*op=I.getOpcodeName();
  if(auto c=dyn_cast<CallBase>(&I)){ call(c,id); return; }
  O<<"[\""<<op<<"\","<<id;
  if(auto p=dyn_cast<PHINode>(&I)){ O<<","<<esc(ty(I.getType()))<<",["; for(unsigned i=0;i<p->getNumIncomingValues();i++){ if(i)O<<","; O<<"["<<bbs[p->getIncomingBlock(i)]<<","; opnd(p->getIncomingValue(i)); O<<"]"; } O<<"]"; }
  else if(auto b=dyn_cast<BranchInst>(&I)){ if(b->isConditional()){ O<<","; opnd(b->getCondition()); O<<","<<bbs[b->getSuccessor(0)]<<","<<bbs[b->getSuccessor(1)]; } else O<<",null,"<<bbs[b->getSuccessor(0)]; }
  else if(auto s=dyn_cast<SwitchInst>(&I)){ O<<","; opnd(s->getCondition()); O<<","<<bbs[s->getDefaultDest()]<<",["; bool f=1; for(auto&c:s->cases()){ if(!f)O<<","; f=0; SmallString<40> t; c.getCaseValue()->getValue().toStringUnsigned(t); O<<"["<<t<<","<<bbs[c.getCaseSuccessor()]<<"]"; } O<<"],"<<s->getCondition()->getType()->getIntegerBitWidth(); }
  else if(auto r=dyn_cast<ReturnInst>(&I)){ O<<","; if(r->getReturnValue()) opnd(r->getReturnValue()); else O<<"null"; }
  else if(auto l=dyn_cast<LoadInst>(&I)){ O<<","<<esc(ty(I.getType()))<<","<<DL->getTypeStoreSize(I.getType())<<","; opnd(l->getPointerOperand()); aggfields(I.getType()); }
  else if(auto s=dyn_cast<StoreInst>(&I)){ O<<","<<esc(ty(s->getValueOperand()->getType()))<<","<<DL->getTypeStoreSize(s->getValueOperand()->getType())<<","; opnd(s->getValueOperand()); O<<","; opnd(s->getPointerOperand()); aggfields(s->getValueOperand()->getType()); }
  else if(auto a=dyn_cast<AllocaInst>(&I)){ O<<","<<DL->getTypeAllocSize(a->getAllocatedType())<<","; opnd(a->getArraySize()); }
  else if(auto g=dyn_cast<GetElementPtrInst>(&I)){ O<<","; opnd(g->getPointerOperand());
    int64_t co=0; std::string dummy; bool f=true; std::string parts; 
    SmallVector<std::pair<const Value*,int64_t>,4> var;
    for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ const Value*ix=gi.getOperand();
      if(auto st=gi.getStructTypeOrNull()) co+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
      else { int64_t sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto ci=dyn_cast<ConstantInt>(ix)) co+=ci->getSExtValue()*sz; else var.push_back({ix,sz}); } }
    O<<","<<co<<",["; for(auto&v:var){ if(!f)O<<","; f=false; O<<"["; opnd(v.first); O<<","<<v.second<<","<<v.first->getType()->getIntegerBitWidth()<<"]"; } O<<"]"; (void)parts; }
  else if(auto c=dyn_cast<CmpInst>(&I)){ O<<","<<esc(CmpInst::getPredicateName(c->getPredicate()))<<","<<esc(ty(c->getOperand(0)->getType()))<<","; opnd(c->getOperand(0)); O<<","; opnd(c->getOperand(1)); }
  else if(auto c=dyn_cast<CastInst>(&I)){ O<<","<<esc(ty(c->getSrcTy()))<<","<<esc(ty(c->getDestTy()))<<","; opnd(c->getOperand(0)); }
  else if(auto e=dyn_cast<ExtractValueInst>(&I)){ O<<","; opnd(e->getAggregateOperand()); O<<",["; bool f=1; for(unsigned i:e->indices()){ if(!f)O<<","; f=0; O<<i; } O<<"]"; }
  else if(auto e=dyn_cast<InsertValueInst>(&I)){ O<<","; opnd(e->getAggregateOperand()); O<<","; opnd(e->getInsertedValueOperand()); O<<",["; bool f=1; for(unsigned i:e->indices()){ if(!f)O<<","; f=0; O<<i; } O<<"]"; }
  else if(auto lp=dyn_cast<LandingPadInst>(&I)){ O<<","<<(lp->isCleanup()?1:0)<<",["; for(unsigned i=0;i<lp->getNumClauses();i++){ if(i)O<<","; O<<"["<<(lp->isCatch(i)?"\"catch\"":"\"filter\"")<<","; con(lp->getClause(i)); O<<"]"; } O<<"]"; }
  else if(auto a=dyn_cast<AtomicRMWInst>(&I)){ O<<","<<esc(AtomicRMWInst::getOperationName(a->getOperation()))<<","<<esc(ty(I.getType()))<<","<<DL->getTypeStoreSize(I.getType())<<","; opnd(a->getPointerOperand()); O<<","; opnd(a->getValOperand()); }
  else { O<<","<<esc(ty(I.getType())); for(auto&o:I.operands()){ O<<","; opnd(o.get()); } }
  O<<"]";
}
// #pragma STDC FENV_ACCESS: rounding mode and exception flags have no meaning over the reals; use the plain operations
static void unconstrain(Function&F){
  std::vector<ConstrainedFPIntrinsic*> v; for(auto&B:F) for(auto&I:B) if(auto c=dyn_cast<ConstrainedFPIntrinsic>(&I)) v.push_back(c);
  for(auto c:v){ IRBuilder<> b(c); Value*a0=c->getArgOperand(0),*r=nullptr; Type*t=c->getType();
    switch(c->getIntrinsicID()){
    case Intrinsic::experimental_constrained_fadd: r=b.CreateFAdd(a0,c->getArgOperand(1)); break;
    case Intrinsic::experimental_constrained_fsub: r=b.CreateFSub(a0,c->getArgOperand(1)); break;
    case Intrinsic::experimental_constrained_fmul: r=b.CreateFMul(a0,c->getArgOperand(1)); break;
    case Intrinsic::experimental_constrained_fdiv: r=b.CreateFDiv(a0,c->getArgOperand(1)); break;
    case Intrinsic::experimental_constrained_frem: r=b.CreateFRem(a0,c->getArgOperand(1)); break;
    case Intrinsic::experimental_constrained_fmuladd:
    case Intrinsic::experimental_constrained_fma: r=b.CreateFAdd(b.CreateFMul(a0,c->getArgOperand(1)),c->getArgOperand(2)); break;
    case Intrinsic::experimental_constrained_sitofp: r=b.CreateSIToFP(a0,t); break;
    case Intrinsic::experimental_constrained_uitofp: r=b.CreateUIToFP(a0,t); break;
    case Intrinsic::experimental_constrained_fptosi: r=b.CreateFPToSI(a0,t); break;
    case Intrinsic::experimental_constrained_fptoui: r=b.CreateFPToUI(a0,t); break;
    case Intrinsic::experimental_constrained_fptrunc: r=b.CreateFPTrunc(a0,t); break;
    case Intrinsic::experimental_constrained_fpext: r=b.CreateFPExt(a0,t); break;
    case Intrinsic::experimental_constrained_fcmp:
    case Intrinsic::experimental_constrained_fcmps: r=b.CreateFCmp(cast<ConstrainedFPCmpIntrinsic>(c)->getPredicate(),a0,c->getArgOperand(1)); break;
#define MATH1(n) case Intrinsic::experimental_constrained_##n: r=b.CreateUnaryIntrinsic(Intrinsic::n,a0); break;
    MATH1(sqrt) MATH1(sin) MATH1(cos) MATH1(exp) MATH1(log) MATH1(floor) MATH1(ceil) MATH1(trunc) MATH1(round)
    case Intrinsic::experimental_constrained_pow: r=b.CreateBinaryIntrinsic(Intrinsic::pow,a0,c->getArgOperand(1)); break;
    default: continue; }
    c->replaceAllUsesWith(r); c->eraseFromParent(); }
}
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E;
  for(int ai=1;ai<argc;ai++){
  auto M=parseIRFile(argv[ai],E,C); if(!M){ E.print(argv[0],errs()); return 2; }
  DL=&M->getDataLayout();
  for(auto&F:*M) unconstrain(F);
  for(auto&A:M->aliases()){ O<<"A\t"<<A.getName()<<"\t"<<esc(A.getAliasee()->stripPointerCasts()->getName())<<"\n"; }
  for(auto&G:M->globals()){
    if(G.hasAvailableExternallyLinkage()) continue;
    std::string n=G.getName().str();
    bool local=G.hasLocalLinkage();
    if(!G.hasInitializer()){ continue; }
    if(n.rfind("llvm.",0)==0 && n!="llvm.global_ctors") continue;
    O<<"G\t"<<n<<"\t{\"size\":"<<DL->getTypeAllocSize(G.getValueType())<<",\"const\":"<<(G.isConstant()?1:0)<<",\"local\":"<<local<<",\"init\":[";
    firstleaf=true; flat(G.getInitializer(),0); O<<"]}\n";
  }
  for(auto&F:*M){ if(F.isDeclaration()||F.hasAvailableExternallyLinkage()) continue;
    ids.clear(); bbs.clear(); int n=0; for(auto&a:F.args()) ids[&a]=n++; int nb=0;
    for(auto&B:F){ bbs[&B]=nb++; for(auto&I:B) if(!I.getType()->isVoidTy()) ids[&I]=n++; }
    O<<"F\t"<<F.getName()<<"\t{\"nargs\":"<<F.arg_size()<<",\"nvals\":"<<n<<",\"local\":"<<F.hasLocalLinkage()<<",\"linkonce\":"<<(F.isWeakForLinker()?1:0)<<",\"ret\":"<<esc(ty(F.getReturnType()))<<",\"argty\":[";
    bool f=1; for(auto&a:F.args()){ if(!f)O<<","; f=0; O<<esc(ty(a.getType())); } 
    O<<"],\"bb\":["; bool fb=1;
    for(auto&B:F){ if(!fb)O<<","; fb=0; O<<"["; bool fi=1; for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I)) continue;
        if(auto ii=dyn_cast<IntrinsicInst>(&I)){ auto id=ii->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl) continue; }
        if(!fi)O<<","; fi=0; inst(I);} O<<"]"; }
    O<<"]}\n";
  }
  }
  return 0; }
