// irdump: dump (optimised) LLVM IR functions as JSON for the Python summariser.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Verifier.h"
#include <algorithm>
#include <map>
#include <set>
using namespace llvm;
static const DataLayout* DL;
static std::map<const Value*, int> ids;
static int idOf(const Value* v){ auto it=ids.find(v); if(it!=ids.end()) return it->second; int n=ids.size(); ids[v]=n; return n; }
static std::string tystr(Type* t){ std::string s; raw_string_ostream o(s); t->print(o); return s; }
static std::set<const GlobalVariable*> usedGlobals;
static json::Value opnd(const Value* v);
static json::Value gepParts(const GEPOperator* g){
  json::Array a; APInt off(64,0); 
  MapVector<Value*,APInt> var; 
  if(g->collectOffset(*DL,64,var,off)){
    json::Array vs; for(auto&p:var) vs.push_back(json::Array{opnd(p.first), p.second.getSExtValue()});
    return json::Object{{"base",opnd(g->getPointerOperand())},{"off",off.getSExtValue()},{"var",std::move(vs)}};
  }
  return nullptr;
}
static json::Value opnd(const Value* v){
  if(auto*c=dyn_cast<ConstantInt>(v)){ 
    if(c->getBitWidth()<=64) return json::Object{{"k","int"},{"v",std::to_string(c->getSExtValue())},{"w",(int)c->getBitWidth()}};
    SmallString<40> s; c->getValue().toStringSigned(s); return json::Object{{"k","int"},{"v",s.str().str()},{"w",(int)c->getBitWidth()}}; }
  if(auto*c=dyn_cast<ConstantFP>(v)){ 
    bool lose; APFloat f=c->getValueAPF(); std::string ty=tystr(c->getType()); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&lose); double d=f.convertToDouble(); char b[64]; snprintf(b,64,"%a",d); return json::Object{{"k","fp"},{"v",std::string(b)},{"t",ty}}; }
  if(isa<ConstantPointerNull>(v)) return json::Object{{"k","null"}};
  if(isa<UndefValue>(v)) return json::Object{{"k","undef"}};
  if(auto*f=dyn_cast<Function>(v)) return json::Object{{"k","func"},{"v",f->getName().str()}};
  if(auto*g=dyn_cast<GlobalVariable>(v)){ usedGlobals.insert(g); return json::Object{{"k","global"},{"v",g->getName().str()}};}
  if(auto*g=dyn_cast<GlobalAlias>(v)) return opnd(g->getAliasee());
  if(auto*e=dyn_cast<ConstantExpr>(v)){
    if(auto*g=dyn_cast<GEPOperator>(e)) return json::Object{{"k","cgep"},{"v",gepParts(g)}};
    json::Array a; for(auto&o:e->operands()) a.push_back(opnd(o.get()));
    return json::Object{{"k","cexpr"},{"op",e->getOpcodeName()},{"a",std::move(a)}};
  }
  if(isa<ConstantAggregateZero>(v)) return json::Object{{"k","zero"}};
  if(auto*c=dyn_cast<ConstantDataSequential>(v)){ json::Array a; for(unsigned i=0;i<c->getNumElements();++i) a.push_back(opnd(c->getElementAsConstant(i))); return json::Object{{"k","seq"},{"v",std::move(a)}}; }
  if(auto*c=dyn_cast<ConstantAggregate>(v)){ json::Array a; for(auto&o:c->operands()) a.push_back(opnd(o.get())); return json::Object{{"k","agg"},{"v",std::move(a)}}; }
  if(isa<BasicBlock>(v)) return json::Object{{"k","bb"},{"v",idOf(v)}};
  if(isa<MetadataAsValue>(v)) return json::Object{{"k","md"}};
  if(isa<InlineAsm>(v)) return json::Object{{"k","asm"}};
  return json::Object{{"k","v"},{"v",idOf(v)}};
}
static json::Value loc(const Instruction& I){
  json::Array a; const DILocation* d=I.getDebugLoc(); int n=0;
  while(d && n<12){ std::string fn; if(auto*sp=d->getScope()->getSubprogram()) fn=sp->getName().str(); a.push_back(json::Array{d->getFilename().str(), (int)d->getLine(), fn}); d=d->getInlinedAt(); ++n; }
  return a;
}
// Loads of a function pointer from a local object (std::function and the like) whose only reaching store is known: read the stored constant instead.
static int devirt(Module&M){
  int n=0;
  for(auto&F:M){ if(F.isDeclaration()) continue; DominatorTree DT(F);
    auto place=[&](Value*p,int64_t&off)->AllocaInst*{ APInt o(64,0); Value*b=p->stripAndAccumulateConstantOffsets(*DL,o,true); off=o.getSExtValue(); return dyn_cast<AllocaInst>(b); };
    std::vector<LoadInst*> loads; for(auto&B:F) for(auto&I:B) if(auto*l=dyn_cast<LoadInst>(&I)) if(l->getType()->isPointerTy()&&!l->isVolatile()) loads.push_back(l);
    for(auto*l:loads){ int64_t lo; auto*al=place(l->getPointerOperand(),lo); if(!al) continue;
      StoreInst*best=nullptr; std::vector<Instruction*> others; bool bad=false;
      for(auto&B:F) for(auto&I:B){ int64_t so;
        if(auto*st=dyn_cast<StoreInst>(&I)){ if(place(st->getPointerOperand(),so)!=al) continue; int64_t sz=DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); if(so+sz<=lo||so>=lo+8) continue;
          if(so==lo&&isa<Function>(st->getValueOperand())&&DT.dominates(st,l)&&(!best||DT.dominates(best,st))){ if(best) others.push_back(best); best=st; } else others.push_back(st); }
        else if(auto*ms=dyn_cast<MemIntrinsic>(&I)){ if(place(ms->getDest(),so)==al) others.push_back(ms); }
        else if(auto*cb=dyn_cast<CallBase>(&I)){ if(isa<IntrinsicInst>(cb)) continue; bool takes=false; for(auto&a:cb->args()){ int64_t o2; if(a->getType()->isPointerTy()&&place(a,o2)==al) takes=true; } if(takes&&!cb->onlyReadsMemory()&&cb!=nullptr&&!DT.dominates(l,cb)&&cb->getCalledFunction()&&!(best&&DT.dominates(cb,best))) others.push_back(cb); } }
      if(!best) continue;
      for(auto*o:others) if(!DT.dominates(o,best)){ bad=true; break; }
      if(bad) continue;
      l->replaceAllUsesWith(cast<Function>(best->getValueOperand())); ++n; } }
  return n; }
// Two adjacent 32-bit members moved through one 64-bit register: read and write them one by one, so that the form does not depend on how the pair was passed around.
static int unpun(Module&M){
  int n=0;
  for(auto&F:M){ if(F.isDeclaration()) continue; 
    auto is32=[](User*u,unsigned op){ auto*i=dyn_cast<Instruction>(u); if(!i||i->getOpcode()!=op) return false; auto*c=dyn_cast<ConstantInt>(i->getOperand(1)); return c&&c->getZExtValue()==32; };
    auto i32=[&](Type*t){ return t->isIntegerTy(32); };
    std::vector<LoadInst*> loads; std::vector<StoreInst*> stores;
    for(auto&B:F) for(auto&I:B){
      if(auto*l=dyn_cast<LoadInst>(&I)){ if(!l->isSimple()||!l->getType()->isIntegerTy(64)) continue; bool all=!l->use_empty();
        for(auto*u:l->users()) if(!((isa<TruncInst>(u)&&i32(u->getType()))||is32(u,Instruction::Shl)||is32(u,Instruction::AShr)||is32(u,Instruction::LShr))) all=false;
        if(l->getAlign().value()==4||all) loads.push_back(l); } }
    for(auto*l:loads){ IRBuilder<> b(l); auto*t=b.getInt32Ty(); auto*q=b.getInt64Ty(); Value*p=l->getPointerOperand();
      auto*lo=b.CreateAlignedLoad(t,p,Align(4)); auto*hi=b.CreateAlignedLoad(t,b.CreateConstGEP1_64(b.getInt8Ty(),p,4),Align(4)); 
      std::vector<User*> us(l->user_begin(),l->user_end()); Value*whole=nullptr; std::vector<Instruction*> dead;
      auto sub=[&](Instruction*i,Value*v){ i->replaceAllUsesWith(v); dead.push_back(i); };
      for(auto*u:us){ auto*i=dyn_cast<Instruction>(u); IRBuilder<> c(i);
        if(isa<TruncInst>(i)&&i32(i->getType())) sub(i,lo);
        else if(is32(i,Instruction::AShr)) sub(i,c.CreateSExt(hi,q));
        else if(is32(i,Instruction::LShr)) sub(i,c.CreateZExt(hi,q));
        else if(is32(i,Instruction::Shl)){ std::vector<User*> u2(i->user_begin(),i->user_end());
          for(auto*v:u2){ auto*j=cast<Instruction>(v); IRBuilder<> d(j); if(is32(j,Instruction::AShr)) sub(j,d.CreateSExt(lo,q)); else if(is32(j,Instruction::LShr)) sub(j,d.CreateZExt(lo,q)); }
          bool left=false; for(auto*v:i->users()) if(std::find(dead.begin(),dead.end(),v)==dead.end()) left=true;
          if(left) sub(i,c.CreateShl(c.CreateZExt(lo,q),32)); else dead.push_back(i); }
        else if(auto*st=dyn_cast<StoreInst>(i); st&&st->isSimple()&&st->getValueOperand()==l&&st->getPointerOperand()!=l){
          c.CreateAlignedStore(lo,st->getPointerOperand(),Align(4)); c.CreateAlignedStore(hi,c.CreateConstGEP1_64(c.getInt8Ty(),st->getPointerOperand(),4),Align(4)); dead.push_back(st); }
        else { if(!whole){ IRBuilder<> w(hi->getNextNode()); whole=w.CreateOr(w.CreateShl(w.CreateZExt(hi,q),32),w.CreateZExt(lo,q)); } u->replaceUsesOfWith(l,whole); } }
      bool ch=true; while(ch){ ch=false; for(auto&x:dead) if(x&&x->use_empty()){ x->eraseFromParent(); x=nullptr; ch=true; } }
      if(l->use_empty()) l->eraseFromParent();
      ++n; }
    // or (shl (zext hi), 32), (zext lo) stored as a whole
    for(auto&B:F) for(auto&I:B) if(auto*st=dyn_cast<StoreInst>(&I)) if(st->isSimple()&&st->getValueOperand()->getType()->isIntegerTy(64)) stores.push_back(st);
    for(auto*st:stores){ auto*o=dyn_cast<BinaryOperator>(st->getValueOperand()); if(!o||o->getOpcode()!=Instruction::Or) continue;
      Value*h=nullptr,*w=nullptr; for(int k=0;k<2;++k){ auto*a=o->getOperand(k); auto*z=dyn_cast<ZExtInst>(a); if(z&&i32(z->getSrcTy())) w=z->getOperand(0);
        else if(auto*sh=dyn_cast<Instruction>(a); sh&&is32(sh,Instruction::Shl)){ auto*z2=dyn_cast<CastInst>(sh->getOperand(0)); if(z2&&(isa<ZExtInst>(z2)||isa<SExtInst>(z2))&&i32(z2->getSrcTy())) h=z2->getOperand(0); } }
      if(!h||!w) continue; IRBuilder<> c(st); 
      c.CreateAlignedStore(w,st->getPointerOperand(),Align(4)); c.CreateAlignedStore(h,c.CreateConstGEP1_64(c.getInt8Ty(),st->getPointerOperand(),4),Align(4)); st->eraseFromParent(); ++n; } }
  return n; }
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){ E.print(argv[0],errs()); return 1; }
  DL=&M->getDataLayout();
  if(argc>3&&std::string(argv[2])=="--devirt"){ int n=devirt(*M); std::error_code ec; raw_fd_ostream o(argv[3],ec); M->print(o,nullptr); outs()<<n<<"\n"; return 0; }
  unpun(*M); if(verifyModule(*M,&errs())) return 1;
  std::string prefix=argc>2?argv[2]:"";
  json::Object out; json::Object funcs; 
  for(auto&F:*M){
    if(F.isDeclaration()) continue; 
    if(!prefix.empty() && !F.getName().startswith(prefix)) continue;
    ids.clear();
    json::Object jf; json::Array args; for(auto&a:F.args()) args.push_back(json::Object{{"id",idOf(&a)},{"t",tystr(a.getType())},{"name",a.getName().str()},{"noalias",a.hasNoAliasAttr()}});
    jf["args"]=std::move(args); jf["ret"]=tystr(F.getReturnType()); jf["dem"]=demangle(F.getName().str());
    if(auto*sp=F.getSubprogram()){ jf["file"]=sp->getFilename().str(); jf["line"]=(int)sp->getLine(); }
    jf["nounwind"]=F.doesNotThrow();
    json::Array bbs;
    for(auto&B:F){
      json::Object jb; jb["id"]=idOf(&B); json::Array is;
      for(auto&I:B){
        if(isa<DbgInfoIntrinsic>(I)) continue;
        json::Object ji; ji["id"]=idOf(&I); ji["op"]=I.getOpcodeName(); ji["t"]=tystr(I.getType());
        if(auto*g=dyn_cast<GEPOperator>(&I)){ ji["gep"]=gepParts(g); }
        json::Array ops; 
        if(auto*p=dyn_cast<PHINode>(&I)){ for(unsigned i=0;i<p->getNumIncomingValues();++i) ops.push_back(json::Array{opnd(p->getIncomingValue(i)), idOf(p->getIncomingBlock(i))}); }
        else if(auto*cb=dyn_cast<CallBase>(&I)){ for(auto&a:cb->args()) ops.push_back(opnd(a.get())); ji["callee"]=opnd(cb->getCalledOperand()); if(auto*f=cb->getCalledFunction()) {ji["cname"]=f->getName().str(); ji["cdem"]=demangle(f->getName().str()); ji["cro"]=f->onlyReadsMemory(); ji["cpure"]=f->doesNotAccessMemory();}
          if(auto*ii=dyn_cast<InvokeInst>(&I)){ ji["succ"]=json::Array{idOf(ii->getNormalDest()), idOf(ii->getUnwindDest())}; } ji["noret"]=cb->doesNotReturn(); }
        else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()) ops.push_back(opnd(br->getCondition())); json::Array s; for(unsigned i=0;i<br->getNumSuccessors();++i) s.push_back(idOf(br->getSuccessor(i))); ji["succ"]=std::move(s); }
        else if(auto*sw=dyn_cast<SwitchInst>(&I)){ ops.push_back(opnd(sw->getCondition())); json::Array s; s.push_back(idOf(sw->getDefaultDest())); json::Array cs; for(auto&c:sw->cases()){ cs.push_back(json::Array{std::to_string(c.getCaseValue()->getSExtValue()), idOf(c.getCaseSuccessor())}); s.push_back(idOf(c.getCaseSuccessor())); } ji["cases"]=std::move(cs); ji["succ"]=std::move(s); }
        else for(auto&o:I.operands()) ops.push_back(opnd(o.get()));
        ji["a"]=std::move(ops);
        if(auto*c=dyn_cast<CmpInst>(&I)) ji["pred"]=CmpInst::getPredicateName(c->getPredicate()).str();
        if(auto*o=dyn_cast<OverflowingBinaryOperator>(&I)){ ji["nsw"]=o->hasNoSignedWrap(); ji["nuw"]=o->hasNoUnsignedWrap(); }
        if(auto*ai=dyn_cast<AllocaInst>(&I)) { auto s=ai->getAllocationSize(*DL); ji["asz"]= s? (int64_t)s->getFixedValue() : -1; ji["at"]=tystr(ai->getAllocatedType()); }
        if(auto*l=dyn_cast<LoadInst>(&I)) { ji["sz"]=(int64_t)DL->getTypeStoreSize(l->getType()); ji["atomic"]=l->isAtomic(); ji["vol"]=l->isVolatile(); }
        if(auto*s=dyn_cast<StoreInst>(&I)) { ji["sz"]=(int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()); ji["vt"]=tystr(s->getValueOperand()->getType()); ji["atomic"]=s->isAtomic(); ji["vol"]=s->isVolatile(); }
        if(auto*x=dyn_cast<CastInst>(&I)) ji["st"]=tystr(x->getSrcTy());
        if(auto*r=dyn_cast<AtomicRMWInst>(&I)) ji["rmw"]=AtomicRMWInst::getOperationName(r->getOperation()).str();
        if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ json::Array ix; for(auto i:ev->indices()) ix.push_back((int)i); ji["idx"]=std::move(ix);} 
        if(auto*ev=dyn_cast<InsertValueInst>(&I)){ json::Array ix; for(auto i:ev->indices()) ix.push_back((int)i); ji["idx"]=std::move(ix);} 
        ji["loc"]=loc(I);
        is.push_back(std::move(ji));
      }
      jb["i"]=std::move(is); bbs.push_back(std::move(jb));
    }
    jf["bbs"]=std::move(bbs); funcs[F.getName().str()]=std::move(jf);
  }
  out["funcs"]=std::move(funcs);
  json::Object gl; for(auto*g:usedGlobals){ if(g->hasInitializer() && g->isConstant()) gl[g->getName().str()]=json::Object{{"t",tystr(g->getValueType())},{"init",opnd(g->getInitializer())}}; }
  out["globals"]=std::move(gl);
  outs()<<json::Value(std::move(out))<<"\n";
}
