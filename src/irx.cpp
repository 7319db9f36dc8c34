// irx: lowers a module produced by clang (-O0, optnone disabled) to a small,
// fully inlined SSA form and exports it as JSON for the Python analyses.
//   irx IN.bc OUT.json MODE CONFIG
// MODE: value  - inline everything that is not opaque into the root functions
//                (roots = functions whose name matches a ROOT regex), drop
//                unwind edges, SROA, unroll constant loops.
//       flow   - only mem2reg/sroa free clean up; every function is exported
//                with its unwind edges (for typestate / lockset analyses).
// CONFIG lines:  root <regex on mangled name> | opaque <regex on demangled name>
//                | inline <regex on demangled name> (overrides opaque)
//                | drop <regex> (calls to it are deleted when result unused)
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/WholeProgramDevirt.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/LoopRotation.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"
#include "llvm/Transforms/Scalar.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/UnifyLoopExits.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <map>
#include <set>
#include <vector>
using namespace llvm;

struct Cfg { std::vector<Regex> root, opaque, inl, drop; bool devirt=false; int resolve=0; bool eh=false; };
static bool any(std::vector<Regex>& v, StringRef s){ for(auto& r:v) if(r.match(s)) return true; return false; }

static std::map<std::string,std::string> dmCache;
static std::string dem(StringRef n){
  auto it=dmCache.find(n.str()); if(it!=dmCache.end()) return it->second;
  std::string d=demangle(n.str()); dmCache[n.str()]=d; return d;
}


struct Exporter {
  json::OStream& J; const DataLayout& DL;
  std::map<const Value*,int> ids; int next=0;
  std::map<const DILocation*,int> lids; std::vector<const DILocation*> lv;
  void locOf(const Instruction&I, json::OStream&J){
    if(const DILocation* L=I.getDebugLoc().get()){
      auto r=lids.insert({L,(int)lv.size()}); if(r.second) lv.push_back(L);
      J.attribute("loc",r.first->second); } }
  void locChain(const DILocation*c){ J.array([&]{ int n=0; while(c && n<12){ J.value((c->getFilename()+":"+Twine(c->getLine())).str()); c=c->getInlinedAt(); ++n; } }); }
  int id(const Value*v){ auto it=ids.find(v); if(it!=ids.end()) return it->second; ids[v]=next; return next++; }
  std::string ty(Type*t){ std::string s; raw_string_ostream o(s); t->print(o,false,true); return o.str(); }
  void val(const Value*v){
    if(auto*c=dyn_cast<ConstantInt>(v)){
      J.array([&]{ J.value("i"); J.value((int64_t)c->getBitWidth()); SmallString<32> s; c->getValue().toStringSigned(s); J.value(StringRef(s)); }); return; }
    if(auto*c=dyn_cast<ConstantFP>(v)){
      J.array([&]{ J.value("f"); J.value(ty(c->getType()));
        APFloat a=c->getValueAPF(); bool li; a.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li);
        char b[64]; snprintf(b,64,"%a",a.convertToDouble()); J.value(b); }); return; }
    if(isa<ConstantPointerNull>(v)){ J.array([&]{J.value("null");}); return; }
    if(isa<UndefValue>(v)){ J.array([&]{J.value("undef"); J.value(ty(v->getType()));}); return; }
    if(auto*f=dyn_cast<Function>(v)){ J.array([&]{J.value("fn"); J.value(f->getName()); J.value(dem(f->getName()));}); return; }
    if(auto*g=dyn_cast<GlobalVariable>(v)){ J.array([&]{J.value("g"); J.value(g->getName()); J.value(dem(g->getName()));}); return; }
    if(auto*a=dyn_cast<GlobalAlias>(v)){ val(a->getAliasee()); return; }
    if(isa<ConstantAggregateZero>(v)){ J.array([&]{J.value("zero"); J.value(ty(v->getType()));}); return; }
    if(auto*c=dyn_cast<ConstantExpr>(v)){
      if(c->getOpcode()==Instruction::GetElementPtr){
        APInt off(64,0); auto*g=cast<GEPOperator>(c);
        if(g->accumulateConstantOffset(DL,off)){
          J.array([&]{J.value("gepc"); val(g->getPointerOperand()); J.value(off.getSExtValue());}); return; } }
      J.array([&]{J.value("ce"); J.value(c->getOpcodeName()); for(auto&o:c->operands()) val(o.get()); }); return; }
    if(isa<Constant>(v)){ J.array([&]{J.value("const"); std::string s; raw_string_ostream o(s); v->printAsOperand(o); J.value(o.str());}); return; }
    if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)){ J.array([&]{J.value("md");}); return; }
    J.value(id(v));
  }
  void inst(const Instruction&I){
    J.object([&]{
      if(!I.getType()->isVoidTy()) J.attribute("id",id(&I));
      J.attribute("op",I.getOpcodeName()); J.attribute("ty",ty(I.getType()));
      locOf(I,J);
      if(auto*p=dyn_cast<PHINode>(&I)){
        J.attributeArray("in",[&]{ for(unsigned k=0;k<p->getNumIncomingValues();++k) J.array([&]{ val(p->getIncomingValue(k)); J.value(id(p->getIncomingBlock(k))); }); });
        return; }
      if(auto*g=dyn_cast<GetElementPtrInst>(&I)){
        J.attribute("sty",ty(g->getSourceElementType()));
        MapVector<Value*,APInt> vo; APInt co(64,0);
        bool ok=g->collectOffset(DL,64,vo,co);
        J.attributeBegin("ptr"); val(g->getPointerOperand()); J.attributeEnd();
        J.attribute("ok",ok); J.attribute("off",co.getSExtValue());
        J.attributeArray("var",[&]{ for(auto&kv:vo) J.array([&]{ val(kv.first); J.value(kv.second.getSExtValue()); }); });
        // struct field path for type-based analyses
        J.attributeArray("idx",[&]{ for(auto&o:g->indices()) val(o.get()); });
        return; }
      if(auto*a=dyn_cast<AllocaInst>(&I)){ J.attribute("aty",ty(a->getAllocatedType()));
        auto s=a->getAllocationSize(DL); J.attribute("size",(int64_t)(s? (int64_t)s->getFixedValue():-1)); 
        J.attribute("name",a->getName());
        return; }
      if(auto*c=dyn_cast<CallBase>(&I)){
        J.attributeBegin("callee"); val(c->getCalledOperand()); J.attributeEnd();
        if(auto*f=c->getCalledFunction()){ 
          if(f->isIntrinsic()) J.attribute("intr",Intrinsic::getBaseName(f->getIntrinsicID()));
          J.attribute("pure",f->doesNotAccessMemory()); }
        J.attributeArray("args",[&]{ for(auto&a:c->args()) val(a.get()); });
        J.attributeArray("argty",[&]{ for(auto&a:c->args()) J.value(ty(a->getType())); });
        J.attributeArray("byval",[&]{ for(unsigned k=0;k<c->arg_size();++k) if(c->isByValArgument(k)) J.value(k); });
        J.attributeArray("sret",[&]{ for(unsigned k=0;k<c->arg_size();++k) if(c->paramHasAttr(k,Attribute::StructRet)) J.value(k); });
        J.attributeArray("ro",[&]{ for(unsigned k=0;k<c->arg_size();++k) if(c->onlyReadsMemory(k)) J.value(k); });
        if(auto*iv=dyn_cast<InvokeInst>(c)){ J.attribute("normal",id(iv->getNormalDest())); J.attribute("unwind",id(iv->getUnwindDest())); }
        return; }
      if(auto*b=dyn_cast<BranchInst>(&I)){
        if(b->isConditional()){ J.attributeBegin("cond"); val(b->getCondition()); J.attributeEnd(); J.attribute("t",id(b->getSuccessor(0))); J.attribute("f",id(b->getSuccessor(1))); }
        else J.attribute("to",id(b->getSuccessor(0)));
        return; }
      if(auto*s=dyn_cast<SwitchInst>(&I)){
        J.attributeBegin("cond"); val(s->getCondition()); J.attributeEnd(); J.attribute("default",id(s->getDefaultDest()));
        J.attributeArray("cases",[&]{ for(auto&c:s->cases()) J.array([&]{ val(c.getCaseValue()); J.value(id(c.getCaseSuccessor())); }); });
        return; }
      if(auto*c=dyn_cast<CmpInst>(&I)) J.attribute("pred",CmpInst::getPredicateName(c->getPredicate()));
      if(auto*o=dyn_cast<OverflowingBinaryOperator>(&I)){ J.attribute("nsw",o->hasNoSignedWrap()); J.attribute("nuw",o->hasNoUnsignedWrap()); }
      if(auto*l=dyn_cast<LoadInst>(&I)){ J.attribute("size",(int64_t)DL.getTypeStoreSize(l->getType()).getFixedValue()); if(l->isVolatile()) J.attribute("volatile",true); if(l->isAtomic()) J.attribute("atomic",true);}
      if(auto*s=dyn_cast<StoreInst>(&I)){ J.attribute("size",(int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue()); J.attribute("vty",ty(s->getValueOperand()->getType())); if(s->isVolatile()) J.attribute("volatile",true); if(s->isAtomic()) J.attribute("atomic",true);}
      if(auto*e=dyn_cast<ExtractValueInst>(&I)) J.attributeArray("path",[&]{ for(unsigned k:e->indices()) J.value(k); });
      if(auto*e=dyn_cast<InsertValueInst>(&I)) J.attributeArray("path",[&]{ for(unsigned k:e->indices()) J.value(k); });
      if(isa<CastInst>(&I)) J.attribute("fromty",ty(I.getOperand(0)->getType()));
      J.attributeArray("ops",[&]{ for(auto&o:I.operands()){ if(isa<BasicBlock>(o.get())) J.value(id(o.get())); else val(o.get()); } });
    });
  }
  void fn(Function&F){
    ids.clear(); next=0; lids.clear(); lv.clear();
    J.object([&]{
      J.attribute("name",F.getName()); J.attribute("dem",dem(F.getName())); J.attribute("ret",ty(F.getReturnType()));
      if(auto*sp=F.getSubprogram()){ J.attribute("file",sp->getFilename()); J.attribute("line",(int64_t)sp->getLine()); }
      J.attribute("decl",F.isDeclaration());
      J.attributeArray("args",[&]{ for(auto&a:F.args()) J.object([&]{ J.attribute("id",id(&a)); J.attribute("ty",ty(a.getType())); J.attribute("name",a.getName()); if(a.hasStructRetAttr()) J.attribute("sret",true); if(a.hasByValAttr()) J.attribute("byval",true); }); });
      J.attributeArray("blocks",[&]{ for(auto&B:F) J.object([&]{ J.attribute("id",id(&B)); J.attribute("name",B.getName());
          J.attributeArray("insts",[&]{ for(auto&I:B){ if(isa<DbgInfoIntrinsic>(&I)) continue; inst(I);} }); }); });
      J.attributeArray("locs",[&]{ for(auto*l:lv) locChain(l); });
    });
  }
};

// Exceptional control flow made explicit: a throw inside a protected region jumps to its landing pad. The type thrown is
// kept in a variable of the function; a pad selects the first handler whose type is that of the exception or a base of it.
struct EhPass : PassInfoMixin<EhPass>{
  static bool throws(StringRef n){ return n=="__cxa_throw" || n=="__cxa_rethrow" || dem(n).rfind("std::__throw",0)==0; }
  std::map<std::string,int> ids; std::map<std::string,std::string> base;
  int idOf(const std::string&n){ auto it=ids.find(n); if(it!=ids.end()) return it->second; int k=ids.size()+1; ids[n]=k; return k; }
  static std::string tiName(Value*v){ if(!v) return ""; v=v->stripPointerCasts(); if(auto*g=dyn_cast<GlobalValue>(v)) return g->getName().str(); return ""; }
  std::string parent(const std::string&n,Module&M){
    static const std::map<std::string,std::string> st={ {"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt10bad_typeid","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt13runtime_error","_ZTISt9exception"},
      {"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},
      {"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"} };
    auto it=st.find(n); if(it!=st.end()) return it->second;
    if(auto*g=M.getGlobalVariable(n,true)) if(g->hasInitializer()) if(auto*c=dyn_cast<ConstantStruct>(g->getInitializer())) if(c->getNumOperands()==3) return tiName(c->getOperand(2));
    return ""; }
  bool isa_(std::string n,const std::string&t,Module&M){ for(int i=0;i<12 && !n.empty();++i){ if(n==t) return true; n=parent(n,M); } return false; }
  static std::string thrown(CallBase*x){ auto n=x->getCalledFunction()->getName(); if(n=="__cxa_throw") return tiName(x->getArgOperand(1)); if(n=="__cxa_rethrow") return "";
    std::string d=dem(n); auto p=d.find("__throw_"); std::string t=d.substr(p+8); t=t.substr(0,t.find('(')); if(t.size()>4 && t.substr(t.size()-4)=="_fmt") t=t.substr(0,t.size()-4); return "_ZTISt"+std::to_string(t.size())+t; }
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
    LLVMContext&C=M.getContext(); auto*i32=Type::getInt32Ty(C);
    FunctionCallee res=M.getOrInsertFunction("vp_resume",FunctionType::get(Type::getVoidTy(C),false));
    cast<Function>(res.getCallee())->setDoesNotReturn();
    for(auto&F:M){ if(F.isDeclaration()) continue;
      std::vector<InvokeInst*> iv; std::vector<LandingPadInst*> lp; std::vector<ResumeInst*> rs; std::vector<CallInst*> tf; std::vector<std::string> kinds;
      for(auto&B:F) for(auto&I:B){ if(auto*x=dyn_cast<InvokeInst>(&I)){ iv.push_back(x); auto*f=x->getCalledFunction(); if(f && throws(f->getName())){ auto t=thrown(x); if(!t.empty() && std::find(kinds.begin(),kinds.end(),t)==kinds.end()) kinds.push_back(t); } } else if(auto*x=dyn_cast<LandingPadInst>(&I)) lp.push_back(x); else if(auto*x=dyn_cast<ResumeInst>(&I)) rs.push_back(x);
        else if(auto*x=dyn_cast<CallInst>(&I)){ auto*f=x->getCalledFunction(); if(f && f->getIntrinsicID()==Intrinsic::eh_typeid_for) tf.push_back(x); } }
      AllocaInst*exc=nullptr;
      if(!lp.empty()){ exc=new AllocaInst(i32,0,"exc",&*F.getEntryBlock().begin()); }
      for(auto*x:tf){ x->replaceAllUsesWith(ConstantInt::get(i32,idOf(tiName(x->getArgOperand(0))))); x->eraseFromParent(); }
      for(auto*x:lp){ auto*st=cast<StructType>(x->getType()); Instruction*at=&*x->getParent()->getFirstInsertionPt(); if(at==x) at=x->getNextNode();
        Value*cur=new LoadInst(i32,exc,"",at); Value*sel=ConstantInt::get(i32,0);
        for(auto&u:kinds){ int m=0; for(unsigned i=0;i<x->getNumClauses();++i) if(x->isCatch(i)){ std::string t=tiName(x->getClause(i)); if(t.empty()){ m=-1; break; } if(isa_(u,t,M)){ m=idOf(t); break; } }
          auto*c=new ICmpInst(at,ICmpInst::ICMP_EQ,cur,ConstantInt::get(i32,idOf(u))); sel=SelectInst::Create(c,ConstantInt::getSigned(i32,m),sel,"",at); }
        Value*v=ConstantStruct::get(st,{Constant::getNullValue(st->getElementType(0)),ConstantInt::get(st->getElementType(1),0)});
        v=InsertValueInst::Create(v,sel,{1},"",at); x->replaceAllUsesWith(v); }
      for(auto*x:iv){ auto*f=x->getCalledFunction();
        if(f && throws(f->getName())){ auto t=thrown(x); if(!t.empty()) new StoreInst(ConstantInt::get(i32,idOf(t)),exc,x); BranchInst::Create(x->getUnwindDest(),x); x->getNormalDest()->removePredecessor(x->getParent()); }
        else { SmallVector<Value*,8> a(x->args()); auto*c=CallInst::Create(x->getFunctionType(),x->getCalledOperand(),a,"",x); c->setCallingConv(x->getCallingConv()); c->setAttributes(x->getAttributes()); c->setDebugLoc(x->getDebugLoc());
          x->replaceAllUsesWith(c); BranchInst::Create(x->getNormalDest(),x); x->getUnwindDest()->removePredecessor(x->getParent()); }
        x->eraseFromParent(); }
      for(auto*x:lp) x->eraseFromParent();
      for(auto*x:rs){ auto*c=CallInst::Create(res,"",x); c->setDebugLoc(x->getDebugLoc()); new UnreachableInst(C,x); x->eraseFromParent(); }
      removeUnreachableBlocks(F);
    }
    return PreservedAnalyses::none();
  }
};
int main(int argc,char**argv){
  { const char* o[]={"irx","-rotation-max-header-size=2000"}; cl::ParseCommandLineOptions(2,o); }
  if(argc<5){ errs()<<"usage\n"; return 2; }
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){ E.print("irx",errs()); return 2; }
  std::string mode=argv[3]; Cfg cfg; { std::ifstream f(argv[4]); std::string l; while(std::getline(f,l)){ if(l.empty()||l[0]=='#') continue; auto p=l.find(' '); auto k=l.substr(0,p), r=l.substr(p+1);
      if(k=="root") cfg.root.emplace_back(r); else if(k=="opaque") cfg.opaque.emplace_back(r); else if(k=="inline") cfg.inl.emplace_back(r); else if(k=="drop") cfg.drop.emplace_back(r); else if(k=="eh") cfg.eh=true; else if(k=="devirt") cfg.devirt=true; else if(k=="resolve") cfg.resolve=atoi(r.c_str()); else { errs()<<"bad cfg "<<l<<"\n"; return 2; } } }
  bool value = mode=="value";
  if(cfg.devirt){       // calls of virtual functions with a single implementation in the program
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager P; P.addPass(WholeProgramDevirtPass(nullptr,nullptr)); P.run(*M,MAM);
    for(auto&F:*M) for(auto&B:F) for(auto it=B.begin();it!=B.end();){ auto*c=dyn_cast<CallInst>(&*it++); auto*f=c?c->getCalledFunction():nullptr; if(!f) continue;
      if(f->getIntrinsicID()==Intrinsic::type_test || f->getIntrinsicID()==Intrinsic::public_type_test){ c->replaceAllUsesWith(ConstantInt::getTrue(C)); c->eraseFromParent(); } }
  }
  // clang emits the complete-object constructor as an alias of the base-object one
  for(auto it=M->alias_begin();it!=M->alias_end();){ GlobalAlias&A=*it++; if(auto*F=dyn_cast<Function>(A.getAliasee()->stripPointerCasts())){ A.replaceAllUsesWith(F); A.eraseFromParent(); } }
  for(auto&F:*M){ if(F.isDeclaration()) continue; F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::InlineHint); }
  if(value){
    // deletion of irrelevant calls
    for(auto&F:*M) for(auto&B:F) for(auto it=B.begin();it!=B.end();){ Instruction&I=*it++; auto*c=dyn_cast<CallBase>(&I); if(!c) continue; auto*f=c->getCalledFunction(); if(!f||f->isIntrinsic()) continue;
      if(I.use_empty() && any(cfg.drop,dem(f->getName()))){
        if(auto*iv=dyn_cast<InvokeInst>(&I)){ BranchInst::Create(iv->getNormalDest(),&I); iv->getUnwindDest()->removePredecessor(iv->getParent()); }
        I.eraseFromParent(); } }
    std::set<Function*> rec; { CallGraph CG(*M); for(auto i=scc_begin(&CG);!i.isAtEnd();++i) if(i.hasCycle()) for(auto*n:*i) if(n->getFunction()) rec.insert(n->getFunction()); }
    for(auto&F:*M){ if(F.isDeclaration()) continue; std::string d=dem(F.getName());
      bool isroot=any(cfg.root,F.getName());
      bool op = !isroot && any(cfg.opaque,d) && !any(cfg.inl,d);
      if(isroot||op||rec.count(&F)) F.addFnAttr(Attribute::NoInline); else F.addFnAttr(Attribute::AlwaysInline);
      if(!isroot){ F.setLinkage(op? GlobalValue::LinkOnceODRLinkage: GlobalValue::InternalLinkage); F.setComdat(nullptr);} }
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  ModulePassManager MPM;
  if(value){
    MPM.addPass(GlobalDCEPass());
    if(!cfg.eh){ FunctionPassManager P; P.addPass(LowerInvokePass()); P.addPass(SimplifyCFGPass()); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(P))); }
    MPM.addPass(AlwaysInlinerPass(false)); MPM.addPass(GlobalDCEPass());
    for(int k=0;k<cfg.resolve;++k){   // calls through function pointers that become constants inside protected regions
      FunctionPassManager P; SimplifyCFGOptions O; O.SpeculateBlocks=false; O.HoistCommonInsts=false; O.SinkCommonInsts=false;
      P.addPass(SROAPass(SROAOptions::PreserveCFG)); P.addPass(EarlyCSEPass(true)); P.addPass(SCCPPass()); P.addPass(InstSimplifyPass()); P.addPass(SimplifyCFGPass(O)); P.addPass(SROAPass(SROAOptions::PreserveCFG)); P.addPass(InstSimplifyPass());
      MPM.addPass(createModuleToFunctionPassAdaptor(std::move(P))); MPM.addPass(AlwaysInlinerPass(false)); MPM.addPass(GlobalDCEPass()); }
    if(cfg.eh) MPM.addPass(EhPass());
    // calls through function pointers that became constants
    { FunctionPassManager P; P.addPass(SROAPass(SROAOptions::PreserveCFG)); P.addPass(InstSimplifyPass()); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(P))); }
    MPM.addPass(AlwaysInlinerPass(false)); MPM.addPass(GlobalDCEPass());
    for(int k=0;k<(cfg.resolve>3?3:1);++k){ if(k) { MPM.addPass(AlwaysInlinerPass(false)); MPM.addPass(GlobalDCEPass()); }
      FunctionPassManager P; 
      P.addPass(SROAPass(SROAOptions::PreserveCFG)); P.addPass(EarlyCSEPass(true)); P.addPass(SCCPPass()); P.addPass(InstSimplifyPass()); 
      SimplifyCFGOptions O; O.SpeculateBlocks=false; O.HoistCommonInsts=false; O.SinkCommonInsts=false; 
      P.addPass(SimplifyCFGPass(O)); P.addPass(ADCEPass());
      P.addPass(LoopSimplifyPass()); P.addPass(LCSSAPass());
      P.addPass(createFunctionToLoopPassAdaptor(LoopRotatePass(),false,false));
      P.addPass(createFunctionToLoopPassAdaptor(LoopFullUnrollPass(3,false),false,false));
      P.addPass(SROAPass(SROAOptions::PreserveCFG)); P.addPass(EarlyCSEPass(true)); P.addPass(SCCPPass()); P.addPass(InstSimplifyPass()); P.addPass(SimplifyCFGPass(O)); P.addPass(ADCEPass());
      P.addPass(LoopSimplifyPass()); P.addPass(LCSSAPass());
      MPM.addPass(createModuleToFunctionPassAdaptor(std::move(P))); }
    MPM.addPass(GlobalDCEPass());
  } else if(mode=="flow-sroa"){
    FunctionPassManager P; P.addPass(SROAPass(SROAOptions::PreserveCFG)); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(P)));
  } else {
    FunctionPassManager P; P.addPass(PromotePass()); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(P)));
  }
  MPM.run(*M,MAM);
  if(verifyModule(*M,&errs())) return 3;
  std::error_code ec; raw_fd_ostream os(argv[2],ec); json::OStream J(os); Exporter X{J,M->getDataLayout()};
  J.object([&]{
    J.attributeArray("functions",[&]{ for(auto&F:*M){ if(F.isIntrinsic()) continue; if(value && !F.isDeclaration() && !any(cfg.root,F.getName()) ) continue; X.fn(F);} });
    J.attributeArray("globals",[&]{ for(auto&G:M->globals()) J.object([&]{ J.attribute("name",G.getName()); J.attribute("dem",dem(G.getName())); J.attribute("const",G.isConstant()); J.attribute("ty",X.ty(G.getValueType())); J.attribute("tls",G.isThreadLocal());
        if(G.hasInitializer()){ auto*ini=G.getInitializer(); if(auto*c=dyn_cast<ConstantInt>(ini)){ SmallString<32> s; c->getValue().toStringSigned(s); J.attribute("init",StringRef(s)); } else if(auto*cf=dyn_cast<ConstantFP>(ini)){ char b[64]; snprintf(b,64,"%a",cf->getValueAPF().convertToDouble()); J.attribute("finit",b);} else if(auto*cd=dyn_cast<ConstantDataSequential>(ini)){ if(cd->isString()) J.attribute("str",json::fixUTF8(cd->getAsString())); } }
      }); });
    // struct layouts
    J.attributeObject("structs",[&]{ for(auto*S:M->getIdentifiedStructTypes()){ if(S->isOpaque()) continue; auto*L=M->getDataLayout().getStructLayout(S); J.attributeArray(S->getName(),[&]{ for(unsigned k=0;k<S->getNumElements();++k) J.array([&]{ J.value((int64_t)L->getElementOffset(k)); J.value(X.ty(S->getElementType(k))); }); }); } });
  });
  if(argc>5){ raw_fd_ostream o2(argv[5],ec); M->print(o2,nullptr); }
  return 0;
}
