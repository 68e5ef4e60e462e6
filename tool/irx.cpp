// irx: resolved-program extractor.  Reads one linked LLVM module of the code
// under analysis, names virtual calls, inlines helpers according to a profile,
// brings functions to SSA form and dumps them as JSON for the Python analyses.
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <fstream>
#include <map>
#include <set>
#include <vector>
#include <string>
using namespace llvm;

static std::string dem(StringRef n) { return demangle(n.str()); }
static std::string tyStr(Type* t) { std::string s; raw_string_ostream o(s); t->print(o,false,true); return o.str(); }

struct Rule { bool keep; Regex re; std::string src; };
static std::vector<Rule> rules;
static std::vector<std::pair<std::string,Regex>> roots;

static bool keepFn(const std::string& d) {
   for (auto& r : rules) if (r.re.match(d)) return r.keep;
   return false;
}

// ---- virtual calls -------------------------------------------------------
struct Slot { std::string type; int64_t off; };
static std::map<std::string,std::vector<std::pair<GlobalVariable*,uint64_t>>> vts; // type id -> (vtable, address point)

static void collectVT(Module& M) {
   for (auto& g : M.globals()) {
      SmallVector<MDNode*,2> mds; g.getMetadata(LLVMContext::MD_type,mds);
      for (auto* md : mds) {
         auto* o = mdconst::dyn_extract<ConstantInt>(md->getOperand(0));
         auto* s = dyn_cast<MDString>(md->getOperand(1));
         if (o && s) vts[s->getString().str()].push_back({&g,o->getZExtValue()});
      }
   }
}
static Function* vtEntry(GlobalVariable* g,uint64_t off) {
   if (!g->hasInitializer()) return nullptr;
   auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
   if (!cs) return nullptr;
   uint64_t cur = 0;
   for (unsigned i=0;i<cs->getNumOperands();i++) {
      auto* arr = dyn_cast<ConstantArray>(cs->getOperand(i));
      if (!arr) return nullptr;
      for (unsigned k=0;k<arr->getNumOperands();k++,cur+=8)
         if (cur == off) return dyn_cast<Function>(arr->getOperand(k)->stripPointerCasts());
   }
   return nullptr;
}
static std::string typeIdOf(Value* vt) {
   for (auto* u : vt->users())
      if (auto* c = dyn_cast<CallInst>(u))
         if (auto* f = c->getCalledFunction())
            if (f->getName().starts_with("llvm.type.test") || f->getName().starts_with("llvm.public.type.test"))
               if (auto* mv = dyn_cast<MetadataAsValue>(c->getArgOperand(1)))
                  if (auto* s = dyn_cast<MDString>(mv->getMetadata())) return s->getString().str();
   return "";
}
static void nameVCalls(Module& M) {
   collectVT(M);
   auto& C = M.getContext();
   for (auto& F : M) for (auto& B : F) for (auto& I : B) {
      auto* cb = dyn_cast<CallBase>(&I);
      if (!cb || cb->getCalledFunction() || cb->isInlineAsm()) continue;
      auto* ld = dyn_cast<LoadInst>(cb->getCalledOperand());
      if (!ld) continue;
      Value* p = ld->getPointerOperand(); int64_t off = 0;
      if (auto* g = dyn_cast<GEPOperator>(p)) {
         APInt a(64,0);
         if (!g->accumulateConstantOffset(M.getDataLayout(),a)) continue;
         off = a.getSExtValue(); p = g->getPointerOperand();
      }
      auto* vt = dyn_cast<LoadInst>(p);
      if (!vt) continue;
      std::string ty = typeIdOf(vt);
      if (ty.empty()) continue;
      std::vector<Metadata*> ops;
      ops.push_back(MDString::get(C,ty));
      ops.push_back(MDString::get(C,std::to_string(off)));
      std::set<std::string> seen;
      for (auto& [g,ap] : vts[ty])
         if (auto* f = vtEntry(g,ap+off))
            if (f->getName() != "__cxa_pure_virtual" && seen.insert(f->getName().str()).second)
               ops.push_back(MDString::get(C,f->getName()));
      cb->setMetadata("irx.vcall",MDNode::get(C,ops));
   }
   std::vector<Instruction*> dead;
   for (auto& F : M) for (auto& B : F) for (auto& I : B)
      if (auto* c = dyn_cast<CallInst>(&I))
         if (auto* f = c->getCalledFunction()) {
            auto n = f->getName();
            if (n.starts_with("llvm.assume")) dead.push_back(c);
         }
   for (auto* i : dead) i->eraseFromParent();
   dead.clear();
   for (auto& F : M) for (auto& B : F) for (auto& I : B)
      if (auto* c = dyn_cast<CallInst>(&I))
         if (auto* f = c->getCalledFunction())
            if (f->getName().contains("type.test") && c->use_empty()) dead.push_back(c);
   for (auto* i : dead) i->eraseFromParent();
}

// ---- GEP decomposition ---------------------------------------------------
static json::Value opnd(Value* v,std::map<const Value*,int>& ids);
static json::Array gepSteps(GEPOperator* g,const DataLayout& DL,std::map<const Value*,int>& ids) {
   json::Array st;
   Type* t = g->getSourceElementType();
   bool first = true;
   for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
      Value* ix = *it;
      if (first) {
         first = false;
         if (auto* c = dyn_cast<ConstantInt>(ix)) { if (c->isZero()) continue; }
         st.push_back(json::Array{"a",(int64_t)DL.getTypeAllocSize(t).getFixedValue(),tyStr(t),opnd(ix,ids)});
         continue;
      }
      if (auto* s = dyn_cast<StructType>(t)) {
         unsigned k = cast<ConstantInt>(ix)->getZExtValue();
         st.push_back(json::Array{"f",s->hasName()?s->getName().str():tyStr(s),(int64_t)k,(int64_t)DL.getStructLayout(s)->getElementOffset(k)});
         t = s->getElementType(k);
      } else {
         Type* e = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
         st.push_back(json::Array{"a",(int64_t)DL.getTypeAllocSize(e).getFixedValue(),tyStr(e),opnd(ix,ids)});
         t = e;
      }
   }
   return st;
}

static const DataLayout* gDL = nullptr;
static json::Value opnd(Value* v,std::map<const Value*,int>& ids) {
   if (auto it = ids.find(v); it != ids.end()) return json::Array{"v",it->second};
   if (auto* c = dyn_cast<ConstantInt>(v)) {
      SmallString<40> s; c->getValue().toString(s,10,true);
      return json::Array{"i",(int64_t)c->getBitWidth(),std::string(s.str())};
   }
   if (auto* c = dyn_cast<ConstantFP>(v)) {
      SmallString<40> s; c->getValueAPF().toString(s);
      return json::Array{"d",std::string(s.str())};
   }
   if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
   if (isa<PoisonValue>(v)||isa<UndefValue>(v)) return json::Array{"u"};
   if (isa<ConstantAggregateZero>(v)) return json::Array{"z",tyStr(v->getType())};
   if (auto* f = dyn_cast<Function>(v)) return json::Array{"fn",f->getName().str()};
   if (auto* g = dyn_cast<GlobalValue>(v)) return json::Array{"g",g->getName().str()};
   if (auto* ce = dyn_cast<ConstantExpr>(v)) {
      if (auto* g = dyn_cast<GEPOperator>(ce))
         return json::Array{"cgep",opnd(g->getPointerOperand(),ids),gepSteps(g,*gDL,ids)};
      json::Array a; a.push_back("ce"); a.push_back(std::string(ce->getOpcodeName()));
      for (auto& o : ce->operands()) a.push_back(opnd(o,ids));
      return a;
   }
   if (isa<MetadataAsValue>(v)) return json::Array{"md"};
   std::string s; raw_string_ostream o(s); v->print(o);
   return json::Array{"?",o.str()};
}
static std::string subName(const DILocation* l) {
   if (auto* sp = l->getScope()->getSubprogram()) return sp->getName().str();
   return "";
}
static json::Value locOf(Instruction& I) {
   json::Array a;
   const DILocation* l = I.getDebugLoc().get();
   for (int n=0; l && n<12; l = l->getInlinedAt(),++n) {
      a.push_back(json::Array{l->getFilename().str(),(int64_t)l->getLine(),subName(l)});
   }
   return a;
}

static json::Object dumpFn(Function& F,const DataLayout& DL) {
   std::map<const Value*,int> ids; int n = 0;
   for (auto& a : F.args()) ids[&a] = n++;
   std::map<const BasicBlock*,int> bid; int bn = 0;
   for (auto& B : F) { bid[&B] = bn++; for (auto& I : B) ids[&I] = n++; }
   DominatorTree DT(F); LoopInfo LI(DT);
   json::Object o;
   o["name"] = F.getName().str(); o["dem"] = dem(F.getName());
   if (auto* sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); o["src"]=sp->getName().str(); }
   json::Array args;
   for (auto& a : F.args()) {
      json::Object ao; ao["id"] = ids[&a]; ao["name"] = a.getName().str(); ao["ty"] = tyStr(a.getType());
      if (a.hasStructRetAttr()) { ao["sret"] = tyStr(a.getParamStructRetType()); ao["size"]=(int64_t)DL.getTypeAllocSize(a.getParamStructRetType()).getFixedValue(); }
      if (auto d = a.getDereferenceableBytes()) ao["deref"] = (int64_t)d;
      args.push_back(std::move(ao));
   }
   o["args"] = std::move(args); o["ret"] = tyStr(F.getReturnType());
   json::Array blocks;
   for (auto& B : F) {
      json::Object bo; bo["id"] = bid[&B]; bo["name"] = B.getName().str();
      json::Array ins;
      for (auto& I : B) {
         if (isa<DbgInfoIntrinsic>(I)) continue;
         if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
            auto id = ii->getIntrinsicID();
            if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id==Intrinsic::experimental_noalias_scope_decl) continue;
         }
         json::Object io; io["id"] = ids[&I]; io["op"] = std::string(I.getOpcodeName()); io["ty"] = tyStr(I.getType());
         io["loc"] = locOf(I);
         if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) io["nsw"] = true; if (ob->hasNoUnsignedWrap()) io["nuw"] = true; }
         if (auto* c = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
         if (auto* al = dyn_cast<AllocaInst>(&I)) {
            io["aty"] = tyStr(al->getAllocatedType());
            io["size"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue();
            io["nm"] = al->getName().str();
            io["ops"] = json::Array{opnd(al->getArraySize(),ids)};
         } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            io["ops"] = json::Array{opnd(g->getPointerOperand(),ids)};
            io["steps"] = gepSteps(cast<GEPOperator>(g),DL,ids);
         } else if (auto* p = dyn_cast<PHINode>(&I)) {
            json::Array inc;
            for (unsigned k=0;k<p->getNumIncomingValues();k++)
               inc.push_back(json::Array{(int64_t)bid[p->getIncomingBlock(k)],opnd(p->getIncomingValue(k),ids)});
            io["inc"] = std::move(inc); io["nm"] = p->getName().str();
         } else if (auto* br = dyn_cast<BranchInst>(&I)) {
            json::Array s; for (unsigned k=0;k<br->getNumSuccessors();k++) s.push_back(bid[br->getSuccessor(k)]);
            io["succ"] = std::move(s);
            if (br->isConditional()) io["ops"] = json::Array{opnd(br->getCondition(),ids)};
         } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            json::Array cs;
            for (auto& c : sw->cases()) cs.push_back(json::Array{opnd(c.getCaseValue(),ids),(int64_t)bid[c.getCaseSuccessor()]});
            io["cases"] = std::move(cs); io["def"] = bid[sw->getDefaultDest()];
            io["ops"] = json::Array{opnd(sw->getCondition(),ids)};
         } else if (auto* cb = dyn_cast<CallBase>(&I)) {
            json::Array a;
            for (auto& ar : cb->args()) a.push_back(opnd(ar.get(),ids));
            io["ops"] = std::move(a);
            if (auto* f = cb->getCalledFunction()) { io["callee"] = f->getName().str(); io["dem"] = dem(f->getName());
               json::Array d; bool sret=false;
               for (auto& fa : f->args()) { d.push_back((int64_t)fa.getDereferenceableBytes()); if (fa.hasStructRetAttr()) sret = true; }
               io["deref"] = std::move(d); io["sret"] = sret || cb->hasStructRetAttr();
            } else {
               io["fp"] = opnd(cb->getCalledOperand(),ids);
               io["sret"] = cb->hasStructRetAttr();
               if (auto* md = cb->getMetadata("irx.vcall")) {
                  json::Array v; for (auto& m : md->operands()) v.push_back(cast<MDString>(m)->getString().str());
                  if (v.size() > 2) io["dem"] = dem(cast<MDString>(md->getOperand(2))->getString());
                  io["vcall"] = std::move(v);
               }
            }
         } else {
            json::Array a; for (auto& op : I.operands()) if (!isa<BasicBlock>(op)) a.push_back(opnd(op.get(),ids));
            io["ops"] = std::move(a);
            if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto k : ev->indices()) x.push_back((int64_t)k); io["idx"]=std::move(x);}
            if (auto* iv = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto k : iv->indices()) x.push_back((int64_t)k); io["idx"]=std::move(x);}
            if (auto* ci = dyn_cast<CastInst>(&I)) io["fromty"] = tyStr(ci->getSrcTy());
            if (auto* li = dyn_cast<LoadInst>(&I)) io["size"] = (int64_t)DL.getTypeStoreSize(li->getType()).getFixedValue();
            if (auto* si = dyn_cast<StoreInst>(&I)) io["size"] = (int64_t)DL.getTypeStoreSize(si->getValueOperand()->getType()).getFixedValue();
         }
         ins.push_back(std::move(io));
      }
      bo["ins"] = std::move(ins);
      if (auto* L = LI.getLoopFor(&B)) { bo["loop"] = bid[L->getHeader()]; }
      blocks.push_back(std::move(bo));
   }
   o["blocks"] = std::move(blocks);
   json::Array loops;
   for (auto* L : LI.getLoopsInPreorder()) {
      json::Object lo; lo["header"] = bid[L->getHeader()];
      lo["parent"] = L->getParentLoop() ? bid[L->getParentLoop()->getHeader()] : -1;
      json::Array bs; for (auto* b : L->blocks()) bs.push_back(bid[b]);
      lo["blocks"] = std::move(bs);
      loops.push_back(std::move(lo));
   }
   o["loops"] = std::move(loops);
   return o;
}

// ---- per function effects (after inlining) ---------------------------------
static std::string rootOf(Value* p,std::string& path) {
   // walks GEPs to the root object: "arg:<i>", "alloca", "global", "mem"
   std::vector<std::string> steps;
   for (int n=0;n<64;n++) {
      if (auto* g = dyn_cast<GEPOperator>(p)) {
         Type* s = g->getSourceElementType(); bool first=true; std::vector<std::string> mine;
         for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
            if (first) { first=false; continue; }
            if (auto* st = dyn_cast<StructType>(s)) {
               unsigned k = cast<ConstantInt>(*it)->getZExtValue();
               mine.push_back((st->hasName()?st->getName().str():"?")+"#"+std::to_string(k));
               s = st->getElementType(k);
            } else if (auto* at = dyn_cast<ArrayType>(s)) s = at->getElementType();
         }
         steps.insert(steps.begin(),mine.begin(),mine.end());
         p = g->getPointerOperand();
      } else break;
   }
   path = ""; for (auto& x : steps) { if (!path.empty()) path += "/"; path += x; }
   if (auto* a = dyn_cast<Argument>(p)) return (a->hasStructRetAttr() ? "sret:" : "arg:")+std::to_string(a->getArgNo());
   if (isa<AllocaInst>(p)) return "alloca";
   if (isa<GlobalValue>(p)) return "global";
   return "mem";
}
static json::Object effects(Function& F) {
   json::Object o; json::Array st; json::Array calls; std::set<std::string> seen;
   auto add = [&](Value* p,Type* t) {
      std::string path, r = rootOf(p,path);
      if (r == "alloca") return;
      auto key = r+"|"+path+"|"+tyStr(t);
      if (seen.insert(key).second) st.push_back(json::Array{r,path,tyStr(t)});
   };
   for (auto& B : F) for (auto& I : B) {
      if (auto* s = dyn_cast<StoreInst>(&I)) add(s->getPointerOperand(),s->getValueOperand()->getType());
      else if (auto* m = dyn_cast<MemIntrinsic>(&I)) add(m->getRawDest(),Type::getInt8Ty(F.getContext()));
      else if (auto* cb = dyn_cast<CallBase>(&I)) {
         json::Array tg;
         if (auto* f = cb->getCalledFunction()) { if (f->isIntrinsic()) continue; tg.push_back(f->getName().str()); }
         else if (auto* md = cb->getMetadata("irx.vcall")) { for (unsigned k=2;k<md->getNumOperands();k++) tg.push_back(cast<MDString>(md->getOperand(k))->getString().str()); }
         else tg.push_back("?indirect");
         json::Array ar;
         for (auto& a : cb->args()) { std::string path; std::string r = a->getType()->isPointerTy() ? rootOf(a.get(),path) : "val"; ar.push_back(json::Array{r,path}); }
         calls.push_back(json::Array{std::move(tg),std::move(ar)});
      }
   }
   o["st"] = std::move(st); o["calls"] = std::move(calls); o["dem"] = dem(F.getName());
   return o;
}

int main(int argc,char** argv) {
   if (argc < 4) { errs() << "irx in.bc profile out.json\n"; return 2; }
   LLVMContext C; SMDiagnostic E;
   auto M = parseIRFile(argv[1],E,C);
   if (!M) { E.print("irx",errs()); return 2; }
   std::ifstream pf(argv[2]); std::string line;
   while (std::getline(pf,line)) {
      if (line.empty() || line[0]=='#') continue;
      auto sp = line.find(' '); auto kind = line.substr(0,sp), re = line.substr(sp+1);
      Regex r(re); std::string err;
      if (!r.isValid(err)) { errs() << "bad regex " << re << ": " << err << "\n"; return 2; }
      if (kind == "keep") rules.push_back({true,Regex(re),re});
      else if (kind == "inline") rules.push_back({false,Regex(re),re});
      else if (kind == "root") roots.push_back({re,Regex(re)});
   }
   // C1/C2 constructor aliases: call the function itself
   for (auto it = M->alias_begin();it != M->alias_end();) {
      auto& a = *it++;
      if (auto* f = dyn_cast<Function>(a.getAliasee()->stripPointerCasts())) { a.replaceAllUsesWith(f); }
   }
   gDL = &M->getDataLayout();
   nameVCalls(*M);
   json::Object out; json::Object eff;
   std::map<std::string,std::string> kept;
   std::set<Function*> rootFns;
   for (auto& F : *M) if (!F.isDeclaration()) {
      auto d = dem(F.getName());
      for (auto& r : roots) if (r.second.match(d)) { rootFns.insert(&F); break; }
   }
   for (auto& F : *M) {
      F.removeFnAttr(Attribute::OptimizeNone);
      if (F.isDeclaration()) continue;
      auto d = dem(F.getName());
      if (!keepFn(d) && !rootFns.count(&F)) {
         F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline);
      } else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
      // a root may itself be called from another root: governed by the keep rules
      if (rootFns.count(&F) && !keepFn(d)) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
      if (F.hasLinkOnceLinkage() || F.hasInternalLinkage() || F.hasWeakLinkage() || F.hasAvailableExternallyLinkage()) F.setLinkage(GlobalValue::ExternalLinkage), F.setComdat(nullptr);
   }
   LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
   PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
   PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
   { ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false)); MPM.run(*M,MAM); }
   ModulePassManager MPM;
   const char* pipe = argc > 4 ? argv[4] : "function(sroa,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,sroa,loop-simplify,adce)";
   if (auto e = PB.parsePassPipeline(MPM,pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
   for (auto& F : *M) if (!F.isDeclaration() && !rootFns.count(&F)) {
      // only roots are dumped; drop the other bodies to save time
   }
   MPM.run(*M,MAM);
   for (auto& F : *M) if (!F.isDeclaration()) eff[F.getName().str()] = effects(F);
   out["effects"] = std::move(eff);
   json::Array fns;
   for (auto& F : *M) if (rootFns.count(&F) && !F.isDeclaration()) fns.push_back(dumpFn(F,M->getDataLayout()));
   out["functions"] = std::move(fns);
   // constant tables
   json::Object tabs;
   for (auto& G : M->globals())
      if (G.isConstant() && G.hasInitializer())
         if (auto* a = dyn_cast<ConstantDataArray>(G.getInitializer()))
            if (a->getElementType()->isIntegerTy() && !a->isString() && a->getNumElements() <= 4096) {
               json::Array vs; for (unsigned i=0;i<a->getNumElements();i++) vs.push_back((int64_t)a->getElementAsAPInt(i).getSExtValue());
               json::Object to; to["size"] = (int64_t)a->getElementByteSize(); to["values"] = std::move(vs);
               tabs[G.getName().str()] = std::move(to);
            }
   out["tables"] = std::move(tabs);
   // class layouts from debug info
   DebugInfoFinder DIF; DIF.processModule(*M);
   json::Array tys;
   for (auto* t : DIF.types())
      if (auto* ct = dyn_cast<DICompositeType>(t)) {
         if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type) continue;
         if (ct->isForwardDecl()) continue;
         json::Array ms;
         for (auto* e : ct->getElements())
            if (auto* m = dyn_cast<DIDerivedType>(e))
               if (m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember())
                  ms.push_back(json::Array{m->getName().str(),(int64_t)m->getOffsetInBits(),(int64_t)m->getSizeInBits(),m->getBaseType()?m->getBaseType()->getName().str():""});
         json::Object to; to["name"] = ct->getName().str(); to["id"] = ct->getIdentifier().str(); to["size"] = (int64_t)ct->getSizeInBits(); to["file"]=ct->getFilename().str();
         to["members"] = std::move(ms);
         tys.push_back(std::move(to));
      }
   out["types"] = std::move(tys);
   std::error_code ec; raw_fd_ostream os(argv[3],ec);
   os << json::Value(std::move(out));
   return 0;
}
