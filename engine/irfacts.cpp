// irfacts: dump the facts the analyses need from one LLVM bitcode module (JSON).
//
//   irfacts IN.bc OUT.json KNOWN.txt TUNAME
//
// KNOWN.txt lists "tu:function" of the functions that exist as such in the
// reference tree.  Any *other* function that is defined in this module, whose
// address is never taken and that is not recursive is inlined into its
// callers first, so that extracting a helper does not change what the rules
// see.  After that, scalars are promoted to SSA form (mem2reg).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
#include <fstream>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, int64_t> Ids;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}
static std::string diTypeName(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 8) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType(), depth+1) + "*";
    case dwarf::DW_TAG_const_type: return "const " + diTypeName(D->getBaseType(), depth+1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + diTypeName(D->getBaseType(), depth+1);
    case dwarf::DW_TAG_restrict_type: return diTypeName(D->getBaseType(), depth+1);
    default: return D->getName().str();
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(C->getBaseType(), depth+1);
      for (auto *E : C->getElements())
        if (auto *R = dyn_cast<DISubrange>(E)) {
          if (auto *CI = dyn_cast_if_present<ConstantInt*>(R->getCount()))
            s += "[" + std::to_string(CI->getSExtValue()) + "]";
          else s += "[]";
        }
      return s;
    }
    std::string k = C->getTag() == dwarf::DW_TAG_union_type ? "union " :
      C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "struct ";
    return k + C->getName().str();
  }
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *S = dyn_cast<DISubroutineType>(T)) {
    std::string s = "fn(";
    auto A = S->getTypeArray();
    for (unsigned i = 0; i < A.size(); i++) {
      if (i) s += ",";
      s += A[i] ? diTypeName(A[i], depth+1) : (i ? "..." : "void");
    }
    return s + ")";
  }
  return "?";
}

// composite type by IR struct name, filled from debug info
static std::map<std::string, const DICompositeType*> Comp;

static json::Value opnd(const Value *V, int depth = 0);

static std::string fieldName(StructType *ST, uint64_t idx, std::string &sname) {
  if (!ST->hasName()) return "#" + std::to_string(idx);
  sname = ST->getName().str();
  std::string n = sname;
  auto p = n.find('.'); if (p != std::string::npos) n = n.substr(p+1);
  p = n.rfind('.');
  if (p != std::string::npos && p + 1 < n.size() && isdigit(n[p+1])) n = n.substr(0, p);
  auto it = Comp.find(n);
  if (it == Comp.end()) return "#" + std::to_string(idx);
  uint64_t off = DL->getStructLayout(ST)->getElementOffset(idx) * 8;
  for (auto *E : it->second->getElements())
    if (auto *M = dyn_cast<DIDerivedType>(E))
      if (M->getTag() == dwarf::DW_TAG_member && M->getOffsetInBits() == off)
        return M->getName().str();
  return "#" + std::to_string(idx);
}

// path of a GEP: list of steps, ["f", struct, field, offset] or ["x", operand, elemsize]
static json::Array gepPath(const GEPOperator *G, int depth) {
  json::Array path;
  Type *T = G->getSourceElementType();
  bool first = true;
  for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
    const Value *I = *it;
    if (first) {
      first = false;
      if (auto *C = dyn_cast<ConstantInt>(I)) if (C->isZero()) continue;
      path.push_back(json::Array{"x", opnd(I, depth+1), (int64_t)DL->getTypeAllocSize(T), -1});
      continue;
    }
    if (auto *ST = dyn_cast<StructType>(T)) {
      uint64_t k = cast<ConstantInt>(I)->getZExtValue();
      std::string sn, fn = fieldName(ST, k, sn);
      path.push_back(json::Array{"f", sn, fn, (int64_t)DL->getStructLayout(ST)->getElementOffset(k).getKnownMinValue(),
        (int64_t)DL->getTypeAllocSize(ST->getElementType(k))});
      T = ST->getElementType(k);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      T = AT->getElementType();
      path.push_back(json::Array{"x", opnd(I, depth+1), (int64_t)DL->getTypeAllocSize(T), (int64_t)AT->getNumElements()});
    } else { path.push_back(json::Array{"?"}); break; }
  }
  return path;
}

static json::Value opnd(const Value *V, int depth) {
  if (depth > 12) return json::Array{"?"};
  auto it = Ids.find(V);
  if (it != Ids.end()) return json::Array{isa<Argument>(V) ? "a" : "i", it->second};
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    if (C->getBitWidth() <= 64) return json::Array{"c", C->getSExtValue(), (int64_t)C->getBitWidth()};
    return json::Array{"?"};
  }
  if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
  if (isa<UndefValue>(V)) return json::Array{"undef"};
  if (auto *F = dyn_cast<ConstantFP>(V)) {
    SmallString<32> s; F->getValueAPF().toString(s); return json::Array{"fp", s.str().str()};
  }
  if (auto *GV = dyn_cast<GlobalVariable>(V)) {
    if (GV->hasPrivateLinkage() && GV->hasInitializer()) {
      if (auto *D = dyn_cast<ConstantDataSequential>(GV->getInitializer()))
        if (D->isString()) {
          std::string s = D->getAsString().str();
          if (!s.empty() && s.back() == 0) s.pop_back();
          return json::Array{"s", json::fixUTF8(s), (int64_t)D->getNumElements()};
        }
      if (isa<ConstantAggregateZero>(GV->getInitializer()) && GV->getValueType()->isArrayTy())
        return json::Array{"s", "", (int64_t)GV->getValueType()->getArrayNumElements()};
    }
    return json::Array{"g", GV->getName().str()};
  }
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"fn", F->getName().str()};
  if (auto *A = dyn_cast<GlobalAlias>(V)) return json::Array{"g", A->getName().str()};
  if (auto *G = dyn_cast<GEPOperator>(V)) {
    return json::Array{"gep", opnd(G->getPointerOperand(), depth+1), gepPath(G, depth)};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (CE->isCast()) return json::Array{"cast", CE->getOpcodeName(), opnd(CE->getOperand(0), depth+1)};
    return json::Array{"?"};
  }
  if (isa<ConstantAggregateZero>(V)) return json::Array{"zero"};
  if (isa<ConstantDataSequential>(V)) {
    auto *D = cast<ConstantDataSequential>(V);
    if (D->isString()) { std::string s = D->getAsString().str(); return json::Array{"str", json::fixUTF8(s)}; }
  }
  if (auto *A = dyn_cast<ConstantAggregate>(V)) {
    json::Array arr;
    for (auto &O : A->operands()) arr.push_back(opnd(O.get(), depth+1));
    return json::Array{"agg", std::move(arr)};
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(V)) {
    json::Array arr;
    for (unsigned i = 0; i < D->getNumElements(); i++) arr.push_back(opnd(D->getElementAsConstant(i), depth+1));
    return json::Array{"agg", std::move(arr)};
  }
  if (isa<MetadataAsValue>(V)) return json::Array{"md"};
  if (isa<BasicBlock>(V)) return json::Array{"bb", Ids.count(V) ? Ids[V] : -1};
  return json::Array{"?"};
}

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  std::string tu = argv[4];
  bool raw = argc > 5 && std::string(argv[5]) == "raw";
  std::set<std::string> known;
  { std::ifstream f(argv[3]); std::string l; while (std::getline(f, l)) known.insert(l); }

  // ---- inline what is not part of the reference tree
  json::Array inlined;
  if (!known.empty()) {
    for (Function &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::NoInline);
      if (known.count(tu + ":" + F.getName().str()) || F.getName() == "main" || F.isVarArg()) continue;
      bool ok = true;
      if (F.use_empty()) ok = false;
      for (const Use &U : F.uses()) {
        auto *CB = dyn_cast<CallBase>(U.getUser());
        if (!CB || !CB->isCallee(&U) || CB->getFunction() == &F) { ok = false; break; }
      }
      if (ok) { F.addFnAttr(Attribute::AlwaysInline); inlined.push_back(F.getName().str());
        // (what is left of it is dropped here when static, by the program model when no other unit uses it)
      }
    }
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(false));
    MPM.run(*M, MAM);
    MPM = ModulePassManager();
    // locals without an initialiser: what clang marked becomes an explicit unset value
    for (Function &F : *M) for (BasicBlock &B : F) for (auto It = B.begin(); It != B.end();) {
      Instruction &I = *It++;
      if (!I.getMetadata(LLVMContext::MD_annotation)) continue;
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        auto *A = dyn_cast<AllocaInst>(S->getPointerOperand());
        if (A && isAllocaPromotable(A) && isa<Constant>(S->getValueOperand())) {
          Type *T = S->getValueOperand()->getType();
          std::string n = "__pbsa_undef_" + std::to_string((uint64_t)T->getTypeID()) + "_" + std::to_string(T->isIntegerTy() ? T->getIntegerBitWidth() : 0);
          FunctionCallee C = M->getOrInsertFunction(n, FunctionType::get(T, false));
          auto *CI = CallInst::Create(C, "", &I);
          if (I.getDebugLoc()) CI->setDebugLoc(I.getDebugLoc());
          S->setOperand(0, CI);
          S->setMetadata(LLVMContext::MD_annotation, nullptr);
        } else I.eraseFromParent();
      } else if (isa<CallBase>(&I)) I.eraseFromParent();
    }
    if (!raw) MPM.addPass(createModuleToFunctionPassAdaptor(PromotePass()));
    MPM.run(*M, MAM);
  }

  // ---- debug-info composite types
  DebugInfoFinder DIF; DIF.processModule(*M);
  json::Object structs;
  auto addComp = [&](const std::string &n, const DICompositeType *C) {
    if (n.empty() || Comp.count(n) || C->isForwardDecl()) return;
    if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) return;
    Comp[n] = C;
    json::Array fs;
    for (auto *E : C->getElements())
      if (auto *Mb = dyn_cast<DIDerivedType>(E))
        fs.push_back(json::Array{Mb->getName().str(), (int64_t)Mb->getOffsetInBits()/8, (int64_t)Mb->getSizeInBits()/8, diTypeName(Mb->getBaseType())});
    structs[n] = json::Object{{"size", (int64_t)C->getSizeInBits()/8}, {"fields", std::move(fs)},
       {"file", C->getFile() ? C->getFile()->getFilename().str() : ""}};
  };
  json::Object enums;
  for (auto *T : DIF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      addComp(C->getName().str(), C);
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        json::Array es;
        for (auto *E : C->getElements()) if (auto *N = dyn_cast<DIEnumerator>(E)) es.push_back(json::Array{N->getName().str(), (int64_t)N->getValue().getSExtValue()});
        enums[C->getName().str() + "@" + std::to_string(C->getLine())] = std::move(es);
      }
    }
  }
  for (auto *T : DIF.types())
    if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          addComp(D->getName().str(), C);

  json::Object out;
  out["tu"] = tu; out["inlined"] = std::move(inlined);
  out["structs"] = std::move(structs); out["enums"] = std::move(enums);

  // ---- globals
  json::Array gs;
  for (GlobalVariable &G : M->globals()) {
    if (G.hasPrivateLinkage() && G.hasInitializer() && isa<ConstantDataSequential>(G.getInitializer())) continue;
    json::Object o;
    o["name"] = G.getName().str();
    o["tls"] = G.isThreadLocal(); o["const"] = G.isConstant();
    o["decl"] = G.isDeclaration(); o["internal"] = G.hasLocalLinkage();
    o["ty"] = tyStr(G.getValueType());
    if (G.getValueType()->isSized()) o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    SmallVector<DIGlobalVariableExpression*, 1> E; G.getDebugInfo(E);
    if (!E.empty()) {
      auto *V = E[0]->getVariable();
      o["di"] = V->getName().str(); o["line"] = (int64_t)V->getLine();
      o["file"] = V->getFile() ? V->getFile()->getFilename().str() : "";
      o["dity"] = diTypeName(V->getType());
      if (auto *SP = dyn_cast_or_null<DISubprogram>(V->getScope())) o["scope"] = SP->getName().str();
      else if (auto *LB = dyn_cast_or_null<DILexicalBlock>(V->getScope())) o["scope"] = LB->getSubprogram()->getName().str();
    }
    if (G.hasInitializer()) o["init"] = opnd(G.getInitializer());
    gs.push_back(std::move(o));
  }
  out["globals"] = std::move(gs);

  // ---- functions
  json::Array fns, decls;
  for (Function &F : *M) {
    if (F.isDeclaration()) { if (!F.isIntrinsic() && !F.getName().starts_with("__pbsa_")) decls.push_back(json::Array{F.getName().str(), F.isVarArg(), tyStr(F.getFunctionType())}); continue; }
    if (F.hasFnAttribute(Attribute::AlwaysInline) && F.use_empty() && F.hasLocalLinkage() && !known.count(tu + ":" + F.getName().str())) continue;
    json::Object fo;
    fo["name"] = F.getName().str();
    fo["internal"] = F.hasLocalLinkage();
    fo["vararg"] = F.isVarArg();
    fo["ret"] = tyStr(F.getReturnType());
    if (auto *SP = F.getSubprogram()) {
      fo["line"] = (int64_t)SP->getLine();
      fo["file"] = SP->getFile()->getFilename().str();
      if (SP->getType()) { fo["dity"] = diTypeName(SP->getType()); }
    }
    Ids.clear(); int64_t id = 0;
    json::Array args;
    std::map<unsigned, std::string> argn;
    for (auto &BB : F) for (auto &I : BB) {
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I))
        if (D->getVariable()->getArg() && !I.getDebugLoc().getInlinedAt() && !argn.count(D->getVariable()->getArg()))
          argn[D->getVariable()->getArg()] = D->getVariable()->getName().str();
    }
    for (auto &A : F.args()) { Ids[&A] = id++; args.push_back(json::Array{argn.count(A.getArgNo()+1) ? argn[A.getArgNo()+1] : A.getName().str(), tyStr(A.getType())}); }
    fo["args"] = std::move(args);
    int64_t bid = 0;
    std::map<const Value*, std::string> names, ntypes;
    for (auto &BB : F) {
      Ids[&BB] = bid++;
      for (auto &I : BB) {
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          for (Value *V : D->location_ops())
            if (V && !names.count(V)) { names[V] = D->getVariable()->getName().str(); ntypes[V] = diTypeName(D->getVariable()->getType()); }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(I)) continue;
        Ids[&I] = id++;
      }
    }
    json::Array bbs;
    for (auto &BB : F) {
      json::Array is;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o;
        o["id"] = Ids[&I]; o["op"] = I.getOpcodeName();
        bool undefval = false;
        if (auto *C = dyn_cast<CallInst>(&I))
          if (auto *CF = C->getCalledFunction())
            if (CF->getName().starts_with("__pbsa_undef_")) { if (I.use_empty()) continue; undefval = true; o["op"] = "undefval"; }
        if (!I.getType()->isVoidTy()) o["ty"] = tyStr(I.getType());
        if (names.count(&I)) { o["n"] = names[&I]; o["nty"] = ntypes[&I]; }
        if (DebugLoc L = I.getDebugLoc()) {
          o["l"] = (int64_t)L.getLine();
          DILocation *top = L.get();
          if (top->getInlinedAt()) {
            o["in"] = top->getScope()->getSubprogram()->getName().str();
            while (top->getInlinedAt()) top = top->getInlinedAt();
            o["ol"] = (int64_t)top->getLine();
          }
          auto fn = L->getScope()->getSubprogram() ? cast<DIScope>(L.getScope())->getFilename() : "";
          if (fn != M->getSourceFileName()) o["lf"] = fn.str();
        }
        if (undefval) { o["o"] = json::Array{}; }
        else if (auto *C = dyn_cast<CallBase>(&I)) {
          const Value *cv = C->getCalledOperand()->stripPointerCasts();
          if (auto *CF = dyn_cast<Function>(cv)) o["callee"] = CF->getName().str();
          else if (isa<InlineAsm>(cv)) o["callee"] = "asm";
          else o["calleev"] = opnd(C->getCalledOperand());
          json::Array ops; for (auto &U : C->args()) ops.push_back(opnd(U.get()));
          o["o"] = std::move(ops);
          if (C->doesNotReturn()) o["noret"] = true;
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array ops;
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            ops.push_back(json::Array{opnd(P->getIncomingValue(i)), Ids[P->getIncomingBlock(i)]});
          o["phi"] = std::move(ops);
        } else if (auto *B = dyn_cast<BranchInst>(&I)) {
          if (B->isConditional()) o["o"] = json::Array{opnd(B->getCondition())};
          json::Array s; for (unsigned k = 0; k < B->getNumSuccessors(); k++) s.push_back(Ids[B->getSuccessor(k)]);
          o["s"] = std::move(s);
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          o["o"] = json::Array{opnd(S->getCondition())};
          json::Array s; s.push_back(json::Array{"d", Ids[S->getDefaultDest()]});
          for (auto &c : S->cases()) s.push_back(json::Array{c.getCaseValue()->getSExtValue(), Ids[c.getCaseSuccessor()]});
          o["sw"] = std::move(s);
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          o["o"] = json::Array{opnd(G->getPointerOperand())};
          o["path"] = gepPath(cast<GEPOperator>(G), 0);
          o["set"] = tyStr(G->getSourceElementType());
        } else {
          json::Array ops; for (auto &U : I.operands()) ops.push_back(opnd(U.get()));
          o["o"] = std::move(ops);
          if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            o["aty"] = tyStr(A->getAllocatedType());
            o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType());
            if (A->isArrayAllocation()) o["vla"] = true;
          }
          if (auto *S = dyn_cast<StoreInst>(&I)) o["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType());
          if (isa<LoadInst>(&I)) o["sz"] = (int64_t)DL->getTypeStoreSize(I.getType());
          if (isa<CastInst>(&I)) o["from"] = tyStr(I.getOperand(0)->getType());
        }
        is.push_back(std::move(o));
      }
      bbs.push_back(json::Object{{"id", Ids[&BB]}, {"i", std::move(is)}});
    }
    fo["bbs"] = std::move(bbs);
    fns.push_back(std::move(fo));
  }
  out["funcs"] = std::move(fns); out["decls"] = std::move(decls);
  std::error_code EC; raw_fd_ostream os(argv[2], EC);
  os << json::Value(std::move(out)); os << "\n";
  return 0;
}
