// irdump: load whole-library LLVM bitcode, normalise it (internalise / inline /
// SSA / unroll, as asked on the command line) and write it as JSON for the
// property analyses in vlib/.  It never executes the program.
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/ModuleSlotTracker.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <sstream>
#include <map>
#include <set>
using namespace llvm;

static cl::opt<std::string> Input(cl::Positional, cl::Required);
static cl::opt<std::string> Output("o", cl::Required);
static cl::opt<std::string> RootsFile("roots", cl::desc("file with root function names; all others become internal"));
static cl::opt<std::string> OpaqueFile("opaque", cl::desc("functions whose bodies are dropped"));
static cl::opt<bool> Externalize("externalize", cl::desc("make local functions external and only write -ll"));
static cl::opt<bool> InlineInternal("inline-internal", cl::desc("alwaysinline every internal function"));
static cl::opt<bool> KeepAll("keep-all", cl::desc("do not drop unreferenced internal functions"));
static cl::opt<bool> WithSCEV("scev");
static cl::opt<std::string> Pipeline("pl", cl::desc("pass pipeline"));
static cl::opt<std::string> SpecFile("spec", cl::desc("specialisations: newname fn argidx=const ..."));
static cl::opt<std::string> EmitLL("ll", cl::desc("also write .ll"));

static StringSet<> readNames(const std::string &f) {
  StringSet<> s;
  std::ifstream in(f);
  std::string l;
  while (in >> l) s.insert(l);
  return s;
}

struct Dumper {
  Module &M;
  const DataLayout &DL;
  json::OStream &J;
  std::map<const Value *, int> Ids;
  std::map<const BasicBlock *, int> BIds;
  std::set<const DICompositeType *> SeenDI;
  std::vector<const DICompositeType *> QueueDI;
  ModuleSlotTracker *MST = nullptr;
  Dumper(Module &M, json::OStream &J) : M(M), DL(M.getDataLayout()), J(J) {}

  std::string tyStr(Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) if (ST->hasName()) return ("%" + ST->getName()).str();
    std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
  }
  void val(const Value *V) {
    J.arrayBegin(); valInner(V); J.arrayEnd();
  }
  void gepSteps(const GEPOperator *G) {
    J.attributeBegin("steps"); J.arrayBegin();
    for (gep_type_iterator GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
      J.arrayBegin();
      if (StructType *ST = GTI.getStructTypeOrNull()) {
        unsigned f = cast<ConstantInt>(GTI.getOperand())->getZExtValue();
        J.value("s"); J.value(tyStr(ST)); J.value((int64_t)f);
        J.value((int64_t)DL.getStructLayout(ST)->getElementOffset(f));
      } else {
        J.value("a"); J.value(tyStr(GTI.getIndexedType()));
        J.value((int64_t)DL.getTypeAllocSize(GTI.getIndexedType()));
        val(GTI.getOperand());
      }
      J.arrayEnd();
    }
    J.arrayEnd(); J.attributeEnd();
  }
  void valInner(const Value *V) {
    auto it = Ids.find(V);
    if (it != Ids.end()) { J.value("v"); J.value(it->second); return; }
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      J.value("i");
      if (CI->getBitWidth() <= 64) J.value(CI->getSExtValue());
      else { SmallString<40> s; CI->getValue().toStringSigned(s); J.value(s.str()); }
      J.value((int64_t)CI->getBitWidth());
      return;
    }
    if (auto *CF = dyn_cast<ConstantFP>(V)) {
      J.value("f");
      APFloat A = CF->getValueAPF(); bool loses;
      A.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &loses);
      uint64_t b = A.bitcastToAPInt().getZExtValue();
      char buf[32]; snprintf(buf, sizeof buf, "%016llx", (unsigned long long)b);
      J.value(buf); J.value(tyStr(CF->getType())); return;
    }
    if (isa<ConstantPointerNull>(V)) { J.value("null"); return; }
    if (isa<UndefValue>(V)) { J.value("undef"); return; }
    if (auto *F = dyn_cast<Function>(V)) { J.value("fn"); J.value(F->getName()); return; }
    if (auto *G = dyn_cast<GlobalValue>(V)) { J.value("g"); J.value(G->getName()); return; }
    if (auto *CDS = dyn_cast<ConstantDataSequential>(V)) {
      if (CDS->isString() || CDS->isCString()) {
        J.value("str"); J.arrayBegin();
        for (unsigned char c : CDS->getAsString()) J.value((int64_t)c);
        J.arrayEnd(); return;
      }
      J.value("agg"); J.arrayBegin();
      for (unsigned i = 0; i < CDS->getNumElements(); i++) val(CDS->getElementAsConstant(i));
      J.arrayEnd(); return;
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
      J.value("agg"); J.arrayBegin();
      for (auto &O : CA->operands()) val(O.get());
      J.arrayEnd(); return;
    }
    if (isa<ConstantAggregateZero>(V)) { J.value("zero"); J.value(tyStr(V->getType())); return; }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      J.value("ce"); J.value(CE->getOpcodeName());
      J.arrayBegin(); for (auto &O : CE->operands()) val(O.get()); J.arrayEnd();
      if (auto *G = dyn_cast<GEPOperator>(V)) {
        APInt Off(64, 0);
        if (G->accumulateConstantOffset(DL, Off)) J.value(Off.getSExtValue());
      }
      return;
    }
    if (auto *MV = dyn_cast<MetadataAsValue>(V)) { (void)MV; J.value("md"); return; }
    if (isa<InlineAsm>(V)) { J.value("asm"); return; }
    J.value("other");
  }
  // ---- debug info types
  void ditype(const DIType *T, int depth = 0) {
    if (!T || depth > 12) { J.value(nullptr); return; }
    if (auto *B = dyn_cast<DIBasicType>(T)) {
      J.array([&] { J.value("base"); J.value(B->getName()); J.value((int64_t)B->getSizeInBits()); J.value((int64_t)B->getEncoding()); });
      return;
    }
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      const char *k = "der";
      switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: k = "ptr"; break;
      case dwarf::DW_TAG_reference_type: k = "ref"; break;
      case dwarf::DW_TAG_rvalue_reference_type: k = "ref"; break;
      case dwarf::DW_TAG_const_type: k = "const"; break;
      case dwarf::DW_TAG_volatile_type: k = "volatile"; break;
      case dwarf::DW_TAG_restrict_type: k = "restrict"; break;
      case dwarf::DW_TAG_typedef: k = "typedef"; break;
      default: break;
      }
      J.array([&] { J.value(k); if (D->getTag() == dwarf::DW_TAG_typedef) J.value(D->getName()); ditype(D->getBaseType(), depth + 1); });
      return;
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_array_type) {
        J.array([&] {
          J.value("array");
          int64_t n = -1;
          for (auto *E : C->getElements())
            if (auto *S = dyn_cast<DISubrange>(E)) if (auto *CI = dyn_cast_if_present<ConstantInt *>(S->getCount())) n = n < 0 ? CI->getSExtValue() : n * CI->getSExtValue();
          J.value(n); ditype(C->getBaseType(), depth + 1);
        });
        return;
      }
      const char *k = C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : C->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct";
      if (SeenDI.insert(C).second) QueueDI.push_back(C);
      J.array([&] { J.value(k); J.value(diName(C)); });
      return;
    }
    if (isa<DISubroutineType>(T)) { J.array([&] { J.value("func"); }); return; }
    J.value(nullptr);
  }
  std::string diName(const DICompositeType *C) {
    if (!C->getName().empty()) return C->getName().str();
    return "anon:" + C->getFilename().str() + ":" + std::to_string(C->getLine());
  }
  void loc(const DebugLoc &L) {
    if (!L) { J.value(nullptr); return; }
    J.arrayBegin();
    const DILocation *D = L.get();
    J.value(D->getFilename()); J.value((int64_t)D->getLine());
    auto *SP = D->getScope()->getSubprogram();
    J.value(SP ? SP->getName() : "");
    if (D->getInlinedAt()) {
      J.arrayBegin();
      for (const DILocation *I = D->getInlinedAt(); I; I = I->getInlinedAt()) {
        J.arrayBegin(); J.value(I->getFilename()); J.value((int64_t)I->getLine());
        auto *S2 = I->getScope()->getSubprogram(); J.value(S2 ? S2->getName() : ""); J.arrayEnd();
      }
      J.arrayEnd();
    }
    J.arrayEnd();
  }
  void func(Function &F, FunctionAnalysisManager &FAM) {
    Ids.clear(); BIds.clear();
    int n = 0;
    for (auto &A : F.args()) Ids[&A] = n++;
    int b = 0;
    for (auto &BB : F) { BIds[&BB] = b++; for (auto &I : BB) if (!isa<DbgInfoIntrinsic>(I)) Ids[&I] = n++; }
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("internal", F.hasLocalLinkage());
    J.attribute("decl", F.isDeclaration());
    J.attribute("noreturn", F.doesNotReturn());
    J.attribute("vararg", F.isVarArg());
    J.attribute("addrtaken", F.hasAddressTaken());
    J.attribute("ret", tyStr(F.getReturnType()));
    if (auto *SP = F.getSubprogram()) {
      J.attribute("file", SP->getFilename()); J.attribute("line", (int64_t)SP->getLine());
      J.attribute("srcname", SP->getName());
      if (auto *T = SP->getType()) {
        J.attributeBegin("ditypes"); J.arrayBegin();
        for (auto *t : T->getTypeArray()) ditype(t);
        J.arrayEnd(); J.attributeEnd();
      }
    }
    J.attributeBegin("args"); J.arrayBegin();
    for (auto &A : F.args()) J.object([&] {
      J.attribute("id", Ids[&A]); J.attribute("name", A.getName()); J.attribute("ty", tyStr(A.getType()));
      if (A.hasStructRetAttr()) J.attribute("sret", tyStr(A.getParamStructRetType()));
      if (A.hasByValAttr()) J.attribute("byval", tyStr(A.getParamByValType()));
    });
    J.arrayEnd(); J.attributeEnd();
    if (!F.isDeclaration()) {
      // variable names of allocas / values
      J.attributeBegin("vars"); J.arrayBegin();
      for (auto &I : instructions(F))
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (D->getNumVariableLocationOps() != 1) continue;
          Value *V = D->getVariableLocationOp(0);
          if (!V || !Ids.count(V)) continue;
          J.array([&] { J.value(Ids[V]); J.value(D->getVariable()->getName()); J.value(isa<DbgDeclareInst>(D) ? "decl" : "val");
            J.value((int64_t)D->getVariable()->getArg()); ditype(D->getVariable()->getType()); });
        }
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("blocks"); J.arrayBegin();
      for (auto &BB : F) {
        J.objectBegin();
        J.attribute("id", BIds[&BB]);
        J.attributeBegin("ins"); J.arrayBegin();
        for (auto &I : BB) { if (isa<DbgInfoIntrinsic>(I)) continue; inst(I); }
        J.arrayEnd(); J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
      if (WithSCEV) scev(F, FAM);
    }
    J.objectEnd();
  }
  void inst(Instruction &I) {
    J.objectBegin();
    J.attribute("id", Ids[&I]);
    J.attribute("op", I.getOpcodeName());
    J.attribute("ty", tyStr(I.getType()));
    if (I.hasName()) J.attribute("nm", I.getName());
    J.attributeBegin("loc"); loc(I.getDebugLoc()); J.attributeEnd();
    if (auto *C = dyn_cast<CallBase>(&I)) {
      J.attributeBegin("ops"); J.arrayBegin();
      for (auto &A : C->args()) val(A.get());
      J.arrayEnd(); J.attributeEnd();
      if (Function *CF = C->getCalledFunction()) J.attribute("callee", CF->getName());
      else { J.attributeBegin("fptr"); val(C->getCalledOperand()); J.attributeEnd(); }
      if (C->doesNotReturn()) J.attribute("noreturn", true);
      if (auto *Inv = dyn_cast<InvokeInst>(&I)) {
        J.attributeBegin("succ"); J.arrayBegin(); J.value(BIds[Inv->getNormalDest()]); J.value(BIds[Inv->getUnwindDest()]); J.arrayEnd(); J.attributeEnd();
      }
    } else if (auto *P = dyn_cast<PHINode>(&I)) {
      J.attributeBegin("inc"); J.arrayBegin();
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { J.arrayBegin(); val(P->getIncomingValue(i)); J.value(BIds[P->getIncomingBlock(i)]); J.arrayEnd(); }
      J.arrayEnd(); J.attributeEnd();
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional()) { J.attributeBegin("ops"); J.arrayBegin(); val(B->getCondition()); J.arrayEnd(); J.attributeEnd(); }
      J.attributeBegin("succ"); J.arrayBegin(); for (unsigned i = 0; i < B->getNumSuccessors(); i++) J.value(BIds[B->getSuccessor(i)]); J.arrayEnd(); J.attributeEnd();
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      J.attributeBegin("ops"); J.arrayBegin(); val(S->getCondition()); J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("cases"); J.arrayBegin();
      for (auto &c : S->cases()) { J.arrayBegin(); J.value(c.getCaseValue()->getSExtValue()); J.value(BIds[c.getCaseSuccessor()]); J.arrayEnd(); }
      J.arrayEnd(); J.attributeEnd();
      J.attribute("default", BIds[S->getDefaultDest()]);
      J.attributeBegin("succ"); J.arrayBegin(); for (unsigned i = 0; i < S->getNumSuccessors(); i++) J.value(BIds[S->getSuccessor(i)]); J.arrayEnd(); J.attributeEnd();
    } else {
      J.attributeBegin("ops"); J.arrayBegin();
      for (auto &O : I.operands()) val(O.get());
      J.arrayEnd(); J.attributeEnd();
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *G = dyn_cast<GEPOperator>(&I)) {
        J.attribute("gty", tyStr(G->getSourceElementType())); gepSteps(G);
        APInt Off(64, 0);
        if (G->accumulateConstantOffset(DL, Off)) J.attribute("coff", Off.getSExtValue());
      }
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("aty", tyStr(A->getAllocatedType())); J.attribute("asz", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
      }
      if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("sz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue()); J.attribute("vty", tyStr(S->getValueOperand()->getType())); }
      if (isa<LoadInst>(&I)) J.attribute("sz", (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue());
      if (auto *C = dyn_cast<CastInst>(&I)) J.attribute("sty", tyStr(C->getSrcTy()));
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) { J.attributeBegin("idx"); J.arrayBegin(); for (auto i : E->indices()) J.value((int64_t)i); J.arrayEnd(); J.attributeEnd(); }
      if (auto *E = dyn_cast<InsertValueInst>(&I)) { J.attributeBegin("idx"); J.arrayBegin(); for (auto i : E->indices()) J.value((int64_t)i); J.arrayEnd(); J.attributeEnd(); }
      if (auto *S = dyn_cast<ShuffleVectorInst>(&I)) { J.attributeBegin("mask"); J.arrayBegin(); for (auto i : S->getShuffleMask()) J.value((int64_t)i); J.arrayEnd(); J.attributeEnd(); }
      if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { if (O->hasNoSignedWrap()) J.attribute("nsw", true); if (O->hasNoUnsignedWrap()) J.attribute("nuw", true); }
    }
    J.objectEnd();
  }
  // ---- scalar evolution
  void scevExpr(const SCEV *S) {
    J.arrayBegin();
    switch (S->getSCEVType()) {
    case scConstant: J.value("c"); { const APInt &A = cast<SCEVConstant>(S)->getAPInt(); if (A.getBitWidth() <= 64) J.value(A.getSExtValue()); else J.value("big"); } break;
    case scVScale: J.value("other"); break;
    case scTruncate: J.value("trunc"); J.value((int64_t)DL.getTypeSizeInBits(S->getType())); scevExpr(cast<SCEVCastExpr>(S)->getOperand()); break;
    case scZeroExtend: J.value("zext"); scevExpr(cast<SCEVCastExpr>(S)->getOperand()); break;
    case scSignExtend: J.value("sext"); scevExpr(cast<SCEVCastExpr>(S)->getOperand()); break;
    case scPtrToInt: J.value("p2i"); scevExpr(cast<SCEVCastExpr>(S)->getOperand()); break;
    case scAddExpr: case scMulExpr: case scUMaxExpr: case scSMaxExpr: case scUMinExpr: case scSMinExpr: case scSequentialUMinExpr: {
      const char *n = S->getSCEVType() == scAddExpr ? "+" : S->getSCEVType() == scMulExpr ? "*" : S->getSCEVType() == scUMaxExpr ? "umax" : S->getSCEVType() == scSMaxExpr ? "smax" : S->getSCEVType() == scUMinExpr ? "umin" : S->getSCEVType() == scSMinExpr ? "smin" : "umin_seq";
      J.value(n);
      for (auto *O : S->operands()) scevExpr(O);
      break;
    }
    case scAddRecExpr: {
      auto *A = cast<SCEVAddRecExpr>(S);
      J.value("rec"); J.value(BIds[A->getLoop()->getHeader()]);
      for (auto *O : A->operands()) scevExpr(O);
      break;
    }
    case scUDivExpr: { auto *D = cast<SCEVUDivExpr>(S); J.value("udiv"); scevExpr(D->getLHS()); scevExpr(D->getRHS()); break; }
    case scUnknown: J.value("u"); val(cast<SCEVUnknown>(S)->getValue()); break;
    case scCouldNotCompute: J.value("?"); break;
    }
    J.arrayEnd();
  }
  void scev(Function &F, FunctionAnalysisManager &FAM) {
    auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    J.attributeBegin("loops"); J.arrayBegin();
    for (Loop *L : LI.getLoopsInPreorder()) {
      J.objectBegin();
      J.attribute("header", BIds[L->getHeader()]);
      J.attribute("depth", (int64_t)L->getLoopDepth());
      if (L->getParentLoop()) J.attribute("parent", BIds[L->getParentLoop()->getHeader()]);
      J.attributeBegin("blocks"); J.arrayBegin(); for (auto *B : L->blocks()) J.value(BIds[B]); J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("btc"); scevExpr(SE.getBackedgeTakenCount(L)); J.attributeEnd();
      J.attributeBegin("sbtc"); scevExpr(SE.getSymbolicMaxBackedgeTakenCount(L)); J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("scev"); J.arrayBegin();
    for (auto &I : instructions(F)) {
      if (isa<DbgInfoIntrinsic>(I) || !Ids.count(&I)) continue;
      if (!SE.isSCEVable(I.getType())) continue;
      bool want = isa<GetElementPtrInst>(I) || isa<PHINode>(I) || isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<LoadInst>(I);
      if (!want) continue;
      const SCEV *S = SE.getSCEV(&I);
      if (isa<SCEVUnknown>(S)) continue;
      J.array([&] { J.value(Ids[&I]); scevExpr(S); });
    }
    J.arrayEnd(); J.attributeEnd();
  }
  void run(FunctionAnalysisManager &FAM) {
    J.objectBegin();
    J.attributeBegin("functions"); J.arrayBegin();
    for (auto &F : M) { if (F.isIntrinsic()) continue; func(F, FAM); }
    J.arrayEnd(); J.attributeEnd();
    Ids.clear();
    J.attributeBegin("globals"); J.arrayBegin();
    for (auto &G : M.globals()) {
      J.objectBegin();
      J.attribute("name", G.getName());
      J.attribute("const", G.isConstant());
      J.attribute("internal", G.hasLocalLinkage());
      J.attribute("decl", G.isDeclaration());
      J.attribute("tls", G.isThreadLocal());
      J.attribute("ty", tyStr(G.getValueType()));
      SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
      if (!GVs.empty()) { auto *DV = GVs[0]->getVariable(); J.attribute("file", DV->getFilename()); J.attribute("line", (int64_t)DV->getLine()); J.attribute("srcname", DV->getName()); J.attributeBegin("ditype"); ditype(DV->getType()); J.attributeEnd();
        if (auto *SP = dyn_cast_or_null<DISubprogram>(DV->getScope())) J.attribute("infn", SP->getName()); }
      if (G.hasInitializer()) { J.attributeBegin("init"); val(G.getInitializer()); J.attributeEnd(); }
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("structs"); J.arrayBegin();
    for (auto *ST : M.getIdentifiedStructTypes()) {
      if (ST->isOpaque() || !ST->isSized()) continue;
      J.objectBegin(); J.attribute("name", tyStr(ST)); J.attribute("size", (int64_t)DL.getTypeAllocSize(ST).getFixedValue());
      J.attributeBegin("fields"); J.arrayBegin();
      auto *SL = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) J.array([&] { J.value((int64_t)SL->getElementOffset(i)); J.value(tyStr(ST->getElementType(i))); J.value((int64_t)DL.getTypeAllocSize(ST->getElementType(i)).getFixedValue()); });
      J.arrayEnd(); J.attributeEnd(); J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    // debug info composites (structs, unions, enums)
    DebugInfoFinder Fi; Fi.processModule(M);
    for (auto *T : Fi.types()) if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() != dwarf::DW_TAG_array_type) if (SeenDI.insert(C).second) QueueDI.push_back(C);
    J.attributeBegin("ditypes"); J.arrayBegin();
    for (size_t q = 0; q < QueueDI.size(); q++) {
      auto *C = QueueDI[q];
      J.objectBegin();
      J.attribute("name", diName(C));
      J.attribute("kind", C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : C->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct");
      J.attribute("file", C->getFilename()); J.attribute("line", (int64_t)C->getLine());
      J.attribute("size", (int64_t)C->getSizeInBits() / 8);
      J.attribute("fwd", C->isForwardDecl());
      J.attributeBegin("els"); J.arrayBegin();
      for (auto *E : C->getElements()) {
        if (auto *En = dyn_cast<DIEnumerator>(E)) J.array([&] { J.value(En->getName()); J.value(En->getValue().getSExtValue()); });
        else if (auto *D = dyn_cast<DIDerivedType>(E)) { if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance) J.array([&] { J.value(D->getName()); J.value((int64_t)D->getOffsetInBits() / 8); J.value((int64_t)D->getSizeInBits() / 8); ditype(D->getBaseType()); }); }
      }
      J.arrayEnd(); J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
};

static bool selfRecursive(Function &F) {
  for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() == &F) return true;
  return false;
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(Input, Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  if (Externalize) { for (auto &F : *M) if (!F.isDeclaration() && F.hasLocalLinkage()) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    std::error_code EC; raw_fd_ostream os(EmitLL, EC); M->print(os, nullptr); return 0; }
  // calls through an unprototyped declaration "T f();" get the type of the definition
  for (auto &F : *M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(C->getCalledOperand())) if (!G->isDeclaration() && !G->isVarArg() && C->getFunctionType() != G->getFunctionType() && C->arg_size() == G->arg_size() && C->getType() == G->getReturnType()) {
    bool same = true; for (unsigned k = 0; k < C->arg_size(); ++k) same &= C->getArgOperand(k)->getType() == G->getArg(k)->getType();
    if (same) C->setCalledFunction(G); }
  if (!OpaqueFile.empty()) { auto O = readNames(OpaqueFile); auto strip = [](StringRef n) { size_t d = n.rfind('.'); if (d != StringRef::npos && d + 1 < n.size() && n.substr(d + 1).find_first_not_of("0123456789") == StringRef::npos) return n.substr(0, d); return n; };
    for (auto &F : *M) if (!F.isDeclaration() && O.contains(strip(F.getName()))) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr);} }
  if (!RootsFile.empty()) {
    auto R = readNames(RootsFile);
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      if (R.contains(F.getName())) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
      else { F.setVisibility(GlobalValue::DefaultVisibility); F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
    }
    for (auto it = M->alias_begin(); it != M->alias_end();) { auto &A = *it++; A.replaceAllUsesWith(A.getAliasee()); A.eraseFromParent(); }
  }
  // specialisations: "newname fn idx=const idx=const" -> wrapper clone with constant arguments
  if (!SpecFile.empty()) {
    std::ifstream in(SpecFile); std::string line;
    while (std::getline(in, line)) {
      std::istringstream ss(line); std::string nn, fn, kv; ss >> nn >> fn;
      Function *F = M->getFunction(fn);
      if (!F || F->isDeclaration()) { errs() << "spec: no function " << fn << "\n"; continue; }
      ValueToValueMapTy VM; Function *C = CloneFunction(F, VM); C->setName(nn); C->setLinkage(GlobalValue::ExternalLinkage); C->setComdat(nullptr);
      C->removeFnAttr(Attribute::AlwaysInline); C->addFnAttr(Attribute::NoInline);
      while (ss >> kv) {
        size_t eq = kv.find('='); unsigned idx = std::stoul(kv.substr(0, eq)); int64_t v = std::stoll(kv.substr(eq + 1));
        Argument *A = C->getArg(idx);
        if (A->getType()->isIntegerTy()) A->replaceAllUsesWith(ConstantInt::get(A->getType(), v, true));
        else if (A->getType()->isPointerTy() && v == 0) A->replaceAllUsesWith(ConstantPointerNull::get(cast<PointerType>(A->getType())));
        else if (A->getType()->isFloatingPointTy()) A->replaceAllUsesWith(ConstantFP::get(A->getType(), (double)v));
      }
    }
  }
  if (InlineInternal) for (auto &F : *M) if (!F.isDeclaration() && F.hasLocalLinkage() && !selfRecursive(F) && !F.isVarArg()) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::AlwaysInline); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  if (!Pipeline.empty()) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, Pipeline)) { errs() << "bad pipeline: " << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  if (!EmitLL.empty()) { std::error_code EC; raw_fd_ostream os(EmitLL, EC); M->print(os, nullptr); }
  std::error_code EC; raw_fd_ostream os(Output, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream J(os);
  Dumper D(*M, J); D.run(FAM);
  return 0;
}
