// irdump: loads LLVM bitcode, normalises it (selective inlining of standard-library
// accessors, SSA construction) and prints the functions reachable from the selected
// roots as JSON, with debug-info record types and enumerations.
#include "llvm/ADT/StringExtras.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;

static string js(StringRef s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Dumper {
  Module &M; const DataLayout &DL; raw_ostream &O;
  std::map<const Value *, int> ids;
  Dumper(Module &M, raw_ostream &O) : M(M), DL(M.getDataLayout()), O(O) {}

  string ty(Type *T) {
    if (T->isVoidTy()) return "v";
    if (T->isPointerTy()) return "p";
    if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
    if (T->isFloatingPointTy()) return "f" + std::to_string(T->getPrimitiveSizeInBits());
    if (T->isSized()) return "s" + std::to_string(DL.getTypeAllocSize(T).getFixedValue());
    return "x";
  }
  string constant(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      SmallString<40> s; CI->getValue().toStringSigned(s);
      if (CI->getBitWidth() == 1) return string("[\"c\",") + (CI->isZero() ? "0" : "1") + ",1]";
      return "[\"c\"," + string(s) + "," + std::to_string(CI->getBitWidth()) + "]";
    }
    if (isa<ConstantPointerNull>(C)) return "[\"c\",0,64]";
    if (auto *F = dyn_cast<ConstantFP>(C)) {
      SmallString<40> s; F->getValueAPF().toString(s);
      return "[\"f\"," + js(s) + "]";
    }
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return constant(GA->getAliasee());
    if (auto *G = dyn_cast<GlobalValue>(C)) return "[\"g\"," + js(G->getName()) + ",0]";
    if (isa<UndefValue>(C)) return "[\"u\"]";
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      APInt off(64, 0);
      if (CE->getType()->isPointerTy()) {
        const Value *B = CE->stripAndAccumulateConstantOffsets(DL, off, true);
        if (auto *G = dyn_cast<GlobalValue>(B))
          return "[\"g\"," + js(G->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
      }
      string r = "[\"ce\"," + js(CE->getOpcodeName());
      for (auto &U : CE->operands()) r += "," + constant(cast<Constant>(U));
      return r + "]";
    }
    if (isa<ConstantAggregateZero>(C)) return "[\"z\"," + std::to_string(DL.getTypeAllocSize(C->getType()).getFixedValue()) + "]";
    if (auto *CA = dyn_cast<ConstantDataArray>(C)) {
      if (CA->isString()) return "[\"str\"," + js(CA->getAsString()) + "]";
      string r = "[\"arr\"," + std::to_string(CA->getElementByteSize());
      for (unsigned i = 0; i < CA->getNumElements(); i++) r += "," + constant(CA->getElementAsConstant(i));
      return r + "]";
    }
    if (auto *CA = dyn_cast<ConstantArray>(C)) {
      string r = "[\"arr\"," + std::to_string(DL.getTypeAllocSize(CA->getType()->getElementType()).getFixedValue());
      for (auto &U : CA->operands()) r += "," + constant(cast<Constant>(U));
      return r + "]";
    }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
      const StructLayout *SL = DL.getStructLayout(CS->getType());
      string r = "[\"st\"";
      for (unsigned i = 0; i < CS->getNumOperands(); i++)
        r += ",[" + std::to_string((uint64_t)SL->getElementOffset(i)) + "," + constant(CS->getOperand(i)) + "]";
      return r + "]";
    }
    return "[\"u\"]";
  }
  string op(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (auto *A = dyn_cast<Argument>(V)) return "[\"a\"," + std::to_string(A->getArgNo()) + "]";
    if (auto *I = dyn_cast<Instruction>(V)) return "[\"i\"," + std::to_string(ids[I]) + "]";
    if (auto *B = dyn_cast<BasicBlock>(V)) return "[\"b\"," + std::to_string(ids[B]) + "]";
    return "[\"u\"]";
  }
  void func(Function &F, bool &firstF) {
    ids.clear();
    int n = 0, b = 0;
    for (auto &BB : F) { ids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    if (!firstF) O << ",\n"; firstF = false;
    string file; int line = 0; string spname;
    if (auto *SP = F.getSubprogram()) { file = SP->getFilename().str(); line = SP->getLine(); spname = SP->getName().str(); }
    O << "{\"name\":" << js(F.getName()) << ",\"dem\":" << js(demangle(F.getName().str())) << ",\"file\":" << js(file)
      << ",\"line\":" << line << ",\"sp\":" << js(spname) << ",\"link\":" << (int)F.getLinkage() << ",\"args\":[";
    for (auto &A : F.args()) {
      if (A.getArgNo()) O << ",";
      O << "[" << js(A.getName()) << "," << js(ty(A.getType())) << "," << (A.hasStructRetAttr() ? 1 : 0) << "]";
    }
    O << "],\"ret\":" << js(ty(F.getReturnType())) << ",\"blocks\":[";
    bool fb = true;
    for (auto &BB : F) {
      if (!fb) O << ","; fb = false;
      O << "[";
      bool fi = true;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          auto id = II->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume) continue;
        }
        if (!fi) O << ","; fi = false;
        inst(I);
      }
      O << "]";
    }
    O << "]}";
  }
  void inst(Instruction &I) {
    O << "{\"k\":" << ids[&I] << ",\"op\":" << js(I.getOpcodeName()) << ",\"t\":" << js(ty(I.getType()));
    if (auto &L = I.getDebugLoc()) {
      // outermost-inlined chain: report innermost location first
      O << ",\"l\":" << L.getLine() << ",\"c\":" << L.getCol();
      if (auto *S = L->getScope()) O << ",\"f\":" << js(S->getFilename());
      if (auto *IA = L->getInlinedAt()) O << ",\"il\":" << IA->getLine();
    }
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      O << ",\"sz\":" << DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue() << ",\"n\":" << js(A->getName());
      if (auto *ST = dyn_cast<StructType>(A->getAllocatedType())) if (ST->hasName()) O << ",\"st\":" << js(ST->getName());
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      MapVector<Value *, APInt> var; APInt off(64, 0);
      if (cast<GEPOperator>(G)->collectOffset(DL, 64, var, off)) {
        O << ",\"o\":[" << op(G->getPointerOperand()) << "],\"off\":" << off.getSExtValue() << ",\"var\":[";
        bool f = true;
        for (auto &p : var) { if (!f) O << ","; f = false; O << "[" << op(p.first) << "," << p.second.getSExtValue() << "]"; }
        O << "]";
      } else O << ",\"o\":[[\"u\"]],\"off\":0,\"var\":[]";
    } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
      O << ",\"p\":" << js(CmpInst::getPredicateName(C->getPredicate())) << ",\"w\":" << js(ty(C->getOperand(0)->getType())) << ",\"o\":[" << op(C->getOperand(0)) << "," << op(C->getOperand(1)) << "]";
    } else if (auto *C = dyn_cast<FCmpInst>(&I)) {
      O << ",\"p\":" << js(CmpInst::getPredicateName(C->getPredicate())) << ",\"o\":[" << op(C->getOperand(0)) << "," << op(C->getOperand(1)) << "]";
    } else if (auto *P = dyn_cast<PHINode>(&I)) {
      O << ",\"o\":[";
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) O << ","; O << "[" << ids[P->getIncomingBlock(i)] << "," << op(P->getIncomingValue(i)) << "]"; }
      O << "]";
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      O << ",\"s\":["; for (unsigned i = 0; i < B->getNumSuccessors(); i++) { if (i) O << ","; O << ids[B->getSuccessor(i)]; } O << "]";
      if (B->isConditional()) O << ",\"o\":[" << op(B->getCondition()) << "]";
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      O << ",\"o\":[" << op(S->getCondition()) << "],\"d\":" << ids[S->getDefaultDest()] << ",\"w\":" << js(ty(S->getCondition()->getType())) << ",\"cs\":[";
      bool f = true;
      for (auto &c : S->cases()) { if (!f) O << ","; f = false; O << "[" << c.getCaseValue()->getSExtValue() << "," << ids[c.getCaseSuccessor()] << "]"; }
      O << "]";
    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
      auto *CF = CB->getCalledOperand()->stripPointerCasts();
      if (auto *F = dyn_cast<Function>(CF)) {
        O << ",\"fn\":" << js(F->getName());
        if (F->doesNotReturn() || CB->doesNotReturn()) O << ",\"nr\":1";
      } else O << ",\"fp\":" << op(CF);
      O << ",\"o\":[";
      for (unsigned i = 0; i < CB->arg_size(); i++) { if (i) O << ","; O << op(CB->getArgOperand(i)); }
      O << "]";
      if (auto *II = dyn_cast<InvokeInst>(CB)) O << ",\"s\":[" << ids[II->getNormalDest()] << "," << ids[II->getUnwindDest()] << "]";
    } else if (auto *L = dyn_cast<LoadInst>(&I)) {
      O << ",\"o\":[" << op(L->getPointerOperand()) << "]";
    } else if (auto *S = dyn_cast<StoreInst>(&I)) {
      O << ",\"w\":" << js(ty(S->getValueOperand()->getType())) << ",\"o\":[" << op(S->getValueOperand()) << "," << op(S->getPointerOperand()) << "]";
    } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
      O << ",\"ix\":["; bool f = true; for (auto x : E->indices()) { if (!f) O << ","; f = false; O << x; } O << "],\"o\":[" << op(E->getAggregateOperand()) << "]";
    } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
      O << ",\"ix\":["; bool f = true; for (auto x : E->indices()) { if (!f) O << ","; f = false; O << x; } O << "],\"o\":[" << op(E->getAggregateOperand()) << "," << op(E->getInsertedValueOperand()) << "]";
    } else {
      if (isa<CastInst>(I)) O << ",\"w\":" << js(ty(I.getOperand(0)->getType()));
      O << ",\"o\":[";
      for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ","; O << op(I.getOperand(i)); }
      O << "]";
    }
    O << "}";
  }
};

int main(int argc, char **argv) {
  // irdump OUT.json CONFIG in.bc...   CONFIG lines: "inline REGEX" | "keep REGEX" | "root REGEX" | "stop REGEX"
  if (argc < 4) { errs() << "usage\n"; return 2; }
  std::vector<std::regex> inl, keep, root, stop; std::vector<string> passes;
  { std::ifstream f(argv[2]); string k, r; while (f >> k && std::getline(f, r)) {
      r.erase(0, r.find_first_not_of(' ')); auto re = [&]{ return std::regex(r, std::regex::optimize); };
      if (k == "inline") inl.push_back(re()); else if (k == "keep") keep.push_back(re());
      else if (k == "root") root.push_back(re()); else if (k == "stop") stop.push_back(re());
      else if (k == "passes") passes.push_back(r); } }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[3], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  { Linker L(*M);
    for (int i = 4; i < argc; i++) {
      auto N = parseIRFile(argv[i], Err, Ctx);
      if (!N) { Err.print(argv[0], errs()); return 2; }
      if (L.linkInModule(std::move(N))) { errs() << "link failed " << argv[i] << "\n"; return 2; }
    } }
  auto matches = [](std::vector<std::regex> &v, const string &s) { for (auto &r : v) if (std::regex_search(s, r)) return true; return false; };
  std::map<const Function *, string> dem;
  for (auto &F : *M) {
    string d = demangle(F.getName().str()); dem[&F] = d;
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    if (matches(inl, d) && !matches(keep, d)) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
    else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
  }
  // reachability from roots before optimisation, to drop everything else
  auto reach = [&](std::set<Function *> &seen) {
    std::vector<Function *> w;
    for (auto &F : *M) if (!F.isDeclaration() && matches(root, dem.count(&F) ? dem[&F] : string())) { seen.insert(&F); w.push_back(&F); }
    while (!w.empty()) { Function *F = w.back(); w.pop_back();
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I))
        if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()))
          if (!C->isDeclaration() && !seen.count(C) && !matches(stop, dem[C])) { seen.insert(C); w.push_back(C); } } };
  // debug-info types first
  std::error_code EC; raw_fd_ostream O(argv[1], EC);
  if (EC) { errs() << EC.message(); return 2; }
  DebugInfoFinder DF; DF.processModule(*M);
  O << "{\"records\":{";
  { bool first = true; std::set<string> done;
    auto tname = [](const DIType *T) {
      string pre, suf;
      for (int i = 0; i < 12 && T; i++) {
        if (auto *D = dyn_cast<DIDerivedType>(T)) {
          switch (D->getTag()) { case dwarf::DW_TAG_pointer_type: suf = "*" + suf; break; case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: suf = "&" + suf; break; default: break; }
          if (D->getTag() == dwarf::DW_TAG_typedef) {
             // keep resolving typedefs so that names are canonical
          }
          T = D->getBaseType();
        } else break;
      }
      string n = T ? T->getName().str() : "void";
      if (T) if (auto *CT = dyn_cast<DICompositeType>(T)) {
        if (CT->getTag() == dwarf::DW_TAG_array_type) { n = "array"; if (CT->getBaseType()) n = "array:" + CT->getBaseType()->getName().str(); }
        else { for (const DIScope *S = CT->getScope(); S; S = S->getScope()) { if (isa<DICompositeType>(S) || isa<DINamespace>(S)) n = S->getName().str() + "::" + n; else break; } }
      }
      return n + suf; };
    for (auto *T : DF.types()) {
      auto *CT = dyn_cast<DICompositeType>(T); if (!CT) continue;
      if (CT->isForwardDecl()) continue;
      auto tag = CT->getTag();
      if (tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_enumeration_type && tag != dwarf::DW_TAG_union_type) continue;
      string n = tname(CT);
      if (StringRef(n).starts_with("std::") || StringRef(n).starts_with("__gnu") ) continue;
      if (n.empty() || done.count(n)) continue; done.insert(n);
      if (!first) O << ",\n"; first = false;
      O << js(n) << ":{\"size\":" << CT->getSizeInBits() / 8 << ",\"file\":" << js(CT->getFilename()) << ",\"line\":" << CT->getLine();
      if (tag == dwarf::DW_TAG_enumeration_type) {
        O << ",\"enum\":{"; bool f = true;
        for (auto *E : CT->getElements()) if (auto *En = dyn_cast<DIEnumerator>(E)) { if (!f) O << ","; f = false; SmallString<24> s; En->getValue().toStringSigned(s); O << js(En->getName()) << ":" << s; }
        O << "}";
      } else {
        O << ",\"fields\":["; bool f = true;
        for (auto *E : CT->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) {
          if (D->isStaticMember()) continue;
          bool base = D->getTag() == dwarf::DW_TAG_inheritance;
          if (!base && D->getTag() != dwarf::DW_TAG_member) continue;
          if (!f) O << ","; f = false;
          uint64_t sz = D->getSizeInBits() / 8; if (base && D->getBaseType()) sz = D->getBaseType()->getSizeInBits() / 8;
          O << "[" << js(base ? "<base>" : D->getName().str()) << "," << D->getOffsetInBits() / 8 << "," << sz << "," << js(tname(D->getBaseType())) << "]";
        }
        O << "],\"virt\":["; f = true;
        for (auto *E : CT->getElements()) if (auto *SP = dyn_cast<DISubprogram>(E)) {
          if (!SP->getVirtuality()) continue;
          if (!f) O << ","; f = false;
          O << "[" << SP->getVirtualIndex() << "," << js(SP->getName()) << "," << js(SP->getLinkageName()) << "," << (SP->getVirtuality() == dwarf::DW_VIRTUALITY_pure_virtual ? 1 : 0) << "]";
        }
        O << "]";
      }
      O << "}";
    }
  }
  O << "},\n";
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    { // delete unreachable bodies for speed
      std::set<Function *> seen; reach(seen);
      for (auto &F : *M) if (!F.isDeclaration() && !seen.count(&F)) { F.deleteBody(); F.setComdat(nullptr); } }
    if (passes.empty()) passes.push_back("always-inline,function(sroa<modify-cfg>,mem2reg,instsimplify,simplifycfg<no-switch-to-lookup;keep-loops;no-hoist-common-insts;no-sink-common-insts>,sroa<modify-cfg>,instsimplify,dce)");
    for (auto &p : passes) { ModulePassManager MPM; if (auto E = PB.parsePassPipeline(MPM, p)) { errs() << "bad passes: " << toString(std::move(E)) << "\n"; return 2; } MPM.run(*M, MAM); } }
  for (auto &F : *M) if (!dem.count(&F)) dem[&F] = demangle(F.getName().str());
  std::set<Function *> seen; reach(seen);
  Dumper D(*M, O);
  O << "\"functions\":[\n";
  bool ff = true; for (auto &F : *M) if (seen.count(&F)) D.func(F, ff);
  O << "],\n\"decls\":{";
  { bool f = true; for (auto &F : *M) if (F.isDeclaration() || !seen.count(&F)) { if (!f) O << ","; f = false; O << js(F.getName()) << ":" << js(dem[&F]); } }
  O << "},\n\"globals\":{";
  { bool f = true; for (auto &G : M->globals()) { if (!f) O << ",\n"; f = false; O << js(G.getName()) << ":{\"const\":" << (G.isConstant() ? 1 : 0) << ",\"dem\":" << js(demangle(G.getName().str())); if (G.hasInitializer()) O << ",\"init\":" << D.constant(G.getInitializer()); O << "}"; } }
  O << "}}\n";
  return 0;
}
