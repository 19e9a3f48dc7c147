// LLVM pass: route every double-precision operation to the symbolic runtime.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
namespace {
// Mutable variables of the code under test (also function-local statics, their guards and thread-local ones) are gathered
// in one linker section, so that a harness can put them back to an earlier state (sym::save_statics).
struct StatePass : PassInfoMixin<StatePass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    if (M.getFunction("asan.module_ctor")) return PreservedAnalyses::all();
    StringRef src = M.getSourceFileName(); bool mine = src.contains("/harness/") || src.contains("/stubs/");
    for (GlobalVariable& g : M.globals()) {
      StringRef n = g.getName();
      if (g.isDeclaration() || g.isConstant() || g.hasSection() || n.starts_with("llvm.") || n.starts_with("__sym") || n.starts_with("_ZStL8__ioinit")) continue;
      if (mine) { bool lib = false; for (const char* q : {"N15bezier_com_traj", "N4tsid", "N7solvers"}) for (const char* z : {"_Z", "_ZZ", "_ZGV", "_ZGVZ"}) lib |= n.starts_with((std::string(z) + q)); if (!lib) continue; }
      if (g.isThreadLocal()) {
        std::vector<CallBase*> cs; for (User* u : g.users()) if (auto* c = dyn_cast<IntrinsicInst>(u)) if (c->getIntrinsicID() == Intrinsic::threadlocal_address) cs.push_back(c);
        g.setThreadLocal(false); for (CallBase* c : cs) { c->replaceAllUsesWith(&g); c->eraseFromParent(); }
      }
      g.setSection("symstate");
    }
    return PreservedAnalyses::none();
  }
};
struct SymPass : PassInfoMixin<SymPass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    LLVMContext& C = M.getContext();
    Type* D = Type::getDoubleTy(C);
    Type* I64 = Type::getInt64Ty(C);
    Type* I32 = Type::getInt32Ty(C);
    Type* I1 = Type::getInt1Ty(C);
    Type* P = PointerType::getUnqual(C);
    auto F2 = [&](const char* n) { return M.getOrInsertFunction(n, FunctionType::get(D, {D, D}, false)); };
    auto F1 = [&](const char* n) { return M.getOrInsertFunction(n, FunctionType::get(D, {D}, false)); };
    FunctionCallee unsup = M.getOrInsertFunction("__sym_unsupported", FunctionType::get(Type::getVoidTy(C), {P}, false));
    FunctionCallee enter = M.getOrInsertFunction("__sym_enter", FunctionType::get(Type::getVoidTy(C), {P, P}, false));
    std::map<std::string, const char*> lib1 = {
        {"sqrt", "__sym_sqrt"}, {"llvm.sqrt.f64", "__sym_sqrt"}, {"fabs", "__sym_fabs"}, {"llvm.fabs.f64", "__sym_fabs"},
        {"floor", "__sym_floor"}, {"llvm.floor.f64", "__sym_floor"}, {"ceil", "__sym_ceil"}, {"llvm.ceil.f64", "__sym_ceil"},
        {"round", "__sym_round"}, {"llvm.round.f64", "__sym_round"}, {"trunc", "__sym_trunc"}, {"llvm.trunc.f64", "__sym_trunc"},
        {"rint", "__sym_round"}, {"nearbyint", "__sym_round"}, {"llvm.rint.f64", "__sym_round"}, {"llvm.nearbyint.f64", "__sym_round"}};
    std::map<std::string, const char*> lib2 = {
        {"pow", "__sym_pow"}, {"llvm.pow.f64", "__sym_pow"}, {"fmin", "__sym_fmin"}, {"llvm.minnum.f64", "__sym_fmin"},
        {"fmax", "__sym_fmax"}, {"llvm.maxnum.f64", "__sym_fmax"}, {"llvm.copysign.f64", "__sym_copysign"}, {"copysign", "__sym_copysign"},
        {"hypot", "__sym_hypot"}, {"fmod", "__sym_frem"}, {"fdim", "__sym_fdim"}};
    std::map<std::string, const char*> mem = {
        {"malloc", "__sym_malloc"}, {"_Znwm", "__sym_new"}, {"_Znam", "__sym_new"}, {"realloc", "__sym_realloc"}};
    std::set<std::string> okd;  // external functions taking doubles that are fine natively
    std::vector<Instruction*> work;
    for (Function& F : M) {
      if (F.isDeclaration()) continue;
      for (Instruction& I : instructions(F)) work.push_back(&I);
    }
    auto strc = [&](IRBuilder<>& B, const std::string& s) { return B.CreateGlobalStringPtr(s); };
    for (Instruction* I : work) {
      IRBuilder<> B(I);
      auto bad = [&](const std::string& why) { B.CreateCall(unsup, {strc(B, why + " in " + I->getFunction()->getName().str())}); };
      auto rep = [&](Value* v) { v->takeName(I); I->replaceAllUsesWith(v); I->eraseFromParent(); };
      switch (I->getOpcode()) {
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
          if (I->getType() != D) { bad(std::string("fp op ") + I->getOpcodeName()); break; }
          const char* n = I->getOpcode() == Instruction::FAdd ? "__sym_fadd" : I->getOpcode() == Instruction::FSub ? "__sym_fsub"
                        : I->getOpcode() == Instruction::FMul ? "__sym_fmul" : I->getOpcode() == Instruction::FDiv ? "__sym_fdiv" : "__sym_frem";
          rep(B.CreateCall(F2(n), {I->getOperand(0), I->getOperand(1)}));
          break; }
        case Instruction::FNeg:
          if (I->getType() != D) { bad("fneg"); break; }
          rep(B.CreateCall(F1("__sym_fneg"), {I->getOperand(0)}));
          break;
        case Instruction::FCmp: {
          auto* c = cast<FCmpInst>(I);
          if (c->getOperand(0)->getType() != D) { bad("fcmp"); break; }
          FunctionCallee f = M.getOrInsertFunction("__sym_fcmp", FunctionType::get(I1, {I32, D, D}, false));
          rep(B.CreateCall(f, {ConstantInt::get(I32, c->getPredicate()), c->getOperand(0), c->getOperand(1)}));
          break; }
        case Instruction::FPToSI: case Instruction::FPToUI: {
          if (I->getOperand(0)->getType() != D) { bad("fptoi"); break; }
          FunctionCallee f = M.getOrInsertFunction("__sym_fptosi", FunctionType::get(I64, {D}, false));
          Value* v = B.CreateCall(f, {I->getOperand(0)});
          if (I->getType() != I64) v = B.CreateSExtOrTrunc(v, I->getType());
          rep(v);
          break; }
        case Instruction::FPTrunc: case Instruction::FPExt:
          bad("fptrunc/fpext");
          break;
        case Instruction::BitCast:
          if (I->getType()->isFPOrFPVectorTy() != I->getOperand(0)->getType()->isFPOrFPVectorTy()) bad("fp bitcast");
          break;
        case Instruction::Call: case Instruction::Invoke: {
          auto* cb = cast<CallBase>(I);
          Function* f = cb->getCalledFunction();
          if (!f) break;
          std::string n = f->getName().str();
          const char* r = nullptr;
          if (lib1.count(n)) r = lib1[n]; else if (lib2.count(n)) r = lib2[n]; else if (mem.count(n)) r = mem[n];
          if (r) {
            FunctionCallee nf = M.getOrInsertFunction(r, f->getFunctionType());
            cb->setCalledFunction(nf);
            cb->setAttributes(AttributeList());
            break;
          }
          if (n == "llvm.fmuladd.f64" || n == "llvm.fma.f64" || n == "fma") {
            Value* m = B.CreateCall(F2("__sym_fmul"), {cb->getArgOperand(0), cb->getArgOperand(1)});
            Value* a = B.CreateCall(F2("__sym_fadd"), {m, cb->getArgOperand(2)});
            rep(a);
            break;
          }
          if (n == "lround" || n == "llround" || n == "lrint" || n == "llrint" || n == "llvm.lround.i64.f64" || n == "llvm.llround.i64.f64" || n == "llvm.lrint.i64.f64" || n == "llvm.llrint.i64.f64") {
            FunctionCallee f = M.getOrInsertFunction("__sym_fptosi", FunctionType::get(I64, {D}, false));
            rep(B.CreateCall(f, {B.CreateCall(F1("__sym_round"), {cb->getArgOperand(0)})}));
            break;
          }
          if (n == "__powidf2" || n.rfind("llvm.powi.f64", 0) == 0) {
            rep(B.CreateCall(F2("__sym_pow"), {cb->getArgOperand(0), B.CreateSIToFP(cb->getArgOperand(1), D)}));
            break;
          }
          if (n.rfind("llvm.is.fpclass", 0) == 0) {
            FunctionCallee g = M.getOrInsertFunction("__sym_fpclass", FunctionType::get(I1, {D, I32}, false));
            rep(B.CreateCall(g, {cb->getArgOperand(0), cb->getArgOperand(1)}));
            break;
          }
          if (f->isDeclaration()) {
            bool fp = f->getReturnType()->isFPOrFPVectorTy();
            for (auto& a : cb->args()) fp |= a->getType()->isFPOrFPVectorTy();
            if (fp && f->isIntrinsic()) bad("intrinsic " + n);
            else if (fp && n.rfind("_Z", 0) != 0 && n.rfind("__sym", 0) != 0 && n.rfind("glp_", 0) != 0 && n.rfind("glp", 0) != 0 && n.rfind("PyFloat_", 0) != 0) bad("external " + n);
          }
          break; }
        default:
          if (I->getType()->isVectorTy() && cast<VectorType>(I->getType())->getElementType()->isFloatingPointTy() &&
              !isa<LoadInst>(I) && !isa<PHINode>(I) && !isa<SelectInst>(I) && !isa<ShuffleVectorInst>(I) &&
              !isa<InsertElementInst>(I) && !isa<ExtractElementInst>(I))
            bad("vector fp");
      }
    }
    // coverage of the code under test
    for (Function& F : M) {
      if (F.isDeclaration()) continue;
      std::string dn = demangle(F.getName().str());
      size_t par = dn.find('(');
      std::string head = dn.substr(0, par);
      size_t lt = head.find('<'); std::string nm = head;
      if (dn.rfind("bezier_com_traj::", 0) && dn.rfind("solvers::", 0) && dn.rfind("tsid::", 0)) {
        // templates print their return type first
        if (lt == std::string::npos) { size_t sp = head.rfind(' '); if (sp == std::string::npos) continue; nm = head.substr(sp + 1); }
        else { size_t k = std::string::npos; int d = 0; for (size_t i = 0; i < head.size(); i++) { if (head[i] == '<') d++; else if (head[i] == '>') d--; else if (head[i] == ' ' && !d) k = i; } if (k == std::string::npos) continue; nm = head.substr(k + 1); }
      }
      bool repo = nm.rfind("bezier_com_traj::", 0) == 0 || nm.rfind("solvers::", 0) == 0 || nm.rfind("tsid::", 0) == 0;
      if (!repo || nm.find("::~") != std::string::npos) continue;
      dn = nm.substr(0, nm.find('<')); if (dn.empty()) continue;
      if (dn.size() > 160) dn = dn.substr(0, 157) + "...";
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      auto* flag = new GlobalVariable(M, Type::getInt8Ty(C), false, GlobalValue::InternalLinkage, ConstantInt::get(Type::getInt8Ty(C), 0), "__symcov");
      B.CreateCall(enter, {flag, strc(B, dn)});
    }
    return PreservedAnalyses::none();
  }
};
}  // namespace
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "sympass") { MPM.addPass(StatePass()); MPM.addPass(SymPass()); return true; }
              if (N == "statepass") { MPM.addPass(StatePass()); return true; }
              return false;
            });
          }};
}
