// LLVM pass: replace every double-precision floating point operation of the compiled /repo code by a
// call into the symbolic runtime (sx_rt.cpp).  Runs at the very start of the optimisation pipeline, so
// no floating point rewriting happens before the instrumentation.
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/PassManager.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Passes/PassPlugin.h>
#include <map>
#include <set>
#include <string>
using namespace llvm;
namespace
{
const std::set<std::string> math1 = {"sin",  "cos",  "tan",   "asin", "acos",  "atan",  "exp",  "log",   "sqrt",
                                     "ceil", "floor", "round", "trunc", "fabs", "sinh", "cosh", "tanh", "cbrt",
                                     "log2", "log10", "exp2",  "rint", "nearbyint"};
const std::set<std::string> math2 = {"atan2", "pow", "fmod", "hypot", "fmin", "fmax", "copysign", "remainder"};
struct SxPass : PassInfoMixin<SxPass>
{
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module & M, ModuleAnalysisManager &)
  {
    LLVMContext & C = M.getContext();
    Type * D = Type::getDoubleTy(C);
    Type * I32 = Type::getInt32Ty(C);
    Type * I64 = Type::getInt64Ty(C);
    Type * VoidTy = Type::getVoidTy(C);
    Type * P = PointerType::getUnqual(C);
    auto f1 = [&](StringRef n) { return M.getOrInsertFunction(n, FunctionType::get(D, {D}, false)); };
    auto f2 = [&](StringRef n) { return M.getOrInsertFunction(n, FunctionType::get(D, {D, D}, false)); };
    std::vector<Instruction *> work;
    for(Function & F : M)
    {
      if(F.isDeclaration()) continue;
      if(F.getName().starts_with("__sx_")) continue;
      for(Instruction & I : instructions(F)) work.push_back(&I);
    }
    for(Instruction * I : work)
    {
      IRBuilder<> B(I);
      Value * R = nullptr;
      if(auto * BO = dyn_cast<BinaryOperator>(I))
      {
        if(BO->getType()->isVectorTy() && BO->getType()->getScalarType()->isFloatingPointTy())
          report_fatal_error("sx: vector fp op");
        if(BO->getType() != D) continue;
        const char * n = nullptr;
        switch(BO->getOpcode())
        {
          case Instruction::FAdd: n = "__sx_fadd"; break;
          case Instruction::FSub: n = "__sx_fsub"; break;
          case Instruction::FMul: n = "__sx_fmul"; break;
          case Instruction::FDiv: n = "__sx_fdiv"; break;
          case Instruction::FRem: n = "__sx_fmod"; break;
          default: break;
        }
        if(!n) continue;
        R = B.CreateCall(f2(n), {BO->getOperand(0), BO->getOperand(1)});
      }
      else if(auto * U = dyn_cast<UnaryOperator>(I))
      {
        if(U->getOpcode() == Instruction::FNeg && U->getType() == D)
          R = B.CreateCall(f1("__sx_fneg"), {U->getOperand(0)});
      }
      else if(auto * FC = dyn_cast<FCmpInst>(I))
      {
        if(FC->getOperand(0)->getType() != D) continue;
        if(FC->getPredicate() == CmpInst::FCMP_FALSE || FC->getPredicate() == CmpInst::FCMP_TRUE) continue;
        auto fn = M.getOrInsertFunction("__sx_fcmp", FunctionType::get(I32, {I32, D, D}, false));
        Value * v = B.CreateCall(
            fn, {ConstantInt::get(I32, (unsigned)FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
        R = B.CreateICmpNE(v, ConstantInt::get(I32, 0));
      }
      else if(isa<FPToSIInst>(I) || isa<FPToUIInst>(I))
      {
        if(I->getOperand(0)->getType() != D) continue;
        auto fn = M.getOrInsertFunction(isa<FPToSIInst>(I) ? "__sx_fptosi" : "__sx_fptoui",
                                        FunctionType::get(I64, {D}, false));
        Value * v = B.CreateCall(fn, {I->getOperand(0)});
        R = I->getType() == I64 ? v : B.CreateIntCast(v, I->getType(), isa<FPToSIInst>(I));
      }
      else if(isa<FPTruncInst>(I) || isa<FPExtInst>(I))
      {
        if(I->getOperand(0)->getType() != D) continue;
        auto fn = M.getOrInsertFunction("__sx_concrete", FunctionType::get(D, {D}, false));
        I->setOperand(0, B.CreateCall(fn, {I->getOperand(0)}));
        continue;
      }
      else if(auto * CB = dyn_cast<CallBase>(I))
      {
        Function * F = CB->getCalledFunction();
        if(!F) continue;
        std::string n = F->getName().str();
        if(F->isIntrinsic() && n.rfind("llvm.", 0) == 0)
        {
          if(n == "llvm.is.fpclass.f64")
          {
            auto fn = M.getOrInsertFunction("__sx_fpclass", FunctionType::get(I32, {D, I32}, false));
            Value * v = B.CreateCall(fn, {CB->getArgOperand(0), CB->getArgOperand(1)});
            R = B.CreateICmpNE(v, ConstantInt::get(I32, 0));
          }
          else if(n.size() > 9 && n.substr(n.size() - 4) == ".f64" && CB->getType() == D)
          {
            std::string s = n.substr(5, n.size() - 9);
            if(s == "minnum") s = "fmin";
            if(s == "maxnum") s = "fmax";
            if(math1.count(s))
              R = B.CreateCall(f1("__sx_" + s), {CB->getArgOperand(0)});
            else if(math2.count(s))
              R = B.CreateCall(f2("__sx_" + s), {CB->getArgOperand(0), CB->getArgOperand(1)});
            else if(s == "fmuladd" || s == "fma")
              R = B.CreateCall(f2("__sx_fadd"),
                               {B.CreateCall(f2("__sx_fmul"), {CB->getArgOperand(0), CB->getArgOperand(1)}),
                                CB->getArgOperand(2)});
            else
              report_fatal_error(Twine("sx: intrinsic ") + n);
          }
        }
        else if(F->isDeclaration() && CB->getType() == D && CB->arg_size() == 1
                && CB->getArgOperand(0)->getType() == D && math1.count(n))
          R = B.CreateCall(f1("__sx_" + n), {CB->getArgOperand(0)});
        else if(F->isDeclaration() && CB->getType() == D && CB->arg_size() == 2
                && CB->getArgOperand(0)->getType() == D && CB->getArgOperand(1)->getType() == D && math2.count(n))
          R = B.CreateCall(f2("__sx_" + n), {CB->getArgOperand(0), CB->getArgOperand(1)});
        if(R)
        {
          if(auto * II = dyn_cast<InvokeInst>(CB))
          {
            B.CreateBr(II->getNormalDest());
            II->getUnwindDest()->removePredecessor(II->getParent());
          }
        }
      }
      if(R)
      {
        I->replaceAllUsesWith(R);
        if(auto * In = dyn_cast<Instruction>(R)) In->takeName(I);
        I->eraseFromParent();
      }
    }
    // record which functions of the code under test are entered
    for(Function & F : M)
    {
      if(F.isDeclaration()) continue;
      std::string dn = demangle(F.getName().str());
      // only functions whose own qualified name starts with the library's namespace
      size_t par = dn.find('(');
      std::string q = dn.substr(0, par);
      if(q.find("stateObservation::") == std::string::npos) continue;
      if(q.rfind("Eigen::", 0) == 0 || q.rfind("std::", 0) == 0 || q.find("Eigen::internal") != std::string::npos
         || q.find("__gnu_cxx") == 0 || q.find("void Eigen::") == 0)
        continue;
      if(q.find(" Eigen::") != std::string::npos || q.find(" std::") != std::string::npos) continue;
      BasicBlock & BB = F.getEntryBlock();
      IRBuilder<> B(&*BB.getFirstInsertionPt());
      auto * flag = new GlobalVariable(M, Type::getInt8Ty(C), false, GlobalValue::InternalLinkage,
                                       ConstantInt::get(Type::getInt8Ty(C), 0), "__sx_flag");
      Value * str = B.CreateGlobalStringPtr(dn, "__sx_name");
      auto fn = M.getOrInsertFunction("__sx_enter", FunctionType::get(VoidTy, {P, P}, false));
      B.CreateCall(fn, {flag, str});
    }
    return PreservedAnalyses::none();
  }
};
} // namespace
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION, "SxPass", "1", [](PassBuilder & PB) {
            PB.registerPipelineStartEPCallback(
                [](ModulePassManager & MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
          }};
}
