// LLVM 18 pass plugin: rewrites every floating point operation of a module into
// a call of the symbolic runtime (sxrt.cpp).  A symbolic double travels through
// registers, memory, phis, selects and containers as a NaN-boxed term handle, so
// only the operations that look at the value of a double have to be rewritten.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/PatternMatch.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdlib>
#include <set>
#include <string>

using namespace llvm;

namespace {

const std::set<std::string> kLibm1 = {"sqrt","sin","cos","tan","asin","acos","atan","exp","log","log2","log10","exp2",
    "floor","ceil","trunc","round","rint","nearbyint","fabs","cbrt","sinh","cosh","tanh","expm1","log1p"};
const std::set<std::string> kLibm2 = {"atan2","pow","fmod","hypot","fmin","fmax","copysign","remainder","fdim"};

// Runs first: records which functions of the library the module contains.
struct RecordPass : PassInfoMixin<RecordPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        const char* out = std::getenv("SX_FUNCS");
        if (!out) return PreservedAnalyses::all();
        std::error_code ec;
        raw_fd_ostream os(out, ec);
        for (auto& F : M) {
            if (F.isDeclaration()) continue;
            std::string n = F.getName().str();
            if (n.find("9geometrix") != std::string::npos)
                os << demangle(n) << "\n";
        }
        return PreservedAnalyses::all();
    }
    static bool isRequired() { return true; }
};

struct SxPass : PassInfoMixin<SxPass> {
    Module* M = nullptr;
    Type *D, *I1, *I32, *I64, *V;

    FunctionCallee fn(const char* name, Type* ret, std::vector<Type*> args) {
        return M->getOrInsertFunction(name, FunctionType::get(ret, args, false));
    }
    Value* toD(IRBuilder<>& B, Value* v) {
        if (v->getType()->isDoubleTy()) return v;
        // float: widen the box
        return B.CreateCall(fn("__sx_f2d", D, {v->getType()}), {v});
    }
    Value* fromD(IRBuilder<>& B, Value* v, Type* t) {
        if (t->isDoubleTy()) return v;
        return B.CreateCall(fn("__sx_d2f", t, {D}), {v});
    }
    static bool isFp(Type* t) { return t->isDoubleTy() || t->isFloatTy(); }
    static bool isFpVec(Type* t) {
        auto* vt = dyn_cast<FixedVectorType>(t);
        return vt && isFp(vt->getElementType());
    }

    Value* bin(IRBuilder<>& B, unsigned op, Value* a, Value* b) {
        Type* t = a->getType();
        Value* r = B.CreateCall(fn("__sx_bin", D, {I32, D, D}), {ConstantInt::get(I32, op), toD(B, a), toD(B, b)});
        return fromD(B, r, t);
    }
    Value* un(IRBuilder<>& B, const char* name, Value* a) {
        Type* t = a->getType();
        Value* r = B.CreateCall(fn(name, D, {D}), {toD(B, a)});
        return fromD(B, r, t);
    }
    Value* bin2(IRBuilder<>& B, const char* name, Value* a, Value* b) {
        Type* t = a->getType();
        Value* r = B.CreateCall(fn(name, D, {D, D}), {toD(B, a), toD(B, b)});
        return fromD(B, r, t);
    }
    // mapping over vector lanes
    template <typename F> Value* lanes(IRBuilder<>& B, Type* resTy, unsigned n, F f) {
        Value* r = PoisonValue::get(resTy);
        for (unsigned i = 0; i < n; ++i) r = B.CreateInsertElement(r, f(i), B.getInt32(i));
        return r;
    }

    void bad(Instruction& I, const char* why) {
        errs() << "sxpass: unsupported (" << why << "): " << I << "\n   in " << demangle(I.getFunction()->getName().str()) << "\n";
    }

    bool handle(Instruction& I) {
        IRBuilder<> B(&I);
        Type* T = I.getType();
        Value* rep = nullptr;
        switch (I.getOpcode()) {
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            unsigned op = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1
                : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4;
            if (isFp(T)) rep = bin(B, op, I.getOperand(0), I.getOperand(1));
            else if (isFpVec(T)) {
                auto* vt = cast<FixedVectorType>(T);
                rep = lanes(B, T, vt->getNumElements(), [&](unsigned i) {
                    return bin(B, op, B.CreateExtractElement(I.getOperand(0), B.getInt32(i)), B.CreateExtractElement(I.getOperand(1), B.getInt32(i))); });
            } else if (T->isX86_FP80Ty()) return false;
            else { bad(I, "fp type"); return false; }
            break;
        }
        case Instruction::FNeg:
            if (isFp(T)) rep = un(B, "__sx_neg", I.getOperand(0));
            else if (isFpVec(T)) {
                auto* vt = cast<FixedVectorType>(T);
                rep = lanes(B, T, vt->getNumElements(), [&](unsigned i) { return un(B, "__sx_neg", B.CreateExtractElement(I.getOperand(0), B.getInt32(i))); });
            } else return false;
            break;
        case Instruction::FCmp: {
            auto* C = cast<FCmpInst>(&I);
            Type* ot = C->getOperand(0)->getType();
            unsigned pred = C->getPredicate();
            auto one = [&](Value* a, Value* b) {
                Value* r = B.CreateCall(fn("__sx_fcmp", I32, {I32, D, D}), {ConstantInt::get(I32, pred), toD(B, a), toD(B, b)});
                return B.CreateTrunc(r, I1);
            };
            if (isFp(ot)) rep = one(C->getOperand(0), C->getOperand(1));
            else if (isFpVec(ot)) {
                auto* vt = cast<FixedVectorType>(ot);
                rep = lanes(B, T, vt->getNumElements(), [&](unsigned i) {
                    return one(B.CreateExtractElement(C->getOperand(0), B.getInt32(i)), B.CreateExtractElement(C->getOperand(1), B.getInt32(i))); });
            } else return false;
            break;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            Type* ot = I.getOperand(0)->getType();
            if (!isFp(ot) || !T->isIntegerTy()) { if (isFpVec(ot)) bad(I, "vector fptoi"); return false; }
            Value* r = B.CreateCall(fn("__sx_ftoi", I64, {D, I32, I32}),
                {toD(B, I.getOperand(0)), ConstantInt::get(I32, T->getIntegerBitWidth()), ConstantInt::get(I32, I.getOpcode() == Instruction::FPToSI)});
            rep = T->getIntegerBitWidth() < 64 ? B.CreateTrunc(r, T) : T->getIntegerBitWidth() == 64 ? r : B.CreateSExt(r, T);
            break;
        }
        case Instruction::FPExt:
            if (T->isDoubleTy() && I.getOperand(0)->getType()->isFloatTy()) rep = toD(B, I.getOperand(0));
            else if (T->isX86_FP80Ty()) { B.CreateCall(fn("__sx_concrete", V, {D}), {toD(B, I.getOperand(0))}); return false; }
            else if (isFpVec(T)) {
                auto* vt = cast<FixedVectorType>(T);
                rep = lanes(B, T, vt->getNumElements(), [&](unsigned i) { return toD(B, B.CreateExtractElement(I.getOperand(0), B.getInt32(i))); });
            } else return false;
            break;
        case Instruction::FPTrunc:
            if (T->isFloatTy() && I.getOperand(0)->getType()->isDoubleTy()) rep = fromD(B, I.getOperand(0), T);
            else if (isFpVec(T) && !I.getOperand(0)->getType()->getScalarType()->isX86_FP80Ty()) {
                auto* vt = cast<FixedVectorType>(T);
                rep = lanes(B, T, vt->getNumElements(), [&](unsigned i) { return fromD(B, B.CreateExtractElement(I.getOperand(0), B.getInt32(i)), vt->getElementType()); });
            } else return false;
            break;
        case Instruction::ICmp: {
            // sign bit test of a bitcast double
            ICmpInst* C = cast<ICmpInst>(&I);
            auto* bc = dyn_cast<BitCastInst>(C->getOperand(0));
            if (!bc || !bc->getOperand(0)->getType()->isDoubleTy()) return false;
            auto* k = dyn_cast<ConstantInt>(C->getOperand(1));
            if (k && k->isZero() && C->getPredicate() == ICmpInst::ICMP_SLT) {
                rep = B.CreateTrunc(B.CreateCall(fn("__sx_signbit", I32, {D}), {bc->getOperand(0)}), I1);
            } else if (k && k->isMinusOne() && C->getPredicate() == ICmpInst::ICMP_SGT) {
                rep = B.CreateNot(B.CreateTrunc(B.CreateCall(fn("__sx_signbit", I32, {D}), {bc->getOperand(0)}), I1));
            } else { B.CreateCall(fn("__sx_concrete", V, {D}), {bc->getOperand(0)}); return false; }
            break;
        }
        case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(I), B);
        default: return false;
        }
        if (!rep) return false;
        I.replaceAllUsesWith(rep);
        I.eraseFromParent();
        return true;
    }

    bool call(CallBase& C, IRBuilder<>& B) {
        Function* F = C.getCalledFunction();
        if (!F) return false;
        Type* T = C.getType();
        Value* rep = nullptr;
        if (F->isIntrinsic()) {
            const char* u = nullptr; const char* b2 = nullptr;
            switch (F->getIntrinsicID()) {
            case Intrinsic::fabs: u = "__sx_fabs"; break;
            case Intrinsic::sqrt: u = "__sx_sqrt"; break;
            case Intrinsic::floor: u = "__sx_floor"; break;
            case Intrinsic::ceil: u = "__sx_ceil"; break;
            case Intrinsic::trunc: u = "__sx_trunc"; break;
            case Intrinsic::round: u = "__sx_round"; break;
            case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: u = "__sx_rint"; break;
            case Intrinsic::sin: u = "__sx_sin"; break;
            case Intrinsic::cos: u = "__sx_cos"; break;
            case Intrinsic::exp: u = "__sx_exp"; break;
            case Intrinsic::log: u = "__sx_log"; break;
            case Intrinsic::minnum: b2 = "__sx_fmin"; break;
            case Intrinsic::maxnum: b2 = "__sx_fmax"; break;
            case Intrinsic::copysign: b2 = "__sx_copysign"; break;
            case Intrinsic::pow: b2 = "__sx_pow"; break;
            case Intrinsic::fma: case Intrinsic::fmuladd:
                if (isFp(T)) { Value* m = bin(B, 2, C.getArgOperand(0), C.getArgOperand(1)); rep = bin(B, 0, m, C.getArgOperand(2)); }
                break;
            case Intrinsic::powi:
                if (isFp(T)) { Value* e = B.CreateSIToFP(C.getArgOperand(1), D); rep = fromD(B, B.CreateCall(fn("__sx_pow", D, {D, D}), {toD(B, C.getArgOperand(0)), e}), T); }
                break;
            case Intrinsic::is_fpclass:
                if (isFp(C.getArgOperand(0)->getType())) {
                    Value* r = B.CreateCall(fn("__sx_fpclass", I32, {D, I32}), {toD(B, C.getArgOperand(0)), C.getArgOperand(1)});
                    rep = B.CreateTrunc(r, I1);
                }
                break;
            default: {
                StringRef n = F->getName();
                if (n.contains("llvm.lifetime") || n.contains("llvm.dbg") || n.contains("llvm.mem") || n.contains("llvm.assume") ) return false;
                if (isFp(T) || isFpVec(T)) bad(C, "intrinsic");
                for (auto& a : C.args()) if (isFpVec(a->getType()) || isFp(a->getType())) { bad(C, "intrinsic"); break; }
                return false;
            }
            }
            if (!rep && u) {
                if (isFp(T)) rep = un(B, u, C.getArgOperand(0));
                else if (isFpVec(T)) rep = lanes(B, T, cast<FixedVectorType>(T)->getNumElements(), [&](unsigned i) { return un(B, u, B.CreateExtractElement(C.getArgOperand(0), B.getInt32(i))); });
            }
            if (!rep && b2 && isFp(T)) rep = bin2(B, b2, C.getArgOperand(0), C.getArgOperand(1));
            if (!rep) { bad(C, "intrinsic"); return false; }
        } else {
            if (!F->isDeclaration()) return false;
            std::string n = F->getName().str();
            if (StringRef(n).starts_with("__sx_") || StringRef(n).starts_with("sx_")) return false;
            std::string base = n;
            if (T->isFloatTy() && !base.empty() && base.back() == 'f') base.pop_back();
            if (isFp(T) && kLibm1.count(base) && C.arg_size() == 1) rep = un(B, ("__sx_" + base).c_str(), C.getArgOperand(0));
            else if (isFp(T) && kLibm2.count(base) && C.arg_size() == 2) rep = bin2(B, ("__sx_" + base).c_str(), C.getArgOperand(0), C.getArgOperand(1));
            else {
                // an external function we do not interpret must not see a symbolic value
                for (auto& a : C.args())
                    if (isFp(a->getType())) B.CreateCall(fn("__sx_concrete", V, {D}), {toD(B, a)});
                return false;
            }
        }
        if (auto* inv = dyn_cast<InvokeInst>(&C)) {
            IRBuilder<> B2(inv);
            B2.CreateBr(inv->getNormalDest());
            inv->getUnwindDest()->removePredecessor(inv->getParent());
        }
        C.replaceAllUsesWith(rep);
        C.eraseFromParent();
        return true;
    }

    PreservedAnalyses run(Module& Mod, ModuleAnalysisManager&) {
        M = &Mod;
        auto& X = Mod.getContext();
        D = Type::getDoubleTy(X); I1 = Type::getInt1Ty(X); I32 = Type::getInt32Ty(X); I64 = Type::getInt64Ty(X); V = Type::getVoidTy(X);
        unsigned n = 0;
        for (auto& F : Mod) {
            if (F.isDeclaration()) continue;
            std::vector<Instruction*> todo;
            for (auto& I : instructions(F)) todo.push_back(&I);
            for (auto* I : todo) n += handle(*I);
        }
        if (const char* out = std::getenv("SX_STATS")) {
            std::error_code ec; raw_fd_ostream os(out, ec); os << n << "\n";
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder& PB) {
        PB.registerPipelineStartEPCallback([](ModulePassManager& PM, OptimizationLevel) { PM.addPass(RecordPass()); });
        PB.registerOptimizerLastEPCallback([](ModulePassManager& PM, OptimizationLevel) { PM.addPass(SxPass()); });
    }};
}
