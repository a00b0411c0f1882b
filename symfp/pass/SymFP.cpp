// LLVM pass plugin: turns floating point code into calls of the symbolic runtime.
//
//   symfp-pre    runs before optimisation: marks the functions of the code under test (so that the
//                evidence can list which were executed) and redirects a few library functions.
//   symfp-instr  runs after optimisation: every FP operation, comparison, conversion and math call
//                becomes a runtime call.
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/Regex.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>

using namespace llvm;

static cl::opt<std::string> SrcRoot("symfp-src", cl::desc("path fragment of code under test"), cl::init("src/tinymesh"));
static cl::opt<bool> RealHash("symfp-real-hash", cl::desc("keep std::hash<double>"), cl::init(false));
static cl::opt<bool> RedirectOnly("symfp-redirect-only", cl::desc("no function marks"), cl::init(false));
static cl::list<std::string> Replace("symfp-replace", cl::desc("regex=function: calls of matching functions go to a stub of the harness"));
static cl::opt<bool> Races("symfp-races", cl::desc("log memory accesses in parallel regions"), cl::init(false));

namespace {

std::string symName(StringRef s) { return ("__symfp_" + s).str(); }

// ---------------------------------------------------------------- pre pass
struct PrePass : PassInfoMixin<PrePass> {
    void redirect(Module &M, Function &F, StringRef to) {
        FunctionCallee C = M.getOrInsertFunction(to, F.getFunctionType());
        F.replaceAllUsesWith(C.getCallee());
        if (auto *NF = dyn_cast<Function>(C.getCallee())) NF->setCallingConv(F.getCallingConv());
        F.deleteBody();
        F.setComdat(nullptr);
    }

    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        LLVMContext &C = M.getContext();
        // library redirections
        Regex uid("^_ZNSt24uniform_int_distributionI([a-z])EclI.*RKNS0_10param_typeE$");
        std::vector<std::pair<Function *, std::string>> redir;
        for (Function &F : M) {
            StringRef n = F.getName();
            for (auto &r : Replace) {
                auto p = StringRef(r).rsplit('=');
                if (Regex(p.first).match(n)) redir.push_back({ &F, p.second.str() });
            }
            if (F.isDeclaration()) continue;
            if (!RealHash && n == "_ZNKSt4hashIdEclEd") redir.push_back({ &F, "__symfp_hash_d" });
            if (!RealHash && n == "_ZNKSt4hashIfEclEf") redir.push_back({ &F, "__symfp_hash_f" });
            SmallVector<StringRef, 4> m;
            if (uid.match(n, &m)) redir.push_back({ &F, "__symfp_uid_" + m[1].str() });
        }
        for (auto &p : redir) redirect(M, *p.first, p.second);
        // std::shared_ptr dispatch etc. stay as they are

        if (RedirectOnly) return PreservedAnalyses::none();
        // function marks
        std::vector<Constant *> names;
        Type *I32 = Type::getInt32Ty(C);
        FunctionCallee Hit = M.getOrInsertFunction("__symfp_hit", Type::getVoidTy(C), I32);
        for (Function &F : M) {
            if (F.isDeclaration()) continue;
            // every definition must survive being unoptimisable only by choice of flags
            F.removeFnAttr(Attribute::OptimizeNone);
            DISubprogram *SP = F.getSubprogram();
            if (!SP) continue;
            std::string path = (SP->getDirectory() + "/" + SP->getFilename()).str();
            if (SP->getFilename().starts_with("/")) path = SP->getFilename().str();
            if (path.find(SrcRoot) == std::string::npos) continue;
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            CallInst *CI = B.CreateCall(Hit, { ConstantInt::get(I32, names.size()) });
            CI->setDebugLoc(DILocation::get(C, SP->getLine(), 0, SP));
            size_t pos = path.find(SrcRoot);
            std::string label = path.substr(pos) + ":" + F.getName().str();
            names.push_back(B.CreateGlobalStringPtr(label, "symfp.fn", 0, &M));
        }
        Type *Ptr = PointerType::getUnqual(C);
        ArrayType *AT = ArrayType::get(Ptr, names.size() ? names.size() : 1);
        if (names.empty()) names.push_back(ConstantPointerNull::get(cast<PointerType>(Ptr)));
        auto *Tab = new GlobalVariable(M, AT, true, GlobalValue::ExternalLinkage, ConstantArray::get(AT, names),
                                       "__symfp_fn_names");
        (void)Tab;
        new GlobalVariable(M, I32, true, GlobalValue::ExternalLinkage,
                           ConstantInt::get(I32, AT->getNumElements()), "__symfp_fn_count");
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

// ---------------------------------------------------------------- instrumentation
struct InstrPass : PassInfoMixin<InstrPass> {
    Module *M = nullptr;
    Type *D = nullptr, *Fl = nullptr, *I1 = nullptr, *I32 = nullptr, *I64 = nullptr, *Ptr = nullptr, *Void = nullptr;
    std::set<std::string> warned;

    FunctionCallee rt(StringRef name, Type *ret, ArrayRef<Type *> args) {
        FunctionCallee c = M->getOrInsertFunction(symName(name), FunctionType::get(ret, args, false));
        if (auto *f = dyn_cast<Function>(c.getCallee())) f->addFnAttr(Attribute::NoUnwind);
        return c;
    }

    static bool isFP(Type *t) { return t->isDoubleTy() || t->isFloatTy(); }

    Value *toD(IRBuilder<> &B, Value *v) {
        if (v->getType()->isDoubleTy()) return v;
        return B.CreateCall(rt("f2d", D, { Fl }), { v });
    }
    Value *fromD(IRBuilder<> &B, Value *v, Type *t) {
        if (t->isDoubleTy()) return v;
        return B.CreateCall(rt("d2f", Fl, { D }), { v });
    }

    void warn(const std::string &s) {
        if (warned.insert(s).second) errs() << "symfp-warning: " << s << "\n";
    }

    void unsupported(IRBuilder<> &B, Value *v, StringRef what) {
        B.CreateCall(rt("need_concrete", Void, { D, Ptr }), { toD(B, v), B.CreateGlobalStringPtr(what) });
    }

    bool handleCall(CallBase *CB) {
        IRBuilder<> B(CB);
        Function *F = CB->getCalledFunction();
        if (F && F->isIntrinsic()) {
            if (!isFP(CB->getType()) && F->getIntrinsicID() != Intrinsic::is_fpclass) return false;
            StringRef n;
            unsigned nargs = 1;
            switch (F->getIntrinsicID()) {
                case Intrinsic::fabs: n = "fabs"; break;
                case Intrinsic::sqrt: n = "sqrt"; break;
                case Intrinsic::sin: n = "sin"; break;
                case Intrinsic::cos: n = "cos"; break;
                case Intrinsic::exp: n = "exp"; break;
                case Intrinsic::log: n = "log"; break;
                case Intrinsic::floor: n = "floor"; break;
                case Intrinsic::ceil: n = "ceil"; break;
                case Intrinsic::trunc: n = "trunc"; break;
                case Intrinsic::round: n = "round"; break;
                case Intrinsic::rint: case Intrinsic::nearbyint: n = "rint"; break;
                case Intrinsic::copysign: n = "copysign"; nargs = 2; break;
                case Intrinsic::pow: n = "pow"; nargs = 2; break;
                case Intrinsic::minnum: n = "fmin"; nargs = 2; break;
                case Intrinsic::maxnum: n = "fmax"; nargs = 2; break;
                case Intrinsic::fma: case Intrinsic::fmuladd: {
                    Value *m = B.CreateCall(rt("mul", D, { D, D }), { toD(B, CB->getArgOperand(0)), toD(B, CB->getArgOperand(1)) });
                    Value *r = B.CreateCall(rt("add", D, { D, D }), { m, toD(B, CB->getArgOperand(2)) });
                    CB->replaceAllUsesWith(fromD(B, r, CB->getType()));
                    return true;
                }
                case Intrinsic::powi: {
                    Value *r = B.CreateCall(rt("powi", D, { D, I32 }), { toD(B, CB->getArgOperand(0)), CB->getArgOperand(1) });
                    CB->replaceAllUsesWith(fromD(B, r, CB->getType()));
                    return true;
                }
                case Intrinsic::is_fpclass: {
                    Value *r = B.CreateCall(rt("fpclass", I1, { D, I32 }), { toD(B, CB->getArgOperand(0)), CB->getArgOperand(1) });
                    CB->replaceAllUsesWith(r);
                    return true;
                }
                default:
                    warn("intrinsic " + F->getName().str());
                    return false;
            }
            std::vector<Value *> a;
            std::vector<Type *> t;
            for (unsigned i = 0; i < nargs; i++) {
                a.push_back(toD(B, CB->getArgOperand(i)));
                t.push_back(D);
            }
            Value *r = B.CreateCall(rt(n, D, t), a);
            CB->replaceAllUsesWith(fromD(B, r, CB->getType()));
            return true;
        }
        if (!F || !F->isDeclaration()) return false;
        StringRef n = F->getName();
        if (n.starts_with("__symfp_") || n.starts_with("sym_")) return false;
        static const std::map<std::string, int> lib = {
            { "sqrt", 1 }, { "fabs", 1 }, { "sin", 1 }, { "cos", 1 }, { "tan", 1 }, { "asin", 1 }, { "acos", 1 },
            { "atan", 1 }, { "exp", 1 }, { "log", 1 }, { "log10", 1 }, { "log2", 1 }, { "exp2", 1 }, { "floor", 1 }, { "ceil", 1 },
            { "trunc", 1 }, { "round", 1 }, { "rint", 1 }, { "cbrt", 1 }, { "atan2", 2 }, { "pow", 2 }, { "fmod", 2 },
            { "hypot", 2 }, { "fmin", 2 }, { "fmax", 2 }, { "copysign", 2 }, { "sinh", 1 }, { "cosh", 1 }, { "tanh", 1 },
        };
        std::string base = n.str();
        auto it = lib.find(base);
        if (it == lib.end() && base.size() > 1 && base.back() == 'f' && CB->getType()->isFloatTy())
            it = lib.find(base.substr(0, base.size() - 1));
        if (it != lib.end() && isFP(CB->getType())) {
            std::vector<Value *> a;
            std::vector<Type *> t;
            for (int i = 0; i < it->second; i++) {
                a.push_back(toD(B, CB->getArgOperand(i)));
                t.push_back(D);
            }
            Value *r = B.CreateCall(rt(it->first, D, t), a);
            CB->replaceAllUsesWith(fromD(B, r, CB->getType()));
            if (auto *I = dyn_cast<InvokeInst>(CB)) {
                B.CreateBr(I->getNormalDest());
                I->getUnwindDest()->removePredecessor(I->getParent());
            }
            return true;
        }
        if (n == "_ZNSo9_M_insertIdEERSoT_") {
            CB->setCalledFunction(M->getOrInsertFunction("__symfp_ostream_d", F->getFunctionType()));
            return false;
        }
        if (n == "printf" || n == "fprintf" || n == "snprintf" || n == "sprintf") return false;
        for (Value *a : CB->args())
            if (isFP(a->getType()) && !isa<Constant>(a)) unsupported(B, a, n);
        return false;
    }

    bool handle(Instruction *I) {
        IRBuilder<> B(I);
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
            if (BO->getType()->isVectorTy() && BO->getType()->getScalarType()->isFloatingPointTy()) {
                errs() << "symfp-error: vector FP op in " << I->getFunction()->getName() << ": " << *I << "\n";
                exit(3);
            }
            if (!isFP(BO->getType())) {
                if (BO->getType()->isX86_FP80Ty()) warn("x86_fp80 arithmetic in " + I->getFunction()->getName().str());
                return false;
            }
            StringRef n;
            switch (BO->getOpcode()) {
                case Instruction::FAdd: n = "add"; break;
                case Instruction::FSub: n = "sub"; break;
                case Instruction::FMul: n = "mul"; break;
                case Instruction::FDiv: n = "div"; break;
                case Instruction::FRem: n = "fmod"; break;
                default: return false;
            }
            Value *r = B.CreateCall(rt(n, D, { D, D }), { toD(B, I->getOperand(0)), toD(B, I->getOperand(1)) });
            I->replaceAllUsesWith(fromD(B, r, I->getType()));
            return true;
        }
        if (auto *U = dyn_cast<UnaryOperator>(I)) {
            if (U->getOpcode() != Instruction::FNeg || !isFP(U->getType())) return false;
            Value *r = B.CreateCall(rt("neg", D, { D }), { toD(B, I->getOperand(0)) });
            I->replaceAllUsesWith(fromD(B, r, I->getType()));
            return true;
        }
        if (auto *FC = dyn_cast<FCmpInst>(I)) {
            Type *t = FC->getOperand(0)->getType();
            if (!isFP(t)) {
                if (t->isVectorTy()) { errs() << "symfp-error: vector fcmp\n"; exit(3); }
                return false;
            }
            Value *r = B.CreateCall(rt("cmp", I1, { I32, D, D }),
                                    { ConstantInt::get(I32, FC->getPredicate()), toD(B, I->getOperand(0)), toD(B, I->getOperand(1)) });
            I->replaceAllUsesWith(r);
            return true;
        }
        if (auto *CI = dyn_cast<CastInst>(I)) {
            Type *s = CI->getSrcTy(), *d = CI->getDestTy();
            switch (CI->getOpcode()) {
                case Instruction::FPToSI:
                case Instruction::FPToUI: {
                    if (!isFP(s)) return false;
                    unsigned bits = d->getIntegerBitWidth();
                    Value *r = B.CreateCall(rt("toint", I64, { D, I32, I32 }),
                                            { toD(B, I->getOperand(0)), ConstantInt::get(I32, bits),
                                              ConstantInt::get(I32, CI->getOpcode() == Instruction::FPToSI) });
                    I->replaceAllUsesWith(bits == 64 ? r : B.CreateTruncOrBitCast(r, d));
                    return true;
                }
                case Instruction::FPExt:
                    if (s->isFloatTy() && d->isDoubleTy()) {
                        I->replaceAllUsesWith(toD(B, I->getOperand(0)));
                        return true;
                    }
                    if (isFP(s)) unsupported(B, I->getOperand(0), "fpext to long double");
                    return false;
                case Instruction::FPTrunc:
                    if (s->isDoubleTy() && d->isFloatTy()) {
                        I->replaceAllUsesWith(B.CreateCall(rt("fptrunc", Fl, { D }), { I->getOperand(0) }));
                        return true;
                    }
                    return false;
                case Instruction::BitCast:
                    if (isFP(s) && d->isIntegerTy()) {
                        // sign bit tests
                        std::vector<ICmpInst *> tests;
                        for (User *u : I->users())
                            if (auto *C = dyn_cast<ICmpInst>(u))
                                if (C->getPredicate() == ICmpInst::ICMP_SLT && C->getOperand(0) == I && isa<ConstantInt>(C->getOperand(1)) &&
                                    cast<ConstantInt>(C->getOperand(1))->isZero())
                                    tests.push_back(C);
                        for (ICmpInst *C : tests) {
                            IRBuilder<> CB(C);
                            C->replaceAllUsesWith(CB.CreateCall(rt("signbit", I1, { D }), { toD(CB, I->getOperand(0)) }));
                            // stays behind unused
                        }
                        for (User *u : I->users())
                            if (!isa<StoreInst>(u) && !isa<PHINode>(u) && !isa<SelectInst>(u) && !isa<InsertValueInst>(u) && !u->use_empty()) {
                                std::string str;
                                raw_string_ostream os(str);
                                os << *u;
                                warn("bit pattern of FP value used in " + I->getFunction()->getName().str() + ":" + os.str());
                                break;
                            }
                    }
                    return false;
                default: return false;
            }
        }
        if (auto *CB = dyn_cast<CallBase>(I)) return handleCall(CB);
        return false;
    }

    void raceHooks(Function &F, std::vector<Instruction *> &insts) {
        // loads and stores of outlined parallel regions and of everything else: the runtime only
        // records while a parallel iteration is active
        const DataLayout &DL = M->getDataLayout();
        for (Instruction *I : insts) {
            IRBuilder<> B(I);
            Value *p = nullptr;
            Type *t = nullptr;
            int wr = 0;
            if (auto *L = dyn_cast<LoadInst>(I)) { p = L->getPointerOperand(); t = L->getType(); }
            else if (auto *S = dyn_cast<StoreInst>(I)) { p = S->getPointerOperand(); t = S->getValueOperand()->getType(); wr = 1; }
            else if (auto *A = dyn_cast<AtomicRMWInst>(I)) { p = A->getPointerOperand(); t = A->getType(); wr = 2; }
            else if (auto *MI = dyn_cast<MemIntrinsic>(I)) {
                Value *len = B.CreateZExtOrTrunc(MI->getLength(), I64);
                B.CreateCall(rt("access", Void, { Ptr, I64, I32 }), { MI->getDest(), len, ConstantInt::get(I32, 1) });
                if (auto *MT = dyn_cast<MemTransferInst>(MI))
                    B.CreateCall(rt("access", Void, { Ptr, I64, I32 }), { MT->getSource(), len, ConstantInt::get(I32, 0) });
                continue;
            }
            if (!p) continue;
            if (isa<AllocaInst>(p->stripInBoundsOffsets())) {
                // stack slots of the executing function: private unless shared through a context
                // argument, in which case the access in the outlined function is not via its alloca
                continue;
            }
            B.CreateCall(rt("access", Void, { Ptr, I64, I32 }),
                         { p, ConstantInt::get(I64, DL.getTypeStoreSize(t)), ConstantInt::get(I32, wr) });
        }
    }

    PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &) {
        M = &Mod;
        LLVMContext &C = Mod.getContext();
        D = Type::getDoubleTy(C);
        Fl = Type::getFloatTy(C);
        I1 = Type::getInt1Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        Ptr = PointerType::getUnqual(C);
        Void = Type::getVoidTy(C);
        if (RedirectOnly) {   // replay: memory accesses only
            for (Function &F : Mod) {
                std::vector<Instruction *> insts;
                for (Instruction &I : instructions(F)) insts.push_back(&I);
                if (Races) raceHooks(F, insts);
                F.setMemoryEffects(MemoryEffects::unknown());
            }
            return PreservedAnalyses::none();
        }
        for (Function &F : Mod) {
            if (F.isDeclaration()) continue;
            std::vector<Instruction *> insts, dead;
            for (Instruction &I : instructions(F)) insts.push_back(&I);
            std::set<Instruction *> gone;
            // select of doubles on a comparison used only there
            for (Instruction *I : insts) {
                auto *S = dyn_cast<SelectInst>(I);
                if (!S || !isFP(S->getType())) continue;
                auto *FC = dyn_cast<FCmpInst>(S->getCondition());
                if (!FC || !FC->hasOneUse() || !isFP(FC->getOperand(0)->getType())) continue;
                IRBuilder<> B(S);
                Value *r = B.CreateCall(rt("select", D, { I32, D, D, D, D }),
                                        { ConstantInt::get(I32, FC->getPredicate()), toD(B, FC->getOperand(0)),
                                          toD(B, FC->getOperand(1)), toD(B, S->getTrueValue()), toD(B, S->getFalseValue()) });
                S->replaceAllUsesWith(fromD(B, r, S->getType()));
                gone.insert(S);
                gone.insert(FC);
            }
            for (Instruction *I : gone) if (isa<SelectInst>(I)) I->eraseFromParent();
            for (Instruction *I : gone) if (isa<FCmpInst>(I)) I->eraseFromParent();
            std::vector<Instruction *> live;
            for (Instruction *I : insts) if (!gone.count(I)) live.push_back(I);
            if (Races) raceHooks(F, live);
            for (Instruction *I : live)
                if (handle(I)) dead.push_back(I);
            for (Instruction *I : dead) I->eraseFromParent();
            // the instrumented code must not be treated as pure any more
            F.setMemoryEffects(MemoryEffects::unknown());
            F.removeFnAttr(Attribute::WillReturn);
        }
        // call sites carry their own memory attributes
        for (Function &F : Mod)
            for (Instruction &I : instructions(F))
                if (auto *CB = dyn_cast<CallBase>(&I)) {
                    Function *Cal = CB->getCalledFunction();
                    if (Cal && Cal->isIntrinsic()) continue;
                    CB->removeFnAttr(Attribute::Memory);
                    CB->removeFnAttr(Attribute::WillReturn);
                    CB->removeFnAttr(Attribute::Speculatable);
                }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return { LLVM_PLUGIN_API_VERSION, "symfp", "1", [](PassBuilder &PB) {
                PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
                    if (n == "symfp-pre") { MPM.addPass(PrePass()); return true; }
                    if (n == "symfp-instr") { MPM.addPass(InstrPass()); return true; }
                    return false;
                });
            } };
}
