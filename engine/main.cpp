#include "engine.h"
#include <cstring>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

static std::unique_ptr<Module> loadAll(LLVMContext& C, const std::vector<std::string>& files) {
    std::unique_ptr<Module> M;
    for(auto& f : files) {
        SMDiagnostic err;
        auto m = parseIRFile(f, err, C);
        if(!m) {
            err.print("vx", errs());
            exit(4);
        }
        if(!M) M = std::move(m);
        else if(Linker::linkModules(*M, std::move(m))) exit(4);
    }
    return M;
}

// every access to a thread-local variable goes through llvm.threadlocal.address
static void explicitTLS(Module& M) {
    for(GlobalVariable& g : M.globals()) {
        if(!g.isThreadLocal()) continue;
        convertUsersOfConstantsToInstructions({&g});
        std::vector<Use*> us;
        for(Use& u : g.uses()) us.push_back(&u);
        for(Use* u : us) {
            auto* I = dyn_cast<Instruction>(u->getUser());
            if(!I) continue;
            if(auto* ii = dyn_cast<IntrinsicInst>(I))
                if(ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
            Instruction* at = I;
            if(auto* ph = dyn_cast<PHINode>(I)) at = ph->getIncomingBlock(*u)->getTerminator();
            IRBuilder<> B(at);
            u->set(B.CreateThreadLocalAddress(&g));
        }
    }
}

// A harness may define vxe_NAME to stand for the environment function NAME (open, read, ...).
static void bindEnv(Module& M) {
    std::vector<Function*> fs;
    for(Function& f : M)
        if(!f.isDeclaration() && f.getName().starts_with("vxe_")) fs.push_back(&f);
    for(Function* f : fs)
        for(const char* pre : {"", "__isoc23_", "__isoc99_"})
            if(Function* d = M.getFunction((Twine(pre) + f->getName().drop_front(4)).str()))
                if(d->isDeclaration()) d->replaceAllUsesWith(f);
}

static int prep(const std::vector<std::string>& in, const std::string& out) {
    LLVMContext C;
    auto M = loadAll(C, in);
    bindEnv(*M);
    for(Function& f : *M) {
        if(f.getName().starts_with("_ZN3rpp3Log3logI")) {
            f.removeFnAttr(Attribute::AlwaysInline);
            f.removeFnAttr(Attribute::InlineHint);
            f.addFnAttr(Attribute::NoInline);
        }
    }
    PipelineTuningOptions pto;
    pto.LoopVectorization = false;
    pto.SLPVectorization = false;
    pto.LoopUnrolling = false;
    pto.LoopInterleaving = false;
    PassBuilder PB(nullptr, pto);
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    FAM.registerPass([&] {
        TargetLibraryInfoImpl t(Triple(M->getTargetTriple()));
        t.disableAllFunctions();
        return TargetLibraryAnalysis(t);
    });
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(InternalizePass([](const GlobalValue& g) {
        return g.getName().starts_with("_ZN3rpp3Log3logI") || g.getName().starts_with("vxh_") || g.getName().starts_with("vx_") || g.getName().starts_with("llvm.");
    }));
    MPM.addPass(GlobalDCEPass());
    MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1));
    MPM.run(*M, MAM);
    explicitTLS(*M);
    if(verifyModule(*M, &errs())) return 4;
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    WriteBitcodeToFile(*M, os);
    return 0;
}

// Rewrites a module for native replay: environment stand-ins, sanitizer attributes, alignment
// checks and (threads) every visible operation waits for its turn in the recorded schedule.
static int instrument(const std::vector<std::string>& in, const std::string& out, const std::string& san, bool threads) {
    LLVMContext C;
    auto M = loadAll(C, in);
    bindEnv(*M);
    Type* V = Type::getVoidTy(C);
    Type* P = PointerType::get(C, 0);
    Type* I64 = Type::getInt64Ty(C);
    std::map<std::string, std::string> ren = {{"sysconf", "vxn_sysconf"}};
    if(threads)
        for(const char* n : {"mutex_lock", "mutex_unlock", "mutex_trylock", "cond_wait", "cond_signal", "cond_broadcast",
                             "create", "join", "detach", "mutex_init", "mutex_destroy", "cond_destroy", "cond_init"})
            ren[std::string("pthread_") + n] = std::string("vxr_") + n;
    if(threads) ren["syscall"] = "vxr_syscall", ren["usleep"] = "vxr_usleep", ren["vx_yield"] = "vxr_yield", ren["vx_quiesce"] = "vxr_quiesce", ren["__cxa_thread_atexit"] = "vxr_thread_atexit";
    for(Function& f : *M) {
        auto it = ren.find(f.getName().str());
        if(it != ren.end()) f.setName(it->second);
    }
    std::vector<Function*> logs;
    if(threads) {
        auto pt = M->getOrInsertFunction("vxr_point", FunctionType::get(V, false));
        auto lg = M->getOrInsertFunction("vxr_log", FunctionType::get(Type::getInt32Ty(C), {Type::getInt8Ty(C)}, false));
        for(Function& f : *M) {
            if(f.isDeclaration()) continue;
            if(f.getName().starts_with("_ZN3rpp3Log3logI")) {
                logs.push_back(&f);
            }
            for(auto& bb : f) {
                std::vector<Instruction*> v;
                for(auto& i : bb) {
                    bool a = isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i);
                    if(auto* l = dyn_cast<LoadInst>(&i)) a |= l->isAtomic();
                    if(auto* s = dyn_cast<StoreInst>(&i)) a |= s->isAtomic();
                    if(a) v.push_back(&i);
                }
                for(auto* i : v) CallInst::Create(pt, "", i)->setDebugLoc(i->getDebugLoc());
            }
        }
        for(Function* f : logs) { // logging is skipped unless the harness asks for the real thing
            ValueToValueMapTy vm;
            Function* real = CloneFunction(f, vm);
            real->setLinkage(GlobalValue::InternalLinkage);
            real->setComdat(nullptr);
            f->deleteBody();
            f->setLinkage(GlobalValue::InternalLinkage);
            f->setComdat(nullptr);
            auto* in = BasicBlock::Create(C, "", f);
            auto* yes = BasicBlock::Create(C, "", f);
            auto* no = BasicBlock::Create(C, "", f);
            IRBuilder<> B(in);
            B.CreateCondBr(B.CreateICmpNE(B.CreateCall(lg, {f->getArg(0)}), B.getInt32(0)), yes, no);
            B.SetInsertPoint(yes);
            std::vector<Value*> as;
            for(auto& a : f->args()) as.push_back(&a);
            auto* call = B.CreateCall(real, as);
            call->setAttributes(f->getAttributes());
            if(f->getSubprogram()) call->setDebugLoc(DILocation::get(C, 0, 0, f->getSubprogram()));
            B.CreateRetVoid();
            B.SetInsertPoint(no);
            B.CreateRetVoid();
        }
    }
    auto al = M->getOrInsertFunction("vxn_align", FunctionType::get(V, {P, I64}, false));
    for(Function& f : *M) {
        if(f.isDeclaration()) continue;
        if(san == "asan") f.addFnAttr(Attribute::SanitizeAddress);
        if(san == "tsan") f.addFnAttr(Attribute::SanitizeThread);
        for(auto& bb : f) {
            std::vector<std::pair<Instruction*, Value*>> v;
            for(auto& i : bb) {
                if(auto* l = dyn_cast<LoadInst>(&i)) if(l->getAlign().value() > 1) v.push_back({&i, l->getPointerOperand()});
                if(auto* s = dyn_cast<StoreInst>(&i)) if(s->getAlign().value() > 1) v.push_back({&i, s->getPointerOperand()});
            }
            for(auto& [i, p] : v) {
                if(isa<AllocaInst>(p) || isa<GlobalVariable>(p)) continue;
                u64 x = isa<LoadInst>(i) ? cast<LoadInst>(i)->getAlign().value() : cast<StoreInst>(i)->getAlign().value();
                CallInst::Create(al, {p, ConstantInt::get(I64, x)}, "", i)->setDebugLoc(i->getDebugLoc());
            }
        }
    }
    if(verifyModule(*M, &errs())) return 4;
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    WriteBitcodeToFile(*M, os);
    return 0;
}

int main(int argc, char** argv) {
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    rlim_t want = (rlim_t)1 << 30;
    if(rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= want) && !getenv("VX_NORE")) {
        rl.rlim_cur = want;
        setrlimit(RLIMIT_STACK, &rl);
        setenv("VX_NORE", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::string mode = argc > 1 ? argv[1] : "";
    std::vector<std::string> files;
    std::string out;
    bool list = false, threads = false;
    std::string san;
    for(int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if(a == "-o") out = next();
        else if(a == "--harness") g_cfg.harness = next();
        else if(a == "--out") g_cfg.outDir = next();
        else if(a == "--time") g_cfg.maxTime = atof(next().c_str());
        else if(a == "--jobs") g_cfg.jobs = atoi(next().c_str());
        else if(a == "--symmem") g_cfg.symMem = atoi(next().c_str());
        else if(a == "--preempt") g_cfg.preempts = atoi(next().c_str());
        else if(a == "--spurious") g_cfg.maxSpurious = atoi(next().c_str());
        else if(a == "--instrs") g_cfg.maxInstrs = atoll(next().c_str());
        else if(a == "--maxviol") g_cfg.maxViol = atoi(next().c_str());
        else if(a == "--query-ms") g_query_timeout_ms = atoi(next().c_str());
        else if(a == "--no-race") g_cfg.race = false;
        else if(a == "--list") list = true;
        else if(a == "--threads") threads = true;
        else if(a == "--san") san = next();
        else files.push_back(a);
    }
    if(mode == "prep") return prep(files, out);
    if(mode == "instrument") return instrument(files, out, san, threads);
    if(mode == "run") {
        LLVMContext C;
        auto M = loadAll(C, files);
        if(list) {
            for(Function& f : *M)
                if(f.getName().starts_with("vxh_")) printf("%s\n", f.getName().str().c_str());
            return 0;
        }
        Engine e(*M);
        e.init();
        e.run(g_cfg.harness);
        fflush(nullptr);
        _exit(0);
    }
    fprintf(stderr, "usage: vx prep|run|instrument ...\n");
    return 4;
}
