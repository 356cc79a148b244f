#pragma once
#include "exec.h"
#include <functional>
#include <sys/types.h>

struct Violation {
    std::string kind, msg, loc, stack;
    std::vector<std::pair<std::string, std::string>> inputs; // name, "width:hex"
    std::vector<u8> sched;
    bool threaded = false;
};

struct Config {
    std::string harness;
    double maxTime = 60;
    u64 maxInstrs = 20000000;
    u32 preempts = 2;
    u32 maxSpurious = 0;
    u32 jobs = 1;
    u32 maxViol = 3;
    std::string outDir;
    bool race = true;
    u32 symMem = 32; // most locations a symbolic address may range over before it is split by path
};
extern Config g_cfg;

struct HarnessResult {
    u64 paths = 0, forks = 0, instrs = 0, diePaths = 0, assumeKilled = 0, asserts = 0;
    u64 maxPathInstrs = 0, maxPc = 0, ubChecks = 0, memChecks = 0, schedules = 0, symAccess = 0;
    std::set<std::string> incomplete;
    std::map<std::string, u64> reached;
    std::map<std::string, u64> functions;
    std::vector<Violation> viol;
    u64 samples = 0;
    std::vector<std::string> sample;
};

struct PathEnd {}; // thrown to end the current path

class Engine {
  public:
    llvm::Module& M;
    const llvm::DataLayout& DL;
    Engine(llvm::Module& m);
    void init();                  // globals + constructors
    void run(const std::string&); // one harness, result in R
    HarnessResult R;

  private:
    State* S = nullptr; // current state
    std::vector<State*> work;
    State* base = nullptr;
    u64 nextState = 1;
    double deadline = 0;
    bool abortAll = false;

    std::map<const llvm::Function*, FnInfo*> fns;
    std::map<const llvm::GlobalValue*, u64> gaddr;
    std::map<u64, llvm::Function*> faddr;
    std::vector<Val> consts;
    std::map<const llvm::Constant*, int> constIdx;
    std::vector<std::string> labels;
    std::map<std::string, u32> labelIdx;

    typedef std::function<void(Engine&, const llvm::CallBase&, std::vector<Val>&, int)> Handler;
    std::map<std::string, Handler> handlers;
    std::map<const llvm::Function*, Handler*> hcache;
    std::map<const llvm::Function*, int> hmiss;

    FnInfo* info(llvm::Function* f);
    int operandIdx(FnInfo* fi, llvm::Value* v, std::map<const llvm::Value*, int>& slots);
    Val constVal(const llvm::Constant* c);

    Frame& fr() { return S->th[S->cur].frames.back(); }
    Thread& thr() { return S->th[S->cur]; }

    State* clone();
    void addConstraint(State* s, Expr* c, const ModelP& m);
    void end() { throw PathEnd(); }
    void violation(const std::string& kind, const std::string& msg);
    void incomplete(const std::string& why);
    std::string where(std::string* stack = nullptr);

    Expr* E(const Val& v, u32 width);
    bool branch(Expr* c); // forks; returns the side taken by the current state
    u64 needConst(Expr* e);
    bool mustBeTrue(Expr* c);

  public:
    u64 alloc(u64 size, ObjKind k, const char* name, u64 align = 16, bool zero = false);
    Obj* objAt(u64 addr, u64 size, bool write, const char* what, bool quiet = false);
    Val load(u64 addr, llvm::Type* t, bool atomic = false);
    void store(u64 addr, const Val& v, llvm::Type* t, bool atomic = false);
    Expr* readByte(u64 addr);
    void writeByte(u64 addr, Expr* b);
    void readRange(u64 addr, u64 n, std::vector<Expr*>& out);
    u64 u64arg(const Val& v) { return needConst(E(v, 64)); }
    u64 uarg(const Val& v, u32 w) { return needConst(E(v, w)); }
    std::string cstr(u64 addr, u64 max = 65536);
    void raceCheck(Obj* o, u64 off, u64 size, bool write);

  private:
    bool symCands(Expr* A, u64 bytes, u64 align, bool write, u64& base, std::vector<u64>& offs);
    bool symLoad(Expr* A, llvm::Type* t, u64 align, Val& out);
    bool symStore(Expr* A, const Val& v, llvm::Type* t, u64 align);
    Expr* readBits(Obj* o, u64 off, u32 bytes, bool& undef);
    void writeBits(Obj* o, u64 off, Expr* e, u32 bytes);
    void initGlobal(u64 addr, const llvm::Constant* c);
    Val loadFrom(u64 addr, llvm::Type* t);
    void storeTo(u64 addr, const Val& v, llvm::Type* t);

    void setReg(int dst, Val v) { if(dst >= 0) fr().regs[dst] = std::move(v); }
    Val opv(const DI& d, int i) {
        int o = d.ops[i];
        return o >= 0 ? fr().regs[o] : consts[~o];
    }
    void step();
    void execInst(const DI& d);
    void execCall(const DI& d, const llvm::CallBase& cb);
    bool intrinsic(const DI& d, const llvm::IntrinsicInst& ii, std::vector<Val>& a);
    void pushCall(llvm::Function* f, std::vector<Val> args, int dst, const llvm::CallBase* cb);
    void doRet(Val v);
    void jump(const llvm::BasicBlock* to);
    Val binop(unsigned opc, const Val& a, const Val& b, llvm::Type* t);
    Expr* fbin(unsigned opc, Expr* a, Expr* b);
    Expr* fcmp(llvm::CmpInst::Predicate p, Expr* a, Expr* b);
    Expr* icmp(llvm::CmpInst::Predicate p, Expr* a, Expr* b);
    Val castv(const llvm::CastInst& c, const Val& a, llvm::Type* st, llvm::Type* dt);
    Expr* flat(const Val& v, llvm::Type* t);
    Val unflat(Expr* e, llvm::Type* t);
    u64 tlsAddr(const llvm::GlobalVariable* g);
    void registerHandlers();
    void dieEvent(const std::string& what);
    void recordInput(Expr* var, const std::string& name);
    bool mayShare();
    void shareWork();
    void finish();

    // threads
    bool visiblePoint(); // returns false if the current thread was switched away
    bool enabled(u32 t, bool allowSpurious);
    void blockAndSwitch();
    void switchTo(u32 u, bool eintr = false);
    bool interruptible(u32 u);
    void setErrno(int x);
    void resumeBlocked();
    void threadExit(Val v);
    void tick() { auto& t = thr(); if(t.vc.size() <= S->cur) t.vc.resize(S->cur + 1); t.vc[S->cur]++; }
    static void joinVC(VC& a, const VC& b) {
        if(a.size() < b.size()) a.resize(b.size());
        for(size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
    }
    void acquireAddr(u64 a) { auto it = S->syncVC.find(a); if(it != S->syncVC.end()) joinVC(thr().vc, it->second); }
    void releaseAddr(u64 a) { joinVC(S->syncVC[a], thr().vc); tick(); }
    void mutexAcquire(u64 m);
    void mutexRelease(u64 m);
    void pickNext();
    u32 firstEnabled();
    friend struct Handlers;
};
double now();
