#pragma once
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <list>
#include <map>
#include <set>

struct Val {
    Expr* e = nullptr; // null: undef (scalar) or aggregate
    std::shared_ptr<std::vector<Val>> agg;
    Val() {}
    Val(Expr* x) : e(x) {}
};
inline Val aggVal(std::vector<Val> v) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(std::move(v));
    return r;
}

typedef std::vector<u32> VC; // vector clock

// ---- memory ----
enum ObjKind : u8 { K_GLOBAL, K_HEAP, K_STACK, K_TLS, K_FUNC };
enum : u8 { B_UNDEF = 0, B_CONC = 1, B_SYM = 2 };
struct Access {
    u32 tid, clk;
    const llvm::Instruction* where;
};
struct Shadow { // race shadow for one byte range start
    Access w{~0u, 0, nullptr};
    std::vector<Access> r;
};
struct Obj {
    u32 rc = 0;
    u64 base = 0, size = 0;
    ObjKind kind = K_HEAP;
    bool ro = false;
    bool atomicOnly = false;
    std::vector<u8> data, st;
    std::vector<Expr*> sym;
    std::map<u32, Shadow> race;
    const char* name = "";
};
struct ORef {
    Obj* p = nullptr;
    ORef() {}
    explicit ORef(Obj* o) : p(o) { if(p) p->rc++; }
    ORef(const ORef& o) : p(o.p) { if(p) p->rc++; }
    ORef(ORef&& o) : p(o.p) { o.p = nullptr; }
    ORef& operator=(ORef o) { std::swap(p, o.p); return *this; }
    ~ORef() { if(p && --p->rc == 0) delete p; }
};
struct Chunk {
    u32 rc = 0;
    ORef o[64];
};
struct CRef {
    Chunk* p = nullptr;
    CRef() {}
    explicit CRef(Chunk* c) : p(c) { if(p) p->rc++; }
    CRef(const CRef& o) : p(o.p) { if(p) p->rc++; }
    CRef(CRef&& o) : p(o.p) { o.p = nullptr; }
    CRef& operator=(CRef o) { std::swap(p, o.p); return *this; }
    ~CRef() { if(p && --p->rc == 0) delete p; }
};
static const u64 SLOT_BITS = 24;
struct Memory {
    std::vector<CRef> chunks;
    u64 next = 1; // object id
    Obj* get(u64 id) const {
        u64 c = id >> 6;
        if(c >= chunks.size() || !chunks[c].p) return nullptr;
        return chunks[c].p->o[id & 63].p;
    }
    Obj* getW(u64 id) {
        u64 c = id >> 6;
        if(c >= chunks.size() || !chunks[c].p) return nullptr;
        if(chunks[c].p->rc > 1) chunks[c] = CRef(clone(chunks[c].p));
        ORef& r = chunks[c].p->o[id & 63];
        if(!r.p) return nullptr;
        if(r.p->rc > 1) {
            Obj* n = new Obj(*r.p);
            n->rc = 0;
            r = ORef(n);
        }
        return r.p;
    }
    static Chunk* clone(Chunk* c) {
        Chunk* n = new Chunk;
        for(int i = 0; i < 64; i++) n->o[i] = c->o[i];
        return n;
    }
    void set(u64 id, Obj* o) {
        u64 c = id >> 6;
        if(c >= chunks.size()) chunks.resize(c + 1);
        if(!chunks[c].p) chunks[c] = CRef(new Chunk);
        else if(chunks[c].p->rc > 1) chunks[c] = CRef(clone(chunks[c].p));
        chunks[c].p->o[id & 63] = ORef(o);
    }
};

// ---- code ----
struct DI { // decoded instruction
    llvm::Instruction* I;
    int dst = -1;
    std::vector<int> ops; // >=0 register; <0: ~index into constants
};
struct FnInfo {
    llvm::Function* F;
    u32 nregs = 0;
    std::vector<u8> hit; // instruction executed
    std::vector<DI> code;                                      // all instructions in order
    std::map<const llvm::BasicBlock*, u32> bbStart;            // index of first instruction
    std::vector<u32> termTarget;
    std::string pretty;
    u64 executed = 0;
    bool isRpp = false;
};

struct Frame {
    FnInfo* fn = nullptr;
    u32 pc = 0;
    const llvm::BasicBlock* prev = nullptr;
    std::vector<Val> regs;
    std::vector<u64> allocas; // object ids
    int retDst = -1;          // register in caller
    std::vector<Val> varargs;
    std::vector<llvm::Type*> varargTys;
};

enum ThStatus : u8 { T_RUN, T_MUTEX, T_COND, T_FUTEX, T_JOIN, T_DONE };
struct Thread {
    std::vector<Frame> frames;
    ThStatus st = T_RUN;
    u64 waitAddr = 0;  // mutex / cond / futex address, or joined tid
    u64 waitMutex = 0; // for cond: mutex to reacquire
    int waitDst = -1; // for futex: register that receives the result
    bool woken = false;
    bool yielded = false;
    bool detached = false, joined = false;
    int timedRes = 0;
    std::map<const llvm::GlobalVariable*, u64> tls;
    std::vector<std::pair<u64, u64>> atexit; // destructors of thread-local objects
    VC vc;
    u64 errnoAddr = 0;
    int blockRetDst = -1; // register receiving the result of the blocking call
};
struct MutexS {
    int owner = -1;
    VC vc;
    bool destroyed = false;
};

struct Input {
    u32 var;
    std::string name;
};

struct State {
    u64 id;
    Memory mem;
    std::vector<Thread> th;
    u32 cur = 0;
    std::vector<Expr*> pc;
    ModelP model;
    std::vector<Input> inputs;
    std::map<Expr*, u64> known;
    std::map<u64, MutexS> mutexes;
    std::map<u64, VC> syncVC; // release clocks of atomics
    std::vector<u8> sched;    // schedule trace: chosen thread at each visible operation
    u32 preempts = 0, spurious = 0;
    bool schedDone = false; // scheduling decision for the current visible op already taken
    u64 instrs = 0;
    bool expectDie = false;
    i64 liveAllocs = 0;
    std::vector<u32> reached; // labels
    u64 nondet = 0;
    bool multi = false; // more than one thread was ever created
    std::map<std::string, u64> counters;
    u32 forks = 0;
    std::vector<std::pair<u64, u64>> atexits;
};
