#include <llvm/ADT/SmallString.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include "engine.h"
#include <chrono>
#include <cstdio>
#include <cstring>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
Config g_cfg;

double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- setup
Engine::Engine(Module& m) : M(m), DL(m.getDataLayout()) {
    S = new State();
    S->id = 0;
    S->model = std::make_shared<Model>();
    const_cast<Model*>(S->model.get())->gen = newGen();
    S->th.emplace_back();
    registerHandlers();
}

u64 Engine::alloc(u64 size, ObjKind k, const char* name, u64 align, bool zero) {
    if(size > (u64)(256) << 20) {
        incomplete("allocation larger than 256MB modelled memory");
        end();
    }
    u64 id = S->mem.next++;
    u64 extra = (size + 64) >> SLOT_BITS; // objects larger than a slot span several ids
    S->mem.next += extra;
    Obj* o = new Obj;
    o->base = (id << SLOT_BITS) + (align > 16 ? std::max<u64>(align, 64) : 16);
    if(k == K_HEAP) o->base = (id << SLOT_BITS) + 16; // malloc alignment only
    o->size = size;
    o->kind = k;
    o->name = name;
    o->data.assign(size, 0);
    o->st.assign(size, zero ? B_CONC : B_UNDEF);
    S->mem.set(id, o);
    return o->base;
}

void Engine::init() {
    for(Function& f : M) {
        u64 a = alloc(16, K_FUNC, "function");
        gaddr[&f] = a;
        faddr[a] = &f;
    }
    for(GlobalVariable& g : M.globals()) {
        if(g.isThreadLocal()) continue;
        if(g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" ||
           g.getName() == "llvm.compiler.used" || g.getName() == "llvm.global_dtors")
            continue;
        u64 sz = g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
        u64 al = g.getAlign() ? g.getAlign()->value() : DL.getABITypeAlign(g.getValueType()).value();
        gaddr[&g] = alloc(sz, K_GLOBAL, strdup(g.getName().str().c_str()), al, true);
    }
    for(GlobalAlias& a : M.aliases()) {
        if(auto* f = dyn_cast<Function>(a.getAliaseeObject())) gaddr[&a] = gaddr[f];
        else if(auto* g = dyn_cast<GlobalVariable>(a.getAliaseeObject())) gaddr[&a] = gaddr[g];
    }
    for(GlobalVariable& g : M.globals())
        if(gaddr.count(&g) && g.hasInitializer()) {
            initGlobal(gaddr[&g], g.getInitializer());
            if(g.isConstant()) S->mem.getW(gaddr[&g] >> SLOT_BITS)->ro = true;
        }
    deadline = now() + 120;
    if(auto* gc = M.getGlobalVariable("llvm.global_ctors")) {
        if(gc->hasInitializer())
            if(auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
                std::vector<std::pair<u64, Function*>> fs;
                for(auto& op : arr->operands()) {
                    auto* cs = cast<ConstantStruct>(op);
                    if(auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                        fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
                }
                std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
                for(auto& [p, f] : fs) {
                    pushCall(f, {}, -1, nullptr);
                    try {
                        while(!thr().frames.empty()) step();
                    } catch(PathEnd&) {
                        fprintf(stderr, "global constructor did not complete: %s\n", f->getName().str().c_str());
                        for(auto& v : R.viol) fprintf(stderr, " %s: %s at %s\n", v.kind.c_str(), v.msg.c_str(), v.loc.c_str());
                        for(auto& i : R.incomplete) fprintf(stderr, " %s\n", i.c_str());
                        exit(4);
                    }
                }
            }
    }
    base = S;
    R = HarnessResult();
}

void Engine::initGlobal(u64 addr, const Constant* c) {
    if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if(auto* cda = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cda->getRawDataValues();
        Obj* o = S->mem.getW(addr >> SLOT_BITS);
        memcpy(&o->data[addr - o->base], raw.data(), raw.size());
        return;
    }
    if(auto* ca = dyn_cast<ConstantArray>(c)) {
        u64 es = DL.getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
        for(unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(addr + i * es, ca->getOperand(i));
        return;
    }
    if(auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL.getStructLayout(cs->getType());
        for(unsigned i = 0; i < cs->getNumOperands(); i++)
            initGlobal(addr + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    storeTo(addr, constVal(c), c->getType());
}

static bool scalarType(Type* t) { return t->isIntegerTy() || t->isFloatingPointTy() || t->isPointerTy(); }

static u32 bitsOf(const DataLayout& DL, Type* t) {
    if(t->isPointerTy()) return 64;
    if(t->isIntegerTy()) return t->getIntegerBitWidth();
    return (u32)t->getPrimitiveSizeInBits().getFixedValue();
}

Val Engine::constVal(const Constant* c) {
    Type* t = c->getType();
    if(auto* ci = dyn_cast<ConstantInt>(c)) return mkConst(ci->getValue());
    if(auto* cf = dyn_cast<ConstantFP>(c)) return mkConst(cf->getValueAPF().bitcastToAPInt());
    if(isa<ConstantPointerNull>(c)) return mkConst(64, 0);
    if(isa<UndefValue>(c)) {
        if(scalarType(t)) return Val();
        std::vector<Val> v;
        unsigned n = t->isStructTy() ? t->getStructNumElements()
                     : t->isArrayTy() ? (unsigned)t->getArrayNumElements()
                                      : cast<FixedVectorType>(t)->getNumElements();
        for(unsigned i = 0; i < n; i++) {
            Type* et = t->isStructTy() ? t->getStructElementType(i)
                       : t->isArrayTy() ? t->getArrayElementType()
                                        : cast<FixedVectorType>(t)->getElementType();
            v.push_back(constVal(UndefValue::get(et)));
        }
        return aggVal(v);
    }
    if(auto* gv = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(gv);
        if(it == gaddr.end()) return mkConst(64, 0);
        return mkConst(64, it->second);
    }
    if(isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        std::vector<Val> v;
        unsigned n = t->isStructTy() ? t->getStructNumElements()
                     : t->isArrayTy() ? (unsigned)t->getArrayNumElements()
                                      : cast<FixedVectorType>(t)->getNumElements();
        for(unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
        return aggVal(v);
    }
    if(auto* ce = dyn_cast<ConstantExpr>(c)) {
        if(auto* gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if(gep->accumulateConstantOffset(DL, off)) {
                Val b = constVal(cast<Constant>(gep->getPointerOperand()));
                return mkBin(Op::Add, b.e, mkConst(64, off.getZExtValue()));
            }
        }
        switch(ce->getOpcode()) {
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast:
        case Instruction::Trunc: {
            Val b = constVal(ce->getOperand(0));
            return mkTruncOrZExt(b.e, bitsOf(DL, t));
        }
        case Instruction::Add:
        case Instruction::Sub:
        case Instruction::Xor:
        case Instruction::Mul: {
            Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
            return mkBin(ce->getOpcode() == Instruction::Add   ? Op::Add
                         : ce->getOpcode() == Instruction::Sub ? Op::Sub
                         : ce->getOpcode() == Instruction::Mul ? Op::Mul
                                                               : Op::Xor,
                         a.e, b.e);
        }
        case Instruction::ICmp:
            return icmp((CmpInst::Predicate)ce->getPredicate(), constVal(ce->getOperand(0)).e,
                        constVal(ce->getOperand(1)).e);
        default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    os << *c;
    fprintf(stderr, "unsupported constant: %s\n", s.c_str());
    incomplete("unsupported constant " + s);
    return Val();
}

int Engine::operandIdx(FnInfo*, Value* v, std::map<const Value*, int>& slots) {
    auto it = slots.find(v);
    if(it != slots.end()) return it->second;
    if(auto* c = dyn_cast<Constant>(v)) {
        if(auto* g = dyn_cast<GlobalVariable>(c))
            if(g->isThreadLocal()) return ~0; // resolved by llvm.threadlocal.address
        auto ci = constIdx.find(c);
        if(ci != constIdx.end()) return ~ci->second;
        int i = (int)consts.size();
        consts.push_back(constVal(c));
        constIdx[c] = i;
        return ~i;
    }
    // metadata, basic blocks, inline asm
    return ~0;
}

FnInfo* Engine::info(Function* f) {
    auto it = fns.find(f);
    if(it != fns.end()) return it->second;
    if(consts.empty()) consts.push_back(Val());
    FnInfo* fi = new FnInfo;
    fi->F = f;
    fi->pretty = demangle(f->getName().str());
    fi->isRpp = fi->pretty.find("rpp::") != std::string::npos;
    std::map<const Value*, int> slots;
    int n = 0;
    for(auto& a : f->args()) slots[&a] = n++;
    for(auto& bb : *f)
        for(auto& i : bb)
            if(!i.getType()->isVoidTy()) slots[&i] = n++;
    fi->nregs = n;
    for(auto& bb : *f) {
        fi->bbStart[&bb] = (u32)fi->code.size();
        for(auto& i : bb) {
            if(isa<DbgInfoIntrinsic>(i)) continue;
            DI d;
            d.I = &i;
            if(!i.getType()->isVoidTy()) d.dst = slots[&i];
            for(auto& op : i.operands()) d.ops.push_back(operandIdx(fi, op.get(), slots));
            fi->code.push_back(std::move(d));
        }
    }
    fns[f] = fi;
    return fi;
}

// ---------------------------------------------------------------- diagnostics
static std::string locOf(const Instruction* I) {
    const DebugLoc& dl = I->getDebugLoc();
    if(!dl) return "?";
    std::string f = dl->getFilename().str();
    size_t p = f.find("/repo/");
    if(p != std::string::npos) f = f.substr(p + 6);
    return f + ":" + std::to_string(dl.getLine());
}
std::string Engine::where(std::string* stack) {
    std::string first = "?";
    auto& fs = thr().frames;
    bool got = false;
    for(size_t i = fs.size(); i-- > 0;) {
        auto& f = fs[i];
        if(f.pc == 0) continue;
        const Instruction* I = f.fn->code[std::min<size_t>(f.pc - 1, f.fn->code.size() - 1)].I;
        std::string l = locOf(I);
        if(!got && l != "?") first = l, got = true;
        if(stack) {
            const DebugLoc& dl = I->getDebugLoc();
            *stack += l + " in " + f.fn->pretty;
            if(dl)
                for(auto* ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt())
                    *stack += " <- " + ia->getFilename().str() + ":" + std::to_string(ia->getLine());
            *stack += "\n";
        }
    }
    return first;
}
struct Shared {
    std::atomic<int> tokens;
    std::atomic<int> stop;
    std::atomic<int> nviol;
};
static Shared* g_sh;

void Engine::incomplete(const std::string& why) {
    if(R.incomplete.size() < 20) R.incomplete.insert(why + " @" + (thr().frames.empty() ? "" : where()));
}
void Engine::violation(const std::string& kind, const std::string& msg) {
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.loc = where(&v.stack);
    for(auto& in : S->inputs) {
        APInt val = evalAP(g_vars[in.var].e, *S->model);
        SmallString<64> s;
        val.toString(s, 16, false);
        v.inputs.push_back({in.name, std::to_string(g_vars[in.var].width) + ":" + std::string(s.str())});
    }
    v.sched = S->sched;
    v.threaded = S->multi;
    for(auto& o : R.viol)
        if(o.kind == v.kind && o.msg == v.msg && o.loc == v.loc && R.viol.size() > 0 && &o != &v) end();
    R.viol.push_back(v);
    if(g_sh && ++g_sh->nviol >= (int)g_cfg.maxViol) g_sh->stop = 1;
    end();
}
void Engine::dieEvent(const std::string& what) {
    if(S->expectDie) {
        R.diePaths++;
        end();
    }
    violation("trap", what);
}

// ---------------------------------------------------------------- state helpers
State* Engine::clone() {
    State* n = new State(*S);
    n->id = nextState++;
    n->forks++;
    R.forks++;
    return n;
}
void Engine::addConstraint(State* s, Expr* c, const ModelP& m) {
    if(c->isTrue()) return;
    if(c->op == Op::And && c->width == 1) {
        addConstraint(s, c->k[0], m);
        addConstraint(s, c->k[1], m);
    } else s->pc.push_back(c);
    s->model = m;
}
Expr* Engine::E(const Val& v, u32 width) {
    if(v.e) {
        if(v.e->isConst() || S->known.empty()) return v.e;
        auto it = S->known.find(v.e);
        if(it != S->known.end()) return mkConst(v.e->width, it->second);
        return v.e;
    }
    return mkVar("undef" + std::to_string(S->nondet++), width, false);
}
bool Engine::mustBeTrue(Expr* c) {
    if(c->isTrue()) return true;
    ModelP m;
    Res r = solveWith(S->pc, mkNot(c), S->model, m);
    if(r == Res::Unknown) {
        incomplete("solver gave no answer (" + g_unknown_reason + ")");
        end();
    }
    return r == Res::Unsat;
}
bool Engine::branch(Expr* c) {
    if(c->isTrue()) return true;
    if(c->isFalse()) return false;
    if(!S->known.empty()) {
        auto it = S->known.find(c);
        if(it != S->known.end()) return it->second;
    }
    bool side = evalU64(c, *S->model); // feasible by construction
    Expr* other = side ? mkNot(c) : c;
    ModelP m;
    Res r = solveWith(S->pc, other, S->model, m);
    if(r == Res::Unknown) {
        incomplete("solver gave no answer (" + g_unknown_reason + ")");
    } else if(r == Res::Sat) {
        State* n = clone();
        n->th[n->cur].frames.back().pc--; // re-executes this instruction
        addConstraint(n, other, m);
        n->known[c] = !side; // so that re-execution does not query again
        work.push_back(n);
    }
    if(r != Res::Unsat) addConstraint(S, side ? c : mkNot(c), S->model);
    S->known[c] = side;
    return side;
}
u64 Engine::needConst(Expr* e) {
    if(e->isConst()) {
        if(e->width > 64) return e->big->getLimitedValue();
        return e->v;
    }
    auto it = S->known.find(e);
    if(it != S->known.end()) return it->second;
    if(e->op == Op::Var && !g_vars[e->aux].input && e->width == 64 && g_vars[e->aux].name.rfind("undef", 0) == 0)
        violation("uninit", "uninitialized value used as an address or size");
    u64 v = evalU64(e, *S->model);
    Expr* eq = mkEq(e, mkConst(e->width, v));
    ModelP m;
    Res r = solveWith(S->pc, mkNot(eq), S->model, m);
    if(r == Res::Unknown) incomplete("solver gave no answer (" + g_unknown_reason + ")");
    if(r == Res::Sat) {
        static bool trace = getenv("VX_TRACE");
        if(trace) {
            auto& f = fr();
            std::string is;
            raw_string_ostream os(is);
            if(f.pc) os << *f.fn->code[f.pc - 1].I;
            fprintf(stderr, "[%s] in %s\n", is.c_str(), f.fn->F->getName().str().c_str());
        }
        if(trace) fprintf(stderr, "concretize %s = %llx (pc %zu) at %s\n", exprStr(e, 6).c_str(), (unsigned long long)v, S->pc.size(), where().c_str());
        State* n = clone();
        n->th[n->cur].frames.back().pc--;
        addConstraint(n, mkNot(eq), m);
        work.push_back(n);
    }
    if(r != Res::Unsat) addConstraint(S, eq, S->model);
    S->known[e] = v;
    return v;
}
void Engine::recordInput(Expr* var, const std::string& name) {
    S->inputs.push_back({var->aux, name});
}

// ---------------------------------------------------------------- memory access
Obj* Engine::objAt(u64 addr, u64 size, bool write, const char* what, bool) {
    R.memChecks++;
    u64 id = addr >> SLOT_BITS;
    Obj* o = write ? S->mem.getW(id) : S->mem.get(id);
    if(!o && addr >= ((u64)1 << SLOT_BITS) && id < S->mem.next) { // inside a multi-slot object?
        for(u64 k = 1; k <= 17 && k < id; k++) {
            Obj* p = S->mem.get(id - k);
            if(p) {
                if(p->base + p->size > addr) o = write ? S->mem.getW(id - k) : p;
                break;
            }
        }
    }
    if(!o) {
        if(addr < 4096)
            violation("memory", std::string(what) + " through null pointer (" + std::to_string(size) + " bytes at " + std::to_string(addr) + ")");
        if(id < S->mem.next)
            violation("memory", std::string(what) + " of freed or dead memory (" + std::to_string(size) + " bytes)");
        violation("memory", std::string(what) + " through invalid pointer (" + std::to_string(size) + " bytes)");
    }
    if(addr < o->base || addr + size > o->base + o->size || addr + size < addr) {
        violation("memory", std::string(what) + " out of bounds: offset " +
                                std::to_string((i64)(addr - o->base)) + " size " + std::to_string(size) +
                                " in " + (o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "static") +
                                " object of " + std::to_string(o->size) + " bytes");
    }
    if(o->kind == K_FUNC) violation("memory", std::string(what) + " of function code");
    if(write && o->ro) violation("memory", "write to constant data");
    if(S->multi && g_cfg.race) {
        if(!write) o = S->mem.getW(o->base >> SLOT_BITS);
        raceCheck(o, addr - o->base, size, write);
    }
    return o;
}
void Engine::raceCheck(Obj* o, u64 off, u64 size, bool write) {
    if(o->ro) return;
    u32 t = S->cur;
    auto& vc = thr().vc;
    auto after = [&](const Access& a) { // access a happens-before the current thread
        return a.tid == ~0u || a.tid == t || (a.tid < vc.size() && vc[a.tid] >= a.clk);
    };
    if(vc.size() <= t) vc.resize(t + 1);
    auto& fs = thr().frames.back();
    const Instruction* I = fs.fn->code[std::min<size_t>(fs.pc ? fs.pc - 1 : 0, fs.fn->code.size() - 1)].I;
    for(u64 b = off; b < off + size; b++) {
        auto& sh = o->race[(u32)b];
        if(!after(sh.w))
            violation("race", std::string("data race: ") + (write ? "write" : "read") + " at " + locOf(I) +
                                  " unordered with write at " + (sh.w.where ? locOf(sh.w.where) : "?"));
        if(write)
            for(auto& a : sh.r)
                if(!after(a))
                    violation("race", std::string("data race: write at ") + locOf(I) + " unordered with read at " +
                                          (a.where ? locOf(a.where) : "?"));
        if(write) {
            sh.w = {t, vc[t], I};
            sh.r.clear();
        } else {
            bool f = false;
            for(auto& a : sh.r)
                if(a.tid == t) a.clk = vc[t], a.where = I, f = true;
            if(!f) sh.r.push_back({t, vc[t], I});
        }
    }
}
Expr* Engine::readBits(Obj* o, u64 off, u32 bytes, bool& undef) {
    undef = false;
    bool allc = true, allu = true;
    for(u32 i = 0; i < bytes; i++) {
        if(o->st[off + i] != B_CONC) allc = false;
        if(o->st[off + i] != B_UNDEF) allu = false;
    }
    if(allc) {
        if(bytes <= 8) {
            u64 v = 0;
            memcpy(&v, &o->data[off], bytes);
            return mkConst(bytes * 8, v);
        }
        APInt r(bytes * 8, 0);
        for(u32 i = 0; i < bytes; i++) r.insertBits((u64)o->data[off + i], i * 8, 8);
        return mkConst(r);
    }
    if(allu) {
        undef = true;
        return nullptr;
    }
    Expr* r = nullptr;
    for(u32 i = bytes; i-- > 0;) {
        Expr* b;
        u8 st = o->st[off + i];
        if(st == B_CONC) b = mkConst(8, o->data[off + i]);
        else if(st == B_SYM) b = o->sym[off + i];
        else b = mkVar("undef" + std::to_string(S->nondet++), 8, false);
        r = r ? mkConcat(r, b) : b;
    }
    return r;
}
void Engine::writeBits(Obj* o, u64 off, Expr* e, u32 bytes) {
    if(e->width < bytes * 8) e = mkZExt(e, bytes * 8);
    if(e->isConst()) {
        if(bytes <= 8) memcpy(&o->data[off], &e->v, bytes);
        else
            for(u32 i = 0; i < bytes; i++) o->data[off + i] = (u8)e->big->extractBitsAsZExtValue(8, i * 8);
        memset(&o->st[off], B_CONC, bytes);
        return;
    }
    if(o->sym.empty()) o->sym.resize(o->size);
    for(u32 i = 0; i < bytes; i++) {
        Expr* b = mkExtract(e, i * 8, 8);
        if(b->isConst()) {
            o->data[off + i] = (u8)b->v;
            o->st[off + i] = B_CONC;
        } else {
            o->sym[off + i] = b;
            o->st[off + i] = B_SYM;
        }
    }
}
Expr* Engine::readByte(u64 addr) {
    Obj* o = objAt(addr, 1, false, "read");
    bool u;
    Expr* r = readBits(o, addr - o->base, 1, u);
    if(u) {
        r = mkVar("undef" + std::to_string(S->nondet++), 8, false);
        o = S->mem.getW(o->base >> SLOT_BITS);
        writeBits(o, addr - o->base, r, 1);
    }
    return r;
}
void Engine::readRange(u64 addr, u64 n, std::vector<Expr*>& out) {
    if(!n) return;
    Obj* o = objAt(addr, n, false, "read");
    for(u64 i = 0; i < n; i++) {
        u8 st = o->st[addr - o->base + i];
        if(st == B_CONC) out.push_back(mkConst(8, o->data[addr - o->base + i]));
        else if(st == B_SYM) out.push_back(o->sym[addr - o->base + i]);
        else out.push_back(mkVar("undef" + std::to_string(S->nondet++), 8, false));
    }
}
void Engine::writeByte(u64 addr, Expr* b) {
    Obj* o = objAt(addr, 1, true, "write");
    writeBits(o, addr - o->base, b, 1);
}
std::string Engine::cstr(u64 addr, u64 max) {
    std::string s;
    for(u64 i = 0; i < max; i++) {
        Expr* b = readByte(addr + i);
        u64 c = needConst(b);
        if(!c) break;
        s += (char)c;
    }
    return s;
}

// ---- accesses at a symbolic address: one object, all of its feasible aligned offsets at once
static u32 tz(Expr* e) { // known trailing zero bits
    switch(e->op) {
    case Op::Const: return e->width <= 64 ? (e->v ? __builtin_ctzll(e->v) : 64) : 0;
    case Op::Add: case Op::Sub: case Op::Or: case Op::Xor: return std::min(tz(e->k[0]), tz(e->k[1]));
    case Op::And: return std::max(tz(e->k[0]), tz(e->k[1]));
    case Op::Mul: return std::min(64u, tz(e->k[0]) + tz(e->k[1]));
    case Op::Shl: return e->k[1]->isConst() ? std::min<u32>(64, tz(e->k[0]) + (u32)std::min<u64>(64, e->k[1]->v)) : tz(e->k[0]);
    case Op::Ite: return std::min(tz(e->k[1]), tz(e->k[2]));
    case Op::ZExt: case Op::SExt: return std::min(tz(e->k[0]), e->k[0]->width);
    case Op::Concat: {
        u32 l = tz(e->k[1]);
        return l >= e->k[1]->width ? std::min(64u, e->k[1]->width + tz(e->k[0])) : l;
    }
    default: return 0;
    }
}
bool Engine::symCands(Expr* A, u64 bytes, u64 align, bool write, u64& base, std::vector<u64>& offs) {
    if(!g_cfg.symMem || bytes > 8 || S->multi) return false;
    u32 z = std::min(tz(A), 4u);
    if(((u64)1 << z) < align) return false;
    u64 v = evalU64(A, *S->model);
    Obj* o = S->mem.get(v >> SLOT_BITS);
    if(!o || v < o->base || v + bytes > o->base + o->size || o->kind == K_FUNC || (write && o->ro)) return false;
    u64 stride = (u64)1 << z;
    base = o->base;
    u64 last = base + o->size - bytes, size = o->size;
    u64 lo = std::max(base, A->ulo), hi = std::min(last, A->uhi);
    if(hi < lo || (hi - lo) / stride > 4 * g_cfg.symMem) return false;
    if(!branch(mkAnd(mkUle(mkConst(64, base), A), mkUle(A, mkConst(64, last))))) return false;
    o = S->mem.get(v >> SLOT_BITS);
    (void)size;
    for(u64 a = lo + ((v - lo) % stride); a <= hi; a += stride) {
        Expr* eq = mkEq(A, mkConst(64, a));
        if(eq->isFalse()) continue;
        if(a != v) {
            ModelP m;
            Res r = solveWith(S->pc, eq, S->model, m);
            if(r == Res::Unsat) continue;
        }
        offs.push_back(a - base);
        if(offs.size() > g_cfg.symMem) return false;
        for(u64 i = 0; i < bytes; i++)
            if(o->st[a - base + i] == B_UNDEF) return false;
    }
    return offs.size() > 1;
}
bool Engine::symLoad(Expr* A, Type* t, u64 align, Val& out) {
    if(!scalarType(t)) return false;
    u32 bits = bitsOf(DL, t), bytes = (bits + 7) / 8;
    u64 base;
    std::vector<u64> offs;
    if(!symCands(A, bytes, align, false, base, offs)) return false;
    Obj* o = objAt(base + offs[0], bytes, false, "read");
    Expr* r = nullptr;
    for(u64 off : offs) {
        bool u;
        Expr* e = readBits(o, off, bytes, u);
        if(e->op == Op::NumF) return false;
        r = r ? mkIte(mkEq(A, mkConst(64, base + off)), e, r) : e;
    }
    if(r->width > bits) r = mkExtract(r, 0, bits);
    out = r;
    R.symAccess++;
    return true;
}
bool Engine::symStore(Expr* A, const Val& v, Type* t, u64 align) {
    if(!scalarType(t) || !v.e) return false;
    u32 bits = bitsOf(DL, t), bytes = (bits + 7) / 8;
    Expr* e = E(v, bits);
    if(e->op == Op::NumF) return false;
    if(e->width < bytes * 8) e = mkZExt(e, bytes * 8);
    u64 base;
    std::vector<u64> offs;
    if(!symCands(A, bytes, align, true, base, offs)) return false;
    Obj* o = objAt(base + offs[0], bytes, true, "write");
    for(u64 off : offs) {
        bool u;
        Expr* old = readBits(o, off, bytes, u);
        writeBits(o, off, mkIte(mkEq(A, mkConst(64, base + off)), e, old), bytes);
    }
    R.symAccess++;
    return true;
}

Val Engine::loadFrom(u64 addr, Type* t) {
    if(scalarType(t)) {
        u32 bits = bitsOf(DL, t), bytes = (bits + 7) / 8;
        Obj* o = S->mem.get(addr >> SLOT_BITS);
        if(!o || addr < o->base || addr + bytes > o->base + o->size) o = objAt(addr, bytes, false, "read");
        bool u;
        Expr* e = readBits(o, addr - o->base, bytes, u);
        if(u) return Val();
        if(e->width > bits) e = mkExtract(e, 0, bits);
        return e;
    }
    std::vector<Val> v;
    if(auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL.getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); i++)
            v.push_back(loadFrom(addr + sl->getElementOffset(i), st->getElementType(i)));
    } else if(auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL.getTypeAllocSize(at->getElementType()).getFixedValue();
        for(u64 i = 0; i < at->getNumElements(); i++) v.push_back(loadFrom(addr + i * es, at->getElementType()));
    } else if(auto* vt = dyn_cast<FixedVectorType>(t)) {
        u32 eb = bitsOf(DL, vt->getElementType());
        if(eb % 8 == 0) {
            for(u64 i = 0; i < vt->getNumElements(); i++)
                v.push_back(loadFrom(addr + i * (eb / 8), vt->getElementType()));
        } else {
            u32 total = eb * vt->getNumElements();
            Val x = loadFrom(addr, IntegerType::get(t->getContext(), (total + 7) / 8 * 8));
            for(u64 i = 0; i < vt->getNumElements(); i++) v.push_back(x.e ? Val(mkExtract(x.e, i * eb, eb)) : Val());
        }
    }
    return aggVal(std::move(v));
}
void Engine::storeTo(u64 addr, const Val& v, Type* t) {
    if(scalarType(t)) {
        u32 bits = bitsOf(DL, t), bytes = (bits + 7) / 8;
        Obj* o = S->mem.getW(addr >> SLOT_BITS);
        if(!o || addr < o->base || addr + bytes > o->base + o->size) o = objAt(addr, bytes, true, "write");
        if(!v.e) {
            memset(&o->st[addr - o->base], B_UNDEF, bytes);
            return;
        }
        writeBits(o, addr - o->base, E(v, bits), bytes);
        return;
    }
    if(auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL.getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); i++)
            storeTo(addr + sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i));
    } else if(auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL.getTypeAllocSize(at->getElementType()).getFixedValue();
        for(u64 i = 0; i < at->getNumElements(); i++) storeTo(addr + i * es, (*v.agg)[i], at->getElementType());
    } else if(auto* vt = dyn_cast<FixedVectorType>(t)) {
        u32 eb = bitsOf(DL, vt->getElementType());
        if(eb % 8 == 0) {
            for(u64 i = 0; i < vt->getNumElements(); i++)
                storeTo(addr + i * (eb / 8), (*v.agg)[i], vt->getElementType());
        } else {
            Expr* e = flat(v, t);
            u32 total = (e->width + 7) / 8 * 8;
            storeTo(addr, mkZExt(e, total), IntegerType::get(t->getContext(), total));
        }
    }
}
Val Engine::load(u64 addr, Type* t, bool atomic) {
    u64 n = DL.getTypeStoreSize(t).getFixedValue();
    if(n == 0) return constVal(UndefValue::get(t));
    if(atomic) {
        u64 id = addr >> SLOT_BITS;
        bool r = g_cfg.race;
        g_cfg.race = false;
        (void)id;
        try {
            objAt(addr, n, false, "read");
        } catch(...) {
            g_cfg.race = r;
            throw;
        }
        g_cfg.race = r;
    } else objAt(addr, n, false, "read");
    return loadFrom(addr, t);
}
void Engine::store(u64 addr, const Val& v, Type* t, bool atomic) {
    u64 n = DL.getTypeStoreSize(t).getFixedValue();
    if(n == 0) return;
    bool r = g_cfg.race;
    if(atomic) g_cfg.race = false;
    try {
        objAt(addr, n, true, "write");
    } catch(...) {
        g_cfg.race = r;
        throw;
    }
    g_cfg.race = r;
    storeTo(addr, v, t);
}

u64 Engine::tlsAddr(const GlobalVariable* g) {
    auto& m = thr().tls;
    auto it = m.find(g);
    if(it != m.end()) return it->second;
    u64 sz = DL.getTypeAllocSize(g->getValueType()).getFixedValue();
    u64 al = g->getAlign() ? g->getAlign()->value() : DL.getABITypeAlign(g->getValueType()).value();
    u64 a = alloc(sz, K_TLS, "tls", al, true);
    if(g->hasInitializer()) initGlobal(a, g->getInitializer());
    thr().tls[g] = a;
    return a;
}

// ---------------------------------------------------------------- calls
void Engine::pushCall(Function* f, std::vector<Val> args, int dst, const CallBase*) {
    FnInfo* fi = info(f);
    fi->executed++;
    if(fi->hit.empty()) fi->hit.resize(fi->code.size());
    if(thr().frames.size() > 2000) {
        violation("nontermination", "call depth exceeds 2000");
    }
    Frame fr;
    fr.fn = fi;
    fr.regs.resize(fi->nregs);
    size_t na = f->arg_size();
    for(size_t i = 0; i < na && i < args.size(); i++) fr.regs[i] = args[i];
    // byval arguments are copied
    for(size_t i = 0; i < na; i++)
        if(f->getArg(i)->hasByValAttr()) {
            Type* bt = f->getArg(i)->getParamByValType();
            u64 sz = DL.getTypeAllocSize(bt).getFixedValue();
            u64 src = needConst(fr.regs[i].e);
            u64 a = alloc(sz, K_STACK, "byval", DL.getABITypeAlign(bt).value());
            store(a, load(src, bt), bt);
            fr.regs[i] = mkConst(64, a);
            fr.allocas.push_back(a >> SLOT_BITS);
        }
    fr.retDst = dst;
    thr().frames.push_back(std::move(fr));
}
void Engine::doRet(Val v) {
    Frame& f = fr();
    for(u64 id : f.allocas) S->mem.set(id, nullptr);
    int dst = f.retDst;
    thr().frames.pop_back();
    if(thr().frames.empty()) {
        if(S->cur == 0) return; // harness finished
        if(!thr().atexit.empty()) {
            auto [fn, arg] = thr().atexit.back();
            thr().atexit.pop_back();
            auto it = faddr.find(fn);
            if(it == faddr.end()) violation("memory", "thread exit with an invalid destructor");
            pushCall(it->second, {mkConst(64, arg)}, -1, nullptr);
            return;
        }
        for(auto& [g, a] : thr().tls) S->mem.set(a >> SLOT_BITS, nullptr);
        threadExit(v);
        return;
    }
    if(dst >= 0) fr().regs[dst] = std::move(v);
}
void Engine::jump(const BasicBlock* to) {
    Frame& f = fr();
    const BasicBlock* from = f.fn->code[f.pc - 1].I->getParent();
    u32 p = f.fn->bbStart[to];
    // parallel phi evaluation
    std::vector<std::pair<int, Val>> nv;
    while(auto* phi = dyn_cast<PHINode>(f.fn->code[p].I)) {
        int bi = phi->getBasicBlockIndex(from);
        int o = f.fn->code[p].ops[bi];
        nv.push_back({f.fn->code[p].dst, o >= 0 ? f.regs[o] : consts[~o]});
        p++;
    }
    for(auto& [d, v] : nv) f.regs[d] = std::move(v);
    f.pc = p;
    f.prev = from;
}

// ---------------------------------------------------------------- arithmetic
static const u32 NANPAT32 = 0x7fc00000;
Expr* Engine::fbin(unsigned opc, Expr* a, Expr* b) {
    switch(opc) {
    case Instruction::FAdd: return mkFBin(Op::FAdd, a, b);
    case Instruction::FSub: return mkFBin(Op::FSub, a, b);
    case Instruction::FMul: return mkFBin(Op::FMul, a, b);
    case Instruction::FDiv: return mkFBin(Op::FDiv, a, b);
    default: return mkFBin(Op::FRem, a, b);
    }
}
Val Engine::binop(unsigned opc, const Val& a, const Val& b, Type* t) {
    if(auto* vt = dyn_cast<FixedVectorType>(t)) {
        std::vector<Val> r;
        for(unsigned i = 0; i < vt->getNumElements(); i++)
            r.push_back(binop(opc, (*a.agg)[i], (*b.agg)[i], vt->getElementType()));
        return aggVal(std::move(r));
    }
    if(!a.e && !b.e) return Val();
    if((!a.e || !b.e) && (opc == Instruction::Add || opc == Instruction::Sub || opc == Instruction::Xor)) return Val();
    u32 w = bitsOf(DL, t);
    Expr *x = E(a, w), *y = E(b, w);
    switch(opc) {
    case Instruction::Add: return mkBin(Op::Add, x, y);
    case Instruction::Sub: return mkBin(Op::Sub, x, y);
    case Instruction::Mul: return mkBin(Op::Mul, x, y);
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem: {
        if(branch(mkEq(y, mkConst(w, 0)))) violation("ub", "division by zero");
        if((opc == Instruction::SDiv || opc == Instruction::SRem) && w <= 64) {
            Expr* ov = mkAnd(mkEq(x, mkConst(w, (u64)1 << (w - 1))), mkEq(y, mkConst(w, maskw(w))));
            if(branch(ov)) violation("ub", "signed division overflow");
        }
        return mkBin(opc == Instruction::UDiv ? Op::UDiv : opc == Instruction::SDiv ? Op::SDiv : opc == Instruction::URem ? Op::URem : Op::SRem, x, y);
    }
    case Instruction::And: return mkBin(Op::And, x, y);
    case Instruction::Or: return mkBin(Op::Or, x, y);
    case Instruction::Xor: return mkBin(Op::Xor, x, y);
    case Instruction::Shl: return mkBin(Op::Shl, x, y);
    case Instruction::LShr: return mkBin(Op::LShr, x, y);
    case Instruction::AShr: return mkBin(Op::AShr, x, y);
    default: return fbin(opc, x, y);
    }
}
Expr* Engine::icmp(CmpInst::Predicate p, Expr* a, Expr* b) {
    switch(p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNe(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_ULT: return mkUlt(a, b);
    case CmpInst::ICMP_ULE: return mkUle(a, b);
    case CmpInst::ICMP_SGT: return mkSlt(b, a);
    case CmpInst::ICMP_SGE: return mkSle(b, a);
    case CmpInst::ICMP_SLT: return mkSlt(a, b);
    default: return mkSle(a, b);
    }
}
Expr* Engine::fcmp(CmpInst::Predicate p, Expr* a, Expr* b) {
    auto uno = [&] { return mkOr(mkFCmp(Op::FUno, a, a), mkFCmp(Op::FUno, b, b)); };
    switch(p) {
    case CmpInst::FCMP_FALSE: return mkFalse();
    case CmpInst::FCMP_TRUE: return mkTrue();
    case CmpInst::FCMP_OEQ: return mkFCmp(Op::FEq, a, b);
    case CmpInst::FCMP_OGT: return mkFCmp(Op::FLt, b, a);
    case CmpInst::FCMP_OGE: return mkFCmp(Op::FLe, b, a);
    case CmpInst::FCMP_OLT: return mkFCmp(Op::FLt, a, b);
    case CmpInst::FCMP_OLE: return mkFCmp(Op::FLe, a, b);
    case CmpInst::FCMP_ONE: return mkOr(mkFCmp(Op::FLt, a, b), mkFCmp(Op::FLt, b, a));
    case CmpInst::FCMP_ORD: return mkNot(uno());
    case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return mkNot(mkOr(mkFCmp(Op::FLt, a, b), mkFCmp(Op::FLt, b, a)));
    case CmpInst::FCMP_UGT: return mkNot(mkFCmp(Op::FLe, a, b));
    case CmpInst::FCMP_UGE: return mkNot(mkFCmp(Op::FLt, a, b));
    case CmpInst::FCMP_ULT: return mkNot(mkFCmp(Op::FLe, b, a));
    case CmpInst::FCMP_ULE: return mkNot(mkFCmp(Op::FLt, b, a));
    default: return mkNot(mkFCmp(Op::FEq, a, b));
    }
}
Expr* Engine::flat(const Val& v, Type* t) {
    if(scalarType(t)) return E(v, bitsOf(DL, t));
    Type* et = isa<FixedVectorType>(t) ? cast<FixedVectorType>(t)->getElementType() : t->getArrayElementType();
    Expr* r = nullptr;
    for(size_t i = v.agg->size(); i-- > 0;) {
        Expr* x = flat((*v.agg)[i], et);
        r = r ? mkConcat(r, x) : x;
    }
    return r;
}
Val Engine::unflat(Expr* e, Type* t) {
    if(scalarType(t)) return e;
    auto* vt = cast<FixedVectorType>(t);
    u32 eb = bitsOf(DL, vt->getElementType());
    std::vector<Val> v;
    for(unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(mkExtract(e, i * eb, eb));
    return aggVal(std::move(v));
}
Val Engine::castv(const CastInst& c, const Val& a, Type* st, Type* dt) {
    unsigned opc = c.getOpcode();
    if(opc == Instruction::BitCast) {
        if(scalarType(st) && scalarType(dt)) return a;
        if(a.agg) {
            bool allu = true;
            for(auto& x : *a.agg) allu &= !x.e && !x.agg;
            if(allu) return constVal(UndefValue::get(dt));
        } else if(!a.e) return constVal(UndefValue::get(dt));
        return unflat(flat(a, st), dt);
    }
    if(auto* vt = dyn_cast<FixedVectorType>(dt)) {
        std::vector<Val> r;
        for(unsigned i = 0; i < vt->getNumElements(); i++)
            r.push_back(castv(c, (*a.agg)[i], cast<FixedVectorType>(st)->getElementType(), vt->getElementType()));
        return aggVal(std::move(r));
    }
    if(!a.e) return Val();
    u32 sw = bitsOf(DL, st), dw = bitsOf(DL, dt);
    Expr* x = E(a, sw);
    switch(opc) {
    case Instruction::Trunc: return mkExtract(x, 0, dw);
    case Instruction::ZExt: return mkZExt(x, dw);
    case Instruction::SExt: return mkSExt(x, dw);
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: return mkTruncOrZExt(x, dw);
    case Instruction::AddrSpaceCast: return x;
    case Instruction::FPToUI: return mkFToI(x, dw, false);
    case Instruction::FPToSI: return mkFToI(x, dw, true);
    case Instruction::UIToFP: return mkIToF(x, dw, false);
    case Instruction::SIToFP: return mkIToF(x, dw, true);
    case Instruction::FPTrunc:
    case Instruction::FPExt: return mkFConv(x, dw);
    default: incomplete("unsupported cast"); end();
    }
    return Val();
}

// ---------------------------------------------------------------- execution
static bool isVisibleName(StringRef n) {
    static const std::set<std::string> names = {
        "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_cond_wait",
        "pthread_cond_signal", "pthread_cond_broadcast", "pthread_create", "pthread_join",
        "syscall", "vx_yield", "vx_quiesce", "pthread_detach", "usleep", "sched_yield"};
    return names.count(n.str()) > 0;
}
static bool isVisible(const Instruction* I) {
    if(auto* l = dyn_cast<LoadInst>(I)) return l->isAtomic();
    if(auto* s = dyn_cast<StoreInst>(I)) return s->isAtomic();
    if(isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) return true;
    if(auto* cb = dyn_cast<CallBase>(I))
        if(auto* f = cb->getCalledFunction()) {
            if(!f->isDeclaration()) return false;
            if(f->getName().starts_with("pthread_") || f->getName() == "syscall" ||
               f->getName() == "vx_yield" || f->getName() == "usleep" || f->getName() == "sched_yield")
                return isVisibleName(f->getName());
        }
    return false;
}

void Engine::step() {
    Frame& f = fr();
    const DI& d = f.fn->code[f.pc];
    if(S->multi && !S->schedDone && isVisible(d.I)) {
        if(!visiblePoint()) return;
    }
    bool vis = S->multi && isVisible(d.I);
    f.fn->hit[f.pc] = 1;
    f.pc++;
    S->instrs++;
    R.instrs++;
    if(S->instrs > g_cfg.maxInstrs) {
        violation("nontermination", "path exceeds " + std::to_string(g_cfg.maxInstrs) + " instructions");
    }
    u32 t = S->cur;
    if(vis && !isa<CallBase>(d.I)) S->sched.push_back((u8)t);
    execInst(d);
    if(vis && S->cur == t) {
        S->schedDone = false;
        for(u32 i = 0; i < S->th.size(); i++)
            if(i != t) S->th[i].yielded = false;
    }
}

void Engine::execInst(const DI& d) {
    Instruction* I = d.I;
    switch(I->getOpcode()) {
    case Instruction::Ret: {
        Val v;
        if(I->getNumOperands()) v = opv(d, 0);
        doRet(v);
        return;
    }
    case Instruction::Br: {
        auto* br = cast<BranchInst>(I);
        if(br->isUnconditional()) {
            jump(br->getSuccessor(0));
            return;
        }
        bool t = branch(E(opv(d, 0), 1));
        jump(br->getSuccessor(t ? 0 : 1));
        return;
    }
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(I);
        Expr* c = E(opv(d, 0), bitsOf(DL, sw->getCondition()->getType()));
        if(c->isConst()) {
            APInt v = ::constVal(c);
            for(auto& k : sw->cases())
                if(k.getCaseValue()->getValue() == v) {
                    jump(k.getCaseSuccessor());
                    return;
                }
            jump(sw->getDefaultDest());
            return;
        }
        for(auto& k : sw->cases()) {
            Expr* eq = mkEq(c, mkConst(k.getCaseValue()->getValue()));
            auto it = S->known.find(eq);
            bool t = it != S->known.end() ? it->second : branch(eq);
            if(t) {
                jump(k.getCaseSuccessor());
                return;
            }
        }
        jump(sw->getDefaultDest());
        return;
    }
    case Instruction::Unreachable: violation("ub", "unreachable code executed"); return;
    case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(I);
        u64 n = u64arg(Val(mkZExt(E(opv(d, 0), 64), 64)));
        u64 sz = DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue() * n;
        u64 addr = alloc(sz, K_STACK, "alloca", a->getAlign().value());
        fr().allocas.push_back(addr >> SLOT_BITS);
        setReg(d.dst, mkConst(64, addr));
        return;
    }
    case Instruction::Load: {
        auto* l = cast<LoadInst>(I);
        Expr* ae = E(opv(d, 0), 64);
        Val sv;
        if(!ae->isConst() && !l->isAtomic() && symLoad(ae, l->getType(), l->getAlign().value(), sv)) {
            setReg(d.dst, sv);
            return;
        }
        u64 a = u64arg(opv(d, 0));
        if(a & (l->getAlign().value() - 1)) {
            objAt(a, 1, false, "read");
            violation("alignment", "misaligned read: address offset not a multiple of " + std::to_string(l->getAlign().value()));
        }
        if(l->isAtomic() && S->multi && isAcquireOrStronger(l->getOrdering())) acquireAddr(a);
        setReg(d.dst, load(a, l->getType(), l->isAtomic()));
        return;
    }
    case Instruction::Store: {
        auto* s = cast<StoreInst>(I);
        Expr* ae = E(opv(d, 1), 64);
        if(!ae->isConst() && !s->isAtomic() && symStore(ae, opv(d, 0), s->getValueOperand()->getType(), s->getAlign().value())) return;
        u64 a = u64arg(opv(d, 1));
        if(a & (s->getAlign().value() - 1)) {
            objAt(a, 1, false, "write");
            violation("alignment", "misaligned write: address offset not a multiple of " + std::to_string(s->getAlign().value()));
        }
        store(a, opv(d, 0), s->getValueOperand()->getType(), s->isAtomic());
        if(s->isAtomic() && S->multi) {
            if(isReleaseOrStronger(s->getOrdering())) S->syncVC[a] = thr().vc, tick();
            else S->syncVC.erase(a);
        }
        return;
    }
    case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(I);
        if(g->getType()->isVectorTy()) {
            incomplete("vector GEP");
            end();
        }
        Val bv = opv(d, 0);
        Expr* r = E(bv, 64);
        unsigned oi = 1;
        for(auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++oi) {
            if(StructType* st = gi.getStructTypeOrNull()) {
                u64 idx = cast<ConstantInt>(g->getOperand(oi))->getZExtValue();
                r = mkBin(Op::Add, r, mkConst(64, DL.getStructLayout(st)->getElementOffset(idx)));
            } else {
                Expr* idx = E(opv(d, oi), bitsOf(DL, g->getOperand(oi)->getType()));
                idx = idx->width < 64 ? mkSExt(idx, 64) : mkExtract(idx, 0, 64);
                u64 es = gi.getSequentialElementStride(DL).getFixedValue();
                r = mkBin(Op::Add, r, mkBin(Op::Mul, idx, mkConst(64, es)));
            }
        }
        setReg(d.dst, r);
        return;
    }
    case Instruction::ICmp: {
        auto* c = cast<ICmpInst>(I);
        Type* t = c->getOperand(0)->getType();
        Val a = opv(d, 0), b = opv(d, 1);
        if(auto* vt = dyn_cast<FixedVectorType>(t)) {
            u32 w = bitsOf(DL, vt->getElementType());
            std::vector<Val> r;
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                r.push_back(icmp(c->getPredicate(), E((*a.agg)[i], w), E((*b.agg)[i], w)));
            setReg(d.dst, aggVal(r));
            return;
        }
        u32 w = bitsOf(DL, t);
        setReg(d.dst, icmp(c->getPredicate(), E(a, w), E(b, w)));
        return;
    }
    case Instruction::FCmp: {
        auto* c = cast<FCmpInst>(I);
        Type* t = c->getOperand(0)->getType();
        Val a = opv(d, 0), b = opv(d, 1);
        if(auto* vt = dyn_cast<FixedVectorType>(t)) {
            u32 w = bitsOf(DL, vt->getElementType());
            std::vector<Val> r;
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                r.push_back(fcmp(c->getPredicate(), E((*a.agg)[i], w), E((*b.agg)[i], w)));
            setReg(d.dst, aggVal(r));
            return;
        }
        u32 w = bitsOf(DL, t);
        setReg(d.dst, fcmp(c->getPredicate(), E(a, w), E(b, w)));
        return;
    }
    case Instruction::FNeg: {
        Val a = opv(d, 0);
        if(auto* vt = dyn_cast<FixedVectorType>(I->getType())) {
            std::vector<Val> r;
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                r.push_back(mkFNeg(E((*a.agg)[i], bitsOf(DL, vt->getElementType()))));
            setReg(d.dst, aggVal(r));
        } else setReg(d.dst, mkFNeg(E(a, bitsOf(DL, I->getType()))));
        return;
    }
    case Instruction::Select: {
        Val c = opv(d, 0), a = opv(d, 1), b = opv(d, 2);
        Type* t = I->getType();
        if(c.agg) {
            auto* vt = cast<FixedVectorType>(t);
            u32 w = bitsOf(DL, vt->getElementType());
            std::vector<Val> r;
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                r.push_back(mkIte(E((*c.agg)[i], 1), E((*a.agg)[i], w), E((*b.agg)[i], w)));
            setReg(d.dst, aggVal(r));
            return;
        }
        Expr* ce = E(c, 1);
        if(ce->isConst()) {
            setReg(d.dst, ce->v ? a : b);
            return;
        }
        if(scalarType(t)) {
            if(!a.e) { setReg(d.dst, b); return; }
            if(!b.e) { setReg(d.dst, a); return; }
            Expr *x = E(a, 0), *y = E(b, 0);
            if(t->isPointerTy()) { // keep pointers concrete
                setReg(d.dst, branch(ce) ? x : y);
                return;
            }
            setReg(d.dst, mkIte(ce, x, y));
        } else setReg(d.dst, branch(ce) ? a : b);
        return;
    }
    case Instruction::PHI: incomplete("phi executed directly"); end(); return;
    case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(I);
        Val v = opv(d, 0);
        for(unsigned i : ev->indices()) v = (*v.agg)[i];
        setReg(d.dst, v);
        return;
    }
    case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(I);
        std::function<Val(const Val&, const Val&, ArrayRef<unsigned>)> ins =
            [&](const Val& agg, const Val& x, ArrayRef<unsigned> idx) -> Val {
            if(idx.empty()) return x;
            std::vector<Val> v = *agg.agg;
            v[idx[0]] = ins(v[idx[0]], x, idx.drop_front());
            return aggVal(std::move(v));
        };
        setReg(d.dst, ins(opv(d, 0), opv(d, 1), iv->getIndices()));
        return;
    }
    case Instruction::ExtractElement: {
        Val v = opv(d, 0);
        u64 i = uarg(opv(d, 1), bitsOf(DL, I->getOperand(1)->getType()));
        setReg(d.dst, i < v.agg->size() ? (*v.agg)[i] : Val());
        return;
    }
    case Instruction::InsertElement: {
        Val v = opv(d, 0);
        u64 i = uarg(opv(d, 2), bitsOf(DL, I->getOperand(2)->getType()));
        std::vector<Val> n = *v.agg;
        if(i < n.size()) n[i] = opv(d, 1);
        setReg(d.dst, aggVal(std::move(n)));
        return;
    }
    case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(I);
        Val a = opv(d, 0), b = opv(d, 1);
        std::vector<Val> r;
        for(int m : sv->getShuffleMask()) {
            if(m < 0) r.push_back(Val());
            else if((size_t)m < a.agg->size()) r.push_back((*a.agg)[m]);
            else r.push_back((*b.agg)[m - a.agg->size()]);
        }
        setReg(d.dst, aggVal(std::move(r)));
        return;
    }
    case Instruction::Freeze: {
        Val a = opv(d, 0);
        std::function<Val(const Val&, Type*)> fz = [&](const Val& v, Type* t) -> Val {
            if(scalarType(t)) return v.e ? v : Val(E(v, bitsOf(DL, t)));
            std::vector<Val> r;
            for(size_t i = 0; i < v.agg->size(); i++) {
                Type* et = t->isStructTy() ? t->getStructElementType(i)
                           : t->isArrayTy() ? t->getArrayElementType()
                                            : cast<FixedVectorType>(t)->getElementType();
                r.push_back(fz((*v.agg)[i], et));
            }
            return aggVal(std::move(r));
        };
        setReg(d.dst, fz(a, I->getType()));
        return;
    }
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: {
        auto* rmw = cast<AtomicRMWInst>(I);
        u64 a = u64arg(opv(d, 0));
        Type* t = rmw->getValOperand()->getType();
        u32 w = bitsOf(DL, t);
        Expr* old = E(load(a, t, true), w);
        Expr* x = E(opv(d, 1), w);
        Expr* n = nullptr;
        switch(rmw->getOperation()) {
        case AtomicRMWInst::Xchg: n = x; break;
        case AtomicRMWInst::Add: n = mkBin(Op::Add, old, x); break;
        case AtomicRMWInst::Sub: n = mkBin(Op::Sub, old, x); break;
        case AtomicRMWInst::And: n = mkBin(Op::And, old, x); break;
        case AtomicRMWInst::Or: n = mkBin(Op::Or, old, x); break;
        case AtomicRMWInst::Xor: n = mkBin(Op::Xor, old, x); break;
        case AtomicRMWInst::Nand: n = mkNot(mkBin(Op::And, old, x)); break;
        case AtomicRMWInst::Max: n = mkIte(mkSlt(old, x), x, old); break;
        case AtomicRMWInst::Min: n = mkIte(mkSlt(x, old), x, old); break;
        case AtomicRMWInst::UMax: n = mkIte(mkUlt(old, x), x, old); break;
        case AtomicRMWInst::UMin: n = mkIte(mkUlt(x, old), x, old); break;
        default: incomplete("atomicrmw op"); end();
        }
        store(a, n, t, true);
        if(S->multi) {
            if(isAcquireOrStronger(rmw->getOrdering())) acquireAddr(a);
            if(isReleaseOrStronger(rmw->getOrdering())) releaseAddr(a);
        }
        setReg(d.dst, old);
        return;
    }
    case Instruction::AtomicCmpXchg: {
        auto* cx = cast<AtomicCmpXchgInst>(I);
        u64 a = u64arg(opv(d, 0));
        Type* t = cx->getCompareOperand()->getType();
        u32 w = bitsOf(DL, t);
        Expr* old = E(load(a, t, true), w);
        Expr* eq = mkEq(old, E(opv(d, 1), w));
        bool ok = branch(eq);
        if(S->multi && isAcquireOrStronger(ok ? cx->getSuccessOrdering() : cx->getFailureOrdering())) acquireAddr(a);
        if(ok) {
            store(a, opv(d, 2), t, true);
            if(S->multi && isReleaseOrStronger(cx->getSuccessOrdering())) releaseAddr(a);
        }
        setReg(d.dst, aggVal({Val(old), Val(mkBool(ok))}));
        return;
    }
    case Instruction::Call:
    case Instruction::Invoke: execCall(d, *cast<CallBase>(I)); return;
    default:
        if(auto* c = dyn_cast<CastInst>(I)) {
            setReg(d.dst, castv(*c, opv(d, 0), c->getSrcTy(), c->getDestTy()));
            return;
        }
        if(I->isBinaryOp()) {
            setReg(d.dst, binop(I->getOpcode(), opv(d, 0), opv(d, 1), I->getType()));
            return;
        }
        incomplete(std::string("unsupported instruction ") + I->getOpcodeName());
        end();
    }
}

void Engine::execCall(const DI& d, const CallBase& cb) {
    unsigned na = cb.arg_size();
    if(cb.isInlineAsm()) {
        if(cb.getType()->isVoidTy()) return;
        auto* ia = cast<InlineAsm>(cb.getCalledOperand());
        if(ia->getAsmString().empty() && na == 1) {
            setReg(d.dst, opv(d, 0));
            return;
        }
        incomplete("inline assembly");
        end();
    }
    Function* f = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
    if(!f) {
        if(auto* ga = dyn_cast<GlobalAlias>(cb.getCalledOperand())) f = dyn_cast<Function>(ga->getAliaseeObject());
    }
    if(f && f->isIntrinsic()) {
        std::vector<Val> args;
        for(unsigned i = 0; i < na; i++) args.push_back(opv(d, i));
        auto* ii = dyn_cast<IntrinsicInst>(&cb);
        if(ii && intrinsic(d, *ii, args)) return;
        incomplete("unsupported intrinsic " + f->getName().str());
        end();
    }
    if(!f) {
        u64 a = u64arg(opv(d, (int)d.ops.size() - 1));
        auto it = faddr.find(a);
        if(it == faddr.end()) {
            violation("memory", "indirect call through invalid function pointer");
        }
        f = it->second;
    }
    std::vector<Val> args;
    for(unsigned i = 0; i < na; i++) args.push_back(opv(d, i));
    auto hi = hcache.find(f);
    Handler* h = nullptr;
    if(hi != hcache.end()) h = hi->second;
    else {
        std::string n = f->getName().str();
        auto it = handlers.find(n);
        if(it != handlers.end() && (f->isDeclaration() || n.rfind("vx_", 0) == 0)) h = &it->second;
        else if(n.rfind("_ZN3rpp3Log3logI", 0) == 0) h = &handlers["$log"];
        hcache[f] = h;
    }
    if(h) {
        (*h)(*this, cb, args, d.dst);
        return;
    }
    if(f->isDeclaration()) {
        incomplete("call of unmodelled external function " + f->getName().str());
        end();
    }
    if(f->isVarArg()) {
        pushCall(f, args, d.dst, &cb);
        for(unsigned i = f->arg_size(); i < na; i++) {
            fr().varargs.push_back(args[i]);
            fr().varargTys.push_back(cb.getArgOperand(i)->getType());
        }
        return;
    }
    pushCall(f, std::move(args), d.dst, &cb);
}

// ---------------------------------------------------------------- driver
bool Engine::mayShare() { return g_sh && work.size() >= 2; }

static std::vector<pid_t> g_children;
static void noteCrash(pid_t p, int st) {
    if(WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
        std::string fn = g_cfg.outDir + "/crash." + std::to_string(p);
        FILE* fo = fopen(fn.c_str(), "w");
        if(fo) fprintf(fo, "status %d\n", st), fclose(fo);
    }
}
void Engine::shareWork() {
    int t = g_sh->tokens.load();
    while(t > 0 && !g_sh->tokens.compare_exchange_weak(t, t - 1)) {}
    if(t <= 0) return;
    fflush(nullptr);
    pid_t p = fork();
    if(p < 0) {
        g_sh->tokens++;
        return;
    }
    size_t half = work.size() / 2;
    if(p == 0) { // child: take every other pending state, starting with the oldest
        std::vector<State*> mine;
        for(size_t i = 0; i < work.size(); i++)
            if(i % 2 == 0) mine.push_back(work[i]);
        work.swap(mine);
        S = nullptr;
        g_children.clear();
        R = HarnessResult();
        g_ss = SolverStats();
        for(auto& [f, fi] : fns) fi->executed = 0, fi->hit.assign(fi->hit.size(), 0);
        // fresh variable ids must stay process-local; names are only labels
    } else {
        std::vector<State*> keep;
        for(size_t i = 0; i < work.size(); i++)
            if(i % 2 == 1) keep.push_back(work[i]);
            else delete work[i];
        work.swap(keep);
        g_children.push_back(p);
        // reap finished children
        int st;
        for(size_t i = 0; i < g_children.size();)
            if(waitpid(g_children[i], &st, WNOHANG) > 0) {
                noteCrash(g_children[i], st);
                g_children.erase(g_children.begin() + i);
            } else i++;
    }
    (void)half;
}

static void jstr(std::string& o, const std::string& s) {
    o += '"';
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') o += '\\', o += (char)c;
        else if(c == '\n') o += "\\n";
        else if(c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else o += (char)c;
    }
    o += '"';
}
void Engine::finish() {
    for(auto& [f, fi] : fns)
        for(size_t i = 0; i < fi->hit.size(); i++) {
            if(!fi->hit[i]) continue;
            for(const DILocation* L = fi->code[i].I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
                auto* sp = L->getScope()->getSubprogram();
                if(!sp) continue;
                std::string file = sp->getFilename().str();
                size_t at = file.find("rpp/");
                if(at == std::string::npos) continue;
                size_t at2 = file.rfind("/rpp/");
                file = at2 == std::string::npos ? file.substr(at + 4) : file.substr(at2 + 5);
                R.functions[file + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str()]++;
            }
        }
    std::string o = "{";
    auto num = [&](const char* k, double v) {
        char b[64];
        snprintf(b, sizeof b, "%.17g", v);
        jstr(o, k);
        o += std::string(": ") + b + ", ";
    };
    num("paths", R.paths);
    num("forks", R.forks);
    num("instrs", R.instrs);
    num("diePaths", R.diePaths);
    num("assumeKilled", R.assumeKilled);
    num("asserts", R.asserts);
    num("maxPathInstrs", R.maxPathInstrs);
    num("maxPc", R.maxPc);
    num("memChecks", R.memChecks);
    num("queries", g_ss.queries);
    num("sat", g_ss.sat);
    num("unsat", g_ss.unsat);
    num("unknown", g_ss.unknown);
    num("cacheHits", g_ss.cache_hits);
    num("modelHits", g_ss.model_hits);
    num("solverTime", g_ss.time);
    num("maxQuery", g_ss.max_time);
    num("numfLeaks", g_numf_leaks);
    num("symbolicAccesses", R.symAccess);
    o += "\"incomplete\": [";
    bool first = true;
    for(auto& s : R.incomplete) {
        if(!first) o += ", ";
        first = false;
        jstr(o, s);
    }
    o += "], \"sample\": [";
    first = true;
    for(auto& s : R.sample) {
        if(!first) o += ", ";
        first = false;
        jstr(o, s);
    }
    o += "], \"reached\": {";
    first = true;
    for(auto& [l, n] : R.reached) {
        if(!first) o += ", ";
        first = false;
        jstr(o, l);
        o += ": " + std::to_string(n);
    }
    o += "}, \"functions\": {";
    first = true;
    for(auto& [l, n] : R.functions) {
        if(!first) o += ", ";
        first = false;
        jstr(o, l);
        o += ": " + std::to_string(n);
    }
    o += "}, \"violations\": [";
    first = true;
    for(auto& v : R.viol) {
        if(!first) o += ", ";
        first = false;
        o += "{\"kind\": ";
        jstr(o, v.kind);
        o += ", \"msg\": ";
        jstr(o, v.msg);
        o += ", \"loc\": ";
        jstr(o, v.loc);
        o += ", \"stack\": ";
        jstr(o, v.stack);
        o += ", \"threaded\": " + std::string(v.threaded ? "true" : "false");
        o += ", \"inputs\": [";
        bool f2 = true;
        for(auto& [n, x] : v.inputs) {
            if(!f2) o += ", ";
            f2 = false;
            o += "[";
            jstr(o, n);
            o += ", ";
            jstr(o, x);
            o += "]";
        }
        o += "], \"sched\": [";
        f2 = true;
        for(u8 t : v.sched) {
            if(!f2) o += ", ";
            f2 = false;
            o += std::to_string(t);
        }
        o += "]}";
    }
    o += "]}";
    std::string fn = g_cfg.outDir + "/part." + std::to_string(getpid()) + ".json";
    FILE* f = fopen(fn.c_str(), "w");
    fputs(o.c_str(), f);
    fclose(f);
}

void Engine::run(const std::string& name) {
    Function* f = M.getFunction(name);
    if(!f || f->isDeclaration()) {
        fprintf(stderr, "no such harness: %s\n", name.c_str());
        exit(4);
    }
    pid_t root = getpid();
    g_sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh->tokens = (int)g_cfg.jobs - 1;
    deadline = now() + g_cfg.maxTime;
    S = new State(*base);
    pushCall(f, {}, -1, nullptr);
    work.push_back(S);
    double lastShare = now();
    while(!work.empty()) {
        S = work.back();
        work.pop_back();
        bool done = false;
        try {
            u64 n = 0;
            while(true) {
                step();
                if(S->th[0].frames.empty()) {
                    done = true;
                    break;
                }
                if((++n & 1023) == 0) {
                    double t = now();
                    if(g_sh->stop.load()) throw PathEnd();
                    if(t > deadline) {
                        incomplete("time limit of " + std::to_string((int)g_cfg.maxTime) + "s reached");
                        abortAll = true;
                        throw PathEnd();
                    }
                }
                if(work.size() >= 2 && g_sh->tokens.load() > 0 && (n & 63) == 0 && now() - lastShare > 0.02) {
                    work.push_back(S);
                    State* keep = S;
                    pid_t me = getpid();
                    shareWork();
                    if(getpid() != me) keep = nullptr;
                    lastShare = now();
                    (void)keep;
                    S = nullptr;
                    break;
                }
            }
        } catch(PathEnd&) {}
        if(!S) continue;
        R.paths++;
        R.maxPathInstrs = std::max(R.maxPathInstrs, S->instrs);
        R.maxPc = std::max<u64>(R.maxPc, S->pc.size());
        if(done && R.sample.size() < 3) {
            std::string s;
            for(auto& in : S->inputs) {
                APInt val = evalAP(g_vars[in.var].e, *S->model);
                SmallString<64> t;
                val.toString(t, 10, false);
                s += in.name + "=" + std::string(t.str()) + " ";
                if(s.size() > 300) break;
            }
            if(S->multi) {
                s += " schedule=";
                for(u8 t : S->sched) s += std::to_string(t);
            }
            R.sample.push_back(s);
        }
        delete S;
        S = nullptr;
        if(abortAll || g_sh->stop.load()) {
            for(auto* w : work) delete w;
            work.clear();
        }
    }
    S = base;
    if(getpid() != root) g_sh->tokens++; // let others proceed before reporting
    finish();
    for(pid_t p : g_children) {
        int st;
        waitpid(p, &st, 0);
        noteCrash(p, st);
    }
    if(getpid() != root) _exit(0);
}
