// Intrinsics, libc / pthread / futex models, harness API, thread scheduling.
#include "engine.h"
#include <cerrno>
#include <cstring>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/IntrinsicsX86.h>
using namespace llvm;

static bool scalarType(Type* t) { return t->isIntegerTy() || t->isFloatingPointTy() || t->isPointerTy(); }

struct Handlers {
    static bool valid(Engine& e, u64 addr, u64 n) {
        Obj* o = e.S->mem.get(addr >> SLOT_BITS);
        return o && addr >= o->base && addr + n <= o->base + o->size;
    }
    static void copyBytes(Engine& e, u64 dst, u64 src, u64 n) {
        if(!n) return;
        e.objAt(src, n, false, "read");
        e.objAt(dst, n, true, "write");
        Obj* o = e.S->mem.getW(dst >> SLOT_BITS);
        if(!o || dst < o->base || dst >= o->base + o->size) o = e.objAt(dst, n, true, "write");
        Obj* s = e.objAt(src, n, false, "read");
        u64 so = src - s->base, dof = dst - o->base;
        std::vector<u8> st(s->st.begin() + so, s->st.begin() + so + n);
        std::vector<u8> da(s->data.begin() + so, s->data.begin() + so + n);
        std::vector<Expr*> sy;
        bool anysym = false;
        for(u8 x : st) anysym |= x == B_SYM;
        if(anysym) sy.assign(s->sym.begin() + so, s->sym.begin() + so + n);
        memcpy(&o->st[dof], st.data(), n);
        memcpy(&o->data[dof], da.data(), n);
        if(anysym) {
            if(o->sym.empty()) o->sym.resize(o->size);
            for(u64 i = 0; i < n; i++) o->sym[dof + i] = sy[i];
        }
    }
    static void setBytes(Engine& e, u64 dst, Expr* v, u64 n) {
        if(!n) return;
        Obj* o = e.objAt(dst, n, true, "write");
        u64 off = dst - o->base;
        if(v->isConst()) {
            memset(&o->data[off], (int)v->v, n);
            memset(&o->st[off], B_CONC, n);
        } else
            for(u64 i = 0; i < n; i++) e.writeBits(o, off + i, v, 1);
    }
    static void freeMem(Engine& e, u64 p) {
        if(!p) return;
        Obj* o = e.S->mem.get(p >> SLOT_BITS);
        if(!o) {
            if((p >> SLOT_BITS) < e.S->mem.next && (p >> SLOT_BITS) > 0) e.violation("memory", "double free or free of dead memory");
            e.violation("memory", "free of invalid pointer");
        }
        if(o->kind != K_HEAP || o->base != p) e.violation("memory", "free of a pointer not returned by malloc");
        if(e.S->multi && g_cfg.race) e.raceCheck(e.S->mem.getW(p >> SLOT_BITS), 0, o->size, true);
        e.S->mem.set(p >> SLOT_BITS, nullptr);
        e.S->liveAllocs--;
    }
    static u64 mallocMem(Engine& e, u64 n, bool zero) {
        if(n > ((u64)1 << 40)) return 0;
        u64 a = e.alloc(n, K_HEAP, "heap", 16, zero);
        e.S->liveAllocs++;
        return a;
    }
    static Expr* cmpBytes(Engine& e, u64 a, u64 b, u64 n) {
        std::vector<Expr*> x, y;
        e.readRange(a, n, x);
        e.readRange(b, n, y);
        Expr* r = mkConst(32, 0);
        for(u64 i = n; i-- > 0;)
            r = mkIte(mkEq(x[i], y[i]), r, mkIte(mkUlt(x[i], y[i]), mkConst(32, (u64)-1), mkConst(32, 1)));
        return r;
    }
    static Expr* strcmpBytes(Engine& e, u64 a, u64 b, u64 n) {
        std::vector<Expr*> conds, vals;
        Expr* cont = mkTrue();
        for(u64 i = 0; i < n; i++) {
            if(cont->isFalse()) break;
            if(!valid(e, a + i, 1) || !valid(e, b + i, 1)) {
                if(e.branch(cont)) {
                    e.readByte(a + i);
                    e.readByte(b + i);
                }
                break;
            }
            Expr *x = e.readByte(a + i), *y = e.readByte(b + i);
            Expr* eq = mkEq(x, y);
            conds.push_back(mkNot(eq));
            vals.push_back(mkIte(mkUlt(x, y), mkConst(32, (u64)-1), mkConst(32, 1)));
            conds.push_back(mkEq(x, mkConst(8, 0)));
            vals.push_back(mkConst(32, 0));
            cont = mkAnd(cont, mkAnd(eq, mkNe(x, mkConst(8, 0))));
        }
        Expr* r = mkConst(32, 0);
        for(size_t i = conds.size(); i-- > 0;) r = mkIte(conds[i], vals[i], r);
        return r;
    }
    static u64 strlenBytes(Engine& e, u64 a) {
        u64 n = 0;
        while(true) {
            Expr* b = e.readByte(a + n);
            if(e.branch(mkEq(b, mkConst(8, 0)))) return n;
            n++;
        }
    }
};

bool Engine::intrinsic(const DI& d, const IntrinsicInst& ii, std::vector<Val>& a) {
    Type* t = ii.getType();
    auto lanes1 = [&](auto fn) {
        if(auto* vt = dyn_cast<FixedVectorType>(t)) {
            std::vector<Val> r;
            u32 w = (u32)vt->getElementType()->getPrimitiveSizeInBits();
            for(unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(fn(E((*a[0].agg)[i], w)));
            setReg(d.dst, aggVal(std::move(r)));
        } else setReg(d.dst, fn(E(a[0], (u32)t->getPrimitiveSizeInBits())));
        return true;
    };
    auto lanes2 = [&](auto fn) {
        if(auto* vt = dyn_cast<FixedVectorType>(t)) {
            std::vector<Val> r;
            u32 w = (u32)vt->getElementType()->getPrimitiveSizeInBits();
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                r.push_back(fn(E((*a[0].agg)[i], w), E((*a[1].agg)[i], w)));
            setReg(d.dst, aggVal(std::move(r)));
        } else {
            u32 w = (u32)t->getPrimitiveSizeInBits();
            setReg(d.dst, fn(E(a[0], w), E(a[1], w)));
        }
        return true;
    };
    auto uf = [&](u32 id) { return lanes1([id](Expr* x) { return mkFUF(id, x, nullptr); }); };
    switch(ii.getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
    case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::stackrestore: case Intrinsic::var_annotation:
        if(!t->isVoidTy()) setReg(d.dst, mkConst(64, 0));
        return true;
    case Intrinsic::x86_sse2_pause: {
        if(S->multi) {
            thr().yielded = true;
            pickNext();
        }
        return true;
    }
    case Intrinsic::stacksave: setReg(d.dst, mkConst(64, 0)); return true;
    case Intrinsic::expect: setReg(d.dst, a[0]); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation: case Intrinsic::annotation:
        setReg(d.dst, a[0]);
        return true;
    case Intrinsic::is_constant: setReg(d.dst, mkFalse()); return true;
    case Intrinsic::objectsize: setReg(d.dst, mkConst(t->getIntegerBitWidth(), ~(u64)0)); return true;
    case Intrinsic::threadlocal_address: {
        auto* g = cast<GlobalVariable>(ii.getArgOperand(0)->stripPointerCasts());
        setReg(d.dst, mkConst(64, tlsAddr(g)));
        return true;
    }
    case Intrinsic::ubsantrap: {
        u64 k = a[0].e->v;
        const char* n = k == 20 ? "shift out of range" : k == 0 ? "signed addition overflow" : k == 21 ? "signed subtraction overflow"
                        : k == 12 ? "signed multiplication overflow" : k == 3 ? "division by zero or overflow"
                        : k == 1 ? "unreachable code executed" : k == 8 ? "missing return" : k == 13 ? "negation overflow"
                        : k == 5 ? "float to integer overflow" : "undefined behaviour";
        violation("ub", n);
        return true;
    }
    case Intrinsic::trap: case Intrinsic::debugtrap: dieEvent("trap"); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 n = needConst(E(a[2], 64)), dst = u64arg(a[0]), src = u64arg(a[1]);
        if(ii.getIntrinsicID() == Intrinsic::memcpy && n && src != dst && src < dst + n && dst < src + n)
            violation("memory", "memcpy with overlapping ranges");
        Handlers::copyBytes(*this, dst, src, n);
        return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n = needConst(E(a[2], 64)), dst = u64arg(a[0]);
        Handlers::setBytes(*this, dst, E(a[1], 8), n);
        return true;
    }
    case Intrinsic::ctpop:
        return lanes1([](Expr* x) {
            Expr* r = mkConst(x->width, 0);
            for(u32 i = 0; i < x->width; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(x, i, 1), x->width));
            return r;
        });
    case Intrinsic::ctlz:
        return lanes1([](Expr* x) {
            Expr* r = mkConst(x->width, x->width);
            for(u32 i = 0; i < x->width; i++) r = mkIte(mkExtract(x, i, 1), mkConst(x->width, x->width - 1 - i), r);
            return r;
        });
    case Intrinsic::cttz:
        return lanes1([](Expr* x) {
            Expr* r = mkConst(x->width, x->width);
            for(u32 i = x->width; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(x->width, i), r);
            return r;
        });
    case Intrinsic::bswap:
        return lanes1([](Expr* x) {
            Expr* r = mkExtract(x, 0, 8);
            for(u32 i = 8; i < x->width; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
            return r;
        });
    case Intrinsic::bitreverse:
        return lanes1([](Expr* x) {
            Expr* r = mkExtract(x, 0, 1);
            for(u32 i = 1; i < x->width; i++) r = mkConcat(r, mkExtract(x, i, 1));
            return r;
        });
    case Intrinsic::fshl: case Intrinsic::fshr: {
        bool left = ii.getIntrinsicID() == Intrinsic::fshl;
        auto one = [&](Expr* x, Expr* y, Expr* s) {
            u32 w = x->width;
            Expr* sm = mkBin(Op::URem, s, mkConst(w, w));
            Expr* inv = mkBin(Op::Sub, mkConst(w, w), sm);
            Expr* r = left ? mkBin(Op::Or, mkBin(Op::Shl, x, sm), mkBin(Op::LShr, y, inv))
                           : mkBin(Op::Or, mkBin(Op::Shl, x, inv), mkBin(Op::LShr, y, sm));
            return r; // shifts by w yield 0 in this encoding, which is what s==0 needs
        };
        if(auto* vt = dyn_cast<FixedVectorType>(t)) {
            std::vector<Val> r;
            u32 w = (u32)vt->getElementType()->getPrimitiveSizeInBits();
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                r.push_back(one(E((*a[0].agg)[i], w), E((*a[1].agg)[i], w), E((*a[2].agg)[i], w)));
            setReg(d.dst, aggVal(std::move(r)));
        } else {
            u32 w = t->getIntegerBitWidth();
            setReg(d.dst, one(E(a[0], w), E(a[1], w), E(a[2], w)));
        }
        return true;
    }
    case Intrinsic::abs: return lanes1([](Expr* x) { return mkIte(mkSlt(x, mkConst(x->width, 0)), mkNeg(x), x); });
    case Intrinsic::smax: return lanes2([](Expr* x, Expr* y) { return mkIte(mkSlt(x, y), y, x); });
    case Intrinsic::smin: return lanes2([](Expr* x, Expr* y) { return mkIte(mkSlt(x, y), x, y); });
    case Intrinsic::umax: return lanes2([](Expr* x, Expr* y) { return mkIte(mkUlt(x, y), y, x); });
    case Intrinsic::umin: return lanes2([](Expr* x, Expr* y) { return mkIte(mkUlt(x, y), x, y); });
    case Intrinsic::usub_sat: return lanes2([](Expr* x, Expr* y) { return mkIte(mkUlt(x, y), mkConst(x->width, 0), mkBin(Op::Sub, x, y)); });
    case Intrinsic::uadd_sat: return lanes2([](Expr* x, Expr* y) { Expr* s = mkBin(Op::Add, x, y); return mkIte(mkUlt(s, x), mkConst(APInt::getAllOnes(x->width)), s); });
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
        bool add = ii.getIntrinsicID() == Intrinsic::sadd_sat;
        return lanes2([add](Expr* x, Expr* y) {
            u32 w = x->width;
            Expr* s = mkBin(add ? Op::Add : Op::Sub, mkSExt(x, w + 1), mkSExt(y, w + 1));
            Expr* mx = mkConst(APInt::getSignedMaxValue(w)); Expr* mn = mkConst(APInt::getSignedMinValue(w));
            return mkIte(mkSlt(mkSExt(mx, w + 1), s), mx, mkIte(mkSlt(s, mkSExt(mn, w + 1)), mn, mkExtract(s, 0, w)));
        });
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        auto id = ii.getIntrinsicID();
        u32 w = ii.getArgOperand(0)->getType()->getIntegerBitWidth();
        Expr *x = E(a[0], w), *y = E(a[1], w), *r, *o;
        if(id == Intrinsic::uadd_with_overflow) r = mkBin(Op::Add, x, y), o = mkUlt(r, x);
        else if(id == Intrinsic::usub_with_overflow) r = mkBin(Op::Sub, x, y), o = mkUlt(x, y);
        else if(id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow) {
            Op op = id == Intrinsic::sadd_with_overflow ? Op::Add : Op::Sub;
            r = mkBin(op, x, y);
            i64 al, ah, bl, bh;
            bool safe = false;
            if(w <= 64 && srange(x, al, ah) && srange(y, bl, bh)) {
                __int128 l = op == Op::Add ? (__int128)al + bl : (__int128)al - bh, u = op == Op::Add ? (__int128)ah + bh : (__int128)ah - bl;
                __int128 mx = ((__int128)1 << (w - 1)) - 1;
                safe = l >= -mx - 1 && u <= mx;
            }
            o = safe ? mkFalse() : mkNe(mkSExt(r, w + 1), mkBin(op, mkSExt(x, w + 1), mkSExt(y, w + 1)));
        } else {
            bool sg = id == Intrinsic::smul_with_overflow;
            r = mkBin(Op::Mul, x, y);
            bool safe = false;
            if(sg) {
                i64 al, ah, bl, bh;
                if(w <= 64 && srange(x, al, ah) && srange(y, bl, bh)) {
                    __int128 p[4] = {(__int128)al * bl, (__int128)al * bh, (__int128)ah * bl, (__int128)ah * bh};
                    __int128 l = *std::min_element(p, p + 4), u = *std::max_element(p, p + 4), mx = ((__int128)1 << (w - 1)) - 1;
                    safe = l >= -mx - 1 && u <= mx;
                }
            } else if(w <= 64) safe = (unsigned __int128)x->uhi * y->uhi <= maskw(w);
            if(safe) o = mkFalse();
            else {
                Expr* X = sg ? mkSExt(x, 2 * w) : mkZExt(x, 2 * w);
                Expr* Y = sg ? mkSExt(y, 2 * w) : mkZExt(y, 2 * w);
                o = mkNe(sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w), mkBin(Op::Mul, X, Y));
            }
        }
        setReg(d.dst, aggVal({Val(r), Val(o)}));
        return true;
    }
    case Intrinsic::fabs: return lanes1([](Expr* x) { return mkFAbs(x); });
    case Intrinsic::sqrt: return lanes1([](Expr* x) { return mkFSqrt(x); });
    case Intrinsic::floor: return lanes1([](Expr* x) { return mkFRound(x, RND_FLOOR); });
    case Intrinsic::ceil: return lanes1([](Expr* x) { return mkFRound(x, RND_CEIL); });
    case Intrinsic::trunc: return lanes1([](Expr* x) { return mkFRound(x, RND_TRUNC); });
    case Intrinsic::round: return lanes1([](Expr* x) { return mkFRound(x, RND_RNA); });
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven:
        return lanes1([](Expr* x) { return mkFRound(x, RND_RNE); });
    case Intrinsic::sin: return uf(0);
    case Intrinsic::cos: return uf(1);
    case Intrinsic::exp: return uf(4);
    case Intrinsic::log: return uf(5);
    case Intrinsic::log2: return uf(10);
    case Intrinsic::log10: return uf(11);
    case Intrinsic::exp2: return uf(12);
    case Intrinsic::pow: return lanes2([](Expr* x, Expr* y) { return mkFUF(3, x, y); });
    case Intrinsic::minnum: return lanes2([](Expr* x, Expr* y) { return mkIte(mkFCmp(Op::FUno, x, x), y, mkIte(mkFCmp(Op::FUno, y, y), x, mkIte(mkFCmp(Op::FLt, y, x), y, x))); });
    case Intrinsic::maxnum: return lanes2([](Expr* x, Expr* y) { return mkIte(mkFCmp(Op::FUno, x, x), y, mkIte(mkFCmp(Op::FUno, y, y), x, mkIte(mkFCmp(Op::FLt, x, y), y, x))); });
    case Intrinsic::copysign: return lanes2([](Expr* x, Expr* y) {
        u32 w = x->width;
        return mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)); });
    case Intrinsic::fma: {
        if(auto* vt = dyn_cast<FixedVectorType>(t)) {
            std::vector<Val> r;
            u32 w = (u32)vt->getElementType()->getPrimitiveSizeInBits();
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                r.push_back(mkFFma(E((*a[0].agg)[i], w), E((*a[1].agg)[i], w), E((*a[2].agg)[i], w)));
            setReg(d.dst, aggVal(std::move(r)));
        } else {
            u32 w = (u32)t->getPrimitiveSizeInBits();
            setReg(d.dst, mkFFma(E(a[0], w), E(a[1], w), E(a[2], w)));
        }
        return true;
    }
    case Intrinsic::fmuladd: { // x86-64 baseline: separate multiply and add
        if(auto* vt = dyn_cast<FixedVectorType>(t)) {
            std::vector<Val> r;
            u32 w = (u32)vt->getElementType()->getPrimitiveSizeInBits();
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                r.push_back(mkFBin(Op::FAdd, mkFBin(Op::FMul, E((*a[0].agg)[i], w), E((*a[1].agg)[i], w)), E((*a[2].agg)[i], w)));
            setReg(d.dst, aggVal(std::move(r)));
        } else {
            u32 w = (u32)t->getPrimitiveSizeInBits();
            setReg(d.dst, mkFBin(Op::FAdd, mkFBin(Op::FMul, E(a[0], w), E(a[1], w)), E(a[2], w)));
        }
        return true;
    }
    case Intrinsic::is_fpclass: {
        u64 m = a[1].e->v;
        u32 w = (u32)ii.getArgOperand(0)->getType()->getPrimitiveSizeInBits();
        Expr* x = E(a[0], w);
        if(m == 3) { setReg(d.dst, mkFCmp(Op::FUno, x, x)); return true; }
        return false;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
    case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
        auto id = ii.getIntrinsicID();
        u32 w = t->getIntegerBitWidth();
        Op op = id == Intrinsic::vector_reduce_add ? Op::Add : id == Intrinsic::vector_reduce_or ? Op::Or :
                id == Intrinsic::vector_reduce_and ? Op::And : id == Intrinsic::vector_reduce_mul ? Op::Mul : Op::Xor;
        Expr* r = E((*a[0].agg)[0], w);
        for(size_t i = 1; i < a[0].agg->size(); i++) r = mkBin(op, r, E((*a[0].agg)[i], w));
        setReg(d.dst, r);
        return true;
    }
    case Intrinsic::vastart: {
        // System V layout; every argument is passed in the overflow area
        u64 va = u64arg(a[0]);
        auto vs = fr().varargs;
        auto ts = fr().varargTys;
        u64 area = alloc(vs.size() * 16 + 16, K_STACK, "varargs", 16, true);
        fr().allocas.push_back(area >> SLOT_BITS);
        u64 off = 0;
        for(size_t i = 0; i < vs.size(); i++) {
            if(!scalarType(ts[i])) { incomplete("aggregate vararg"); end(); }
            store(area + off, vs[i], ts[i]);
            off += 8;
        }
        store(va, mkConst(32, 48), IntegerType::get(M.getContext(), 32));
        store(va + 4, mkConst(32, 176), IntegerType::get(M.getContext(), 32));
        store(va + 8, mkConst(64, area), IntegerType::get(M.getContext(), 64));
        store(va + 16, mkConst(64, 0), IntegerType::get(M.getContext(), 64));
        return true;
    }
    case Intrinsic::vaend: return true;
    case Intrinsic::vacopy: Handlers::copyBytes(*this, u64arg(a[0]), u64arg(a[1]), 24); return true;
    case Intrinsic::x86_sse_min_ss: case Intrinsic::x86_sse_max_ss: case Intrinsic::x86_sse_min_ps: case Intrinsic::x86_sse_max_ps:
    case Intrinsic::x86_avx_min_ps_256: case Intrinsic::x86_avx_max_ps_256: {
        auto id = ii.getIntrinsicID();
        bool mn = id == Intrinsic::x86_sse_min_ss || id == Intrinsic::x86_sse_min_ps || id == Intrinsic::x86_avx_min_ps_256;
        bool ss = id == Intrinsic::x86_sse_min_ss || id == Intrinsic::x86_sse_max_ss;
        std::vector<Val> r = *a[0].agg;
        for(size_t i = 0; i < (ss ? 1 : r.size()); i++) {
            Expr *x = E((*a[0].agg)[i], 32), *y = E((*a[1].agg)[i], 32);
            r[i] = mn ? mkIte(mkFCmp(Op::FLt, x, y), x, y) : mkIte(mkFCmp(Op::FLt, y, x), x, y);
        }
        setReg(d.dst, aggVal(std::move(r)));
        return true;
    }
    case Intrinsic::x86_sse_movmsk_ps: case Intrinsic::x86_avx_movmsk_ps_256: {
        Expr* r = mkConst(32, 0);
        for(size_t i = 0; i < a[0].agg->size(); i++)
            r = mkBin(Op::Or, r, mkBin(Op::Shl, mkZExt(mkExtract(E((*a[0].agg)[i], 32), 31, 1), 32), mkConst(32, i)));
        setReg(d.dst, r);
        return true;
    }
    case Intrinsic::x86_sse41_dppd: return false;
    case Intrinsic::x86_sse41_dpps: case Intrinsic::x86_avx_dp_ps_256: {
        u64 imm = needConst(E(a[2], 8));
        size_t n = a[0].agg->size();
        std::vector<Val> r(n);
        for(size_t b = 0; b < n; b += 4) {
            Expr* m[4];
            for(int i = 0; i < 4; i++)
                m[i] = (imm >> (4 + i)) & 1 ? mkFBin(Op::FMul, E((*a[0].agg)[b + i], 32), E((*a[1].agg)[b + i], 32)) : mkConst(32, 0);
            Expr* s = mkFBin(Op::FAdd, mkFBin(Op::FAdd, m[0], m[1]), mkFBin(Op::FAdd, m[2], m[3]));
            for(int i = 0; i < 4; i++) r[b + i] = (imm >> i) & 1 ? s : mkConst(32, 0);
        }
        setReg(d.dst, aggVal(std::move(r)));
        return true;
    }
    case Intrinsic::x86_sse3_hadd_ps: {
        auto& x = *a[0].agg;
        auto& y = *a[1].agg;
        auto add = [&](const Val& p, const Val& q) { return Val(mkFBin(Op::FAdd, E(p, 32), E(q, 32))); };
        setReg(d.dst, aggVal({add(x[0], x[1]), add(x[2], x[3]), add(y[0], y[1]), add(y[2], y[3])}));
        return true;
    }
    case Intrinsic::x86_sse41_round_ps: case Intrinsic::x86_sse41_round_ss: case Intrinsic::x86_avx_round_ps_256: {
        bool ss = ii.getIntrinsicID() == Intrinsic::x86_sse41_round_ss;
        u64 imm = needConst(E(a[ss ? 2 : 1], 32));
        u32 md = (imm & 3) == 0 ? RND_RNE : (imm & 3) == 1 ? RND_FLOOR : (imm & 3) == 2 ? RND_CEIL : RND_TRUNC;
        std::vector<Val> r = *a[0].agg;
        for(size_t i = 0; i < (ss ? 1 : r.size()); i++) r[i] = mkFRound(E((*a[ss ? 1 : 0].agg)[i], 32), md);
        setReg(d.dst, aggVal(std::move(r)));
        return true;
    }
    case Intrinsic::x86_sse_cmp_ps: case Intrinsic::x86_avx_cmp_ps_256: {
        u64 imm = needConst(E(a[2], 8));
        std::vector<Val> r;
        static const CmpInst::Predicate P[8] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO,
                                                CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD};
        if(imm > 7) return false;
        for(size_t i = 0; i < a[0].agg->size(); i++)
            r.push_back(mkSExt(fcmp(P[imm], E((*a[0].agg)[i], 32), E((*a[1].agg)[i], 32)), 32));
        setReg(d.dst, aggVal(std::move(r)));
        return true;
    }
    case Intrinsic::x86_sse_rcp_ps: case Intrinsic::x86_sse_rsqrt_ps: {
        bool rs = ii.getIntrinsicID() == Intrinsic::x86_sse_rsqrt_ps;
        std::vector<Val> r;
        (void)rs;
        for(size_t i = 0; i < a[0].agg->size(); i++) r.push_back(mkVar("approx" + std::to_string(S->nondet++), 32, false));
        setReg(d.dst, aggVal(std::move(r)));
        return true;
    }
    case Intrinsic::x86_sse2_cvtps2dq: {
        std::vector<Val> r;
        for(size_t i = 0; i < a[0].agg->size(); i++) r.push_back(mkFToI(mkFRound(E((*a[0].agg)[i], 32), RND_RNE), 32, true));
        setReg(d.dst, aggVal(std::move(r)));
        return true;
    }
    case Intrinsic::x86_sse2_cvttps2dq: {
        std::vector<Val> r;
        for(size_t i = 0; i < a[0].agg->size(); i++) r.push_back(mkFToI(E((*a[0].agg)[i], 32), 32, true));
        setReg(d.dst, aggVal(std::move(r)));
        return true;
    }
    case Intrinsic::x86_sse41_blendvps: {
        std::vector<Val> r;
        for(size_t i = 0; i < a[0].agg->size(); i++)
            r.push_back(mkIte(mkExtract(E((*a[2].agg)[i], 32), 31, 1), E((*a[1].agg)[i], 32), E((*a[0].agg)[i], 32)));
        setReg(d.dst, aggVal(std::move(r)));
        return true;
    }
    case Intrinsic::coro_noop: return false;
    case Intrinsic::ptrmask: setReg(d.dst, mkBin(Op::And, E(a[0], 64), E(a[1], 64))); return true;
    default: return false;
    }
}

// ---------------------------------------------------------------- threads
void Engine::mutexAcquire(u64 m) {
    auto& x = S->mutexes[m];
    x.owner = (int)S->cur;
    joinVC(thr().vc, x.vc);
}
void Engine::mutexRelease(u64 m) {
    auto& x = S->mutexes[m];
    x.owner = -1;
    x.vc = thr().vc;
    tick();
}
bool Engine::enabled(u32 u, bool spur) {
    Thread& t = S->th[u];
    auto freeM = [&](u64 m) { auto it = S->mutexes.find(m); return it == S->mutexes.end() || it->second.owner == -1; };
    switch(t.st) {
    case T_RUN: return !t.yielded;
    case T_MUTEX: return freeM(t.waitAddr);
    case T_COND: return (t.woken || (spur && S->spurious < g_cfg.maxSpurious)) && freeM(t.waitMutex);
    case T_FUTEX: return t.woken || (spur && S->spurious < g_cfg.maxSpurious);
    case T_JOIN:
        if(t.waitAddr == (u64)-1) { // vx_quiesce: every other thread has ended
            for(u32 o = 0; o < S->th.size(); o++)
                if(o != u && S->th[o].st != T_DONE) return false;
            return true;
        }
        return S->th[t.waitAddr].st == T_DONE;
    default: return false;
    }
}
// eintr: a futex wait that ends because a signal handler ran (-1, EINTR) rather than with 0
bool Engine::interruptible(u32 u) { return S->th[u].st == T_FUTEX && !S->th[u].woken; }
void Engine::setErrno(int x) {
    if(!thr().errnoAddr) { u64 y = alloc(4, K_TLS, "errno", 16, true); thr().errnoAddr = y; }
    store(thr().errnoAddr, mkConst(32, x), IntegerType::get(M.getContext(), 32));
}
void Engine::switchTo(u32 u, bool eintr) {
    S->cur = u;
    Thread& t = S->th[u];
    t.yielded = false;
    S->schedDone = true;
    switch(t.st) {
    case T_MUTEX: case T_JOIN: t.st = T_RUN; break;
    case T_COND:
        if(!t.woken) S->spurious++;
        t.woken = false;
        t.st = T_RUN;
        mutexAcquire(t.waitMutex);
        S->sched.push_back((u8)u);
        S->schedDone = false;
        break;
    case T_FUTEX:
        if(!t.woken) S->spurious++;
        t.woken = false;
        t.st = T_RUN;
        S->sched.push_back((u8)(u | (eintr ? 0x80 : 0)));
        S->schedDone = false;
        if(eintr) {
            setErrno(EINTR);
            setReg(t.waitDst, mkConst(64, (u64)-1));
        }
        break;
    default: break;
    }
}
bool Engine::visiblePoint() {
    if(S->preempts < g_cfg.preempts) {
        u32 me = S->cur;
        for(u32 u = 0; u < S->th.size(); u++) {
            if(u == me || !enabled(u, true)) continue;
            for(int k = 0; k <= (int)interruptible(u); k++) {
                State* n = clone();
                State* keep = S;
                S = n;
                S->preempts++;
                switchTo(u, k);
                S = keep;
                work.push_back(n);
            }
        }
    }
    S->schedDone = true;
    return true;
}
// the current thread cannot (or should not) continue: hand over to any enabled thread
void Engine::pickNext() {
    std::vector<u32> en;
    bool strict = false;
    for(u32 u = 0; u < S->th.size(); u++)
        if(enabled(u, false)) strict = true;
    if(!strict) { // only yielded spinners left?
        bool any = false;
        for(auto& t : S->th)
            if(t.st == T_RUN && t.yielded) t.yielded = false, any = true;
        if(!any) violation("deadlock", "deadlock: no thread can make progress");
    }
    for(u32 u = 0; u < S->th.size(); u++)
        if(enabled(u, true)) en.push_back(u);
    std::vector<std::pair<u32, bool>> opt;
    for(u32 u : en) {
        opt.push_back({u, false});
        if(interruptible(u)) opt.push_back({u, true});
    }
    for(size_t i = 1; i < opt.size(); i++) {
        State* n = clone();
        State* keep = S;
        S = n;
        switchTo(opt[i].first, opt[i].second);
        S = keep;
        work.push_back(n);
    }
    switchTo(opt[0].first, opt[0].second);
}
void Engine::threadExit(Val) {
    thr().st = T_DONE;
    tick();
    pickNext();
}

// ---------------------------------------------------------------- external functions
void Engine::registerHandlers() {
    auto H = [&](const char* n, Handler h) { handlers[n] = h; };
    typedef std::vector<Val> A;
    auto zero32 = [](Engine& e, const CallBase& cb, A&, int dst) {
        if(!cb.getType()->isVoidTy()) e.setReg(dst, mkConst(cb.getType()->isPointerTy() ? 64 : cb.getType()->getIntegerBitWidth(), 0));
    };
    // --- harness API
    H("vx_bits", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 bits = e.uarg(a[1], 32);
        std::string n = e.cstr(e.u64arg(a[0]));
        Expr* v = mkVar(n, (u32)bits, true);
        e.recordInput(v, n);
        e.setReg(dst, mkZExt(v, 64));
    });
    H("vx_sbits", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 bits = e.uarg(a[1], 32);
        std::string n = e.cstr(e.u64arg(a[0]));
        Expr* v = mkVar(n, (u32)bits, true);
        e.recordInput(v, n);
        e.setReg(dst, mkSExt(v, 64));
    });
    H("vx_f32i", [](Engine& e, const CallBase&, A& a, int dst) { // integer-valued float
        u64 bits = e.uarg(a[1], 32);
        std::string n = e.cstr(e.u64arg(a[0]));
        Expr* v = mkVar(n, (u32)bits, true);
        e.recordInput(v, n);
        e.setReg(dst, mkIToF(v, 32, true));
    });
    // whether two values are the same expression; recorded, so that a replay takes the same decision
    H("vx_same", [](Engine& e, const CallBase&, A& a, int dst) {
        bool same = a[0].e == a[1].e;
        Expr* v = mkVar("same", 1, true);
        e.recordInput(v, "same");
        e.S->pc.push_back(mkEq(v, mkConst(1, same)));
        auto m = std::make_shared<Model>(*e.S->model);
        m->vals[v->aux] = APInt(1, same);
        m->gen = newGen();
        e.S->model = m;
        e.setReg(dst, mkConst(32, same));
    });
    H("vx_choose", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 n = e.uarg(a[1], 32);
        std::string nm = e.cstr(e.u64arg(a[0]));
        u32 bits = 1;
        while(((u64)1 << bits) < n) bits++;
        Expr* v = mkVar(nm, bits, true);
        e.recordInput(v, nm);
        for(u64 i = n; i-- > 1;) {
            State* s = e.clone();
            auto m = std::make_shared<Model>(*s->model);
            m->vals[v->aux] = APInt(bits, i);
            m->gen = newGen();
            s->pc.push_back(mkEq(v, mkConst(bits, i)));
            s->model = m;
            if(dst >= 0) s->th[s->cur].frames.back().regs[dst] = mkConst(32, i);
            e.work.push_back(s);
        }
        e.S->pc.push_back(mkEq(v, mkConst(bits, 0)));
        auto m = std::make_shared<Model>(*e.S->model);
        m->vals[v->aux] = APInt(bits, 0);
        m->gen = newGen();
        e.S->model = m;
        e.setReg(dst, mkConst(32, 0));
    });
    H("vx_assume", [](Engine& e, const CallBase&, A& a, int) {
        Expr* c = e.E(a[0], 1);
        if(c->isTrue()) return;
        ModelP m;
        Res r = solveWith(e.S->pc, c, e.S->model, m);
        if(r == Res::Unknown) {
            e.incomplete("solver gave no answer on an assumption");
            e.end();
        }
        if(r == Res::Unsat) {
            e.R.assumeKilled++;
            e.end();
        }
        e.addConstraint(e.S, c, m);
        e.S->known[c] = 1;
    });
    H("vx_check", [](Engine& e, const CallBase&, A& a, int) {
        Expr* c = e.E(a[0], 1);
        e.R.asserts++;
        if(c->isTrue()) return;
        static bool trace = getenv("VX_TRACE");
        if(trace) fprintf(stderr, "assertion: %s\n", exprStr(c, 7).substr(0, 3000).c_str());
        ModelP m;
        Res r = solveWith(e.S->pc, mkNot(c), e.S->model, m);
        if(r == Res::Unknown) {
            e.incomplete("solver gave no answer on an assertion (" + g_unknown_reason + ")");
            return;
        }
        if(r == Res::Unsat) return;
        std::string msg = e.cstr(e.u64arg(a[1]));
        e.addConstraint(e.S, mkNot(c), m);
        e.violation("assert", msg);
    });
    H("vx_fail", [](Engine& e, const CallBase&, A& a, int) { e.violation("assert", e.cstr(e.u64arg(a[0]))); });
    H("vx_reach", [](Engine& e, const CallBase&, A& a, int) { e.R.reached[e.cstr(e.u64arg(a[0]))]++; });
    H("vx_expect_die", [](Engine& e, const CallBase&, A& a, int) { e.S->expectDie = e.uarg(a[0], 32) != 0; });
    H("vx_live_allocs", [](Engine& e, const CallBase&, A&, int dst) { e.setReg(dst, mkConst(64, (u64)e.S->liveAllocs)); });
    H("vx_concrete", [](Engine& e, const CallBase&, A& a, int dst) { e.setReg(dst, mkConst(64, e.u64arg(a[0]))); });
    H("vx_symbolic", [](Engine& e, const CallBase&, A&, int dst) { e.setReg(dst, mkConst(32, 1)); });
    H("vx_option", [](Engine& e, const CallBase&, A& a, int) {
        std::string n = e.cstr(e.u64arg(a[0]));
        e.S->counters[n] = e.u64arg(a[1]);
    });
    H("vx_dump", [](Engine& e, const CallBase&, A& a, int) {
        std::string n = e.cstr(e.u64arg(a[0]));
        fprintf(stderr, "[dump] %s = %s\n", n.c_str(), exprStr(e.E(a[1], 64), 8).c_str());
    });
    H("vx_yield", [](Engine& e, const CallBase&, A&, int) {
        if(!e.S->multi) return;
        e.S->sched.push_back((u8)e.S->cur);
        e.S->schedDone = false;
        e.thr().yielded = true;
        e.pickNext();
    });
    // --- logging: rpp::Log::log<...>(level, location, format, args...)
    H("$log", [](Engine& e, const CallBase& cb, A& a, int dst) {
        u64 lvl = e.uarg(a[0], 8);
        bool real = e.S->counters["real_log"];
        if(lvl == 2 && !real) e.dieEvent("fatal error reported (die/assert)");
        if(real) {
            Function* f = cast<Function>(cb.getCalledOperand()->stripPointerCasts());
            e.pushCall(f, a, dst, &cb);
        }
    });
    // --- process
    H("exit", [](Engine& e, const CallBase&, A&, int) { e.dieEvent("exit called"); });
    H("_exit", handlers["exit"]);
    H("abort", [](Engine& e, const CallBase&, A&, int) { e.dieEvent("abort called"); });
    H("raise", [](Engine& e, const CallBase&, A&, int) { e.dieEvent("signal raised"); });
    H("__cxa_atexit", zero32);
    H("atexit", zero32);
    H("__cxa_thread_atexit", [](Engine& e, const CallBase&, A& a, int dst) {
        e.thr().atexit.push_back({e.u64arg(a[0]), e.u64arg(a[1])});
        e.setReg(dst, mkConst(32, 0));
    });
    H("__cxa_pure_virtual", handlers["abort"]);
    H("__cxa_guard_acquire", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 p = e.u64arg(a[0]);
        Type* i8 = IntegerType::get(e.M.getContext(), 8);
        bool r = g_cfg.race;
        g_cfg.race = false;
        u64 v = e.uarg(e.load(p, i8), 8);
        e.store(p, mkConst(8, 1), i8);
        g_cfg.race = r;
        e.setReg(dst, mkConst(32, v ? 0 : 1));
    });
    H("__cxa_guard_release", zero32);
    // --- memory
    H("malloc", [](Engine& e, const CallBase&, A& a, int dst) { u64 n = e.u64arg(a[0]); e.setReg(dst, mkConst(64, Handlers::mallocMem(e, n, false))); });
    H("_Znwm", handlers["malloc"]);
    H("_Znam", handlers["malloc"]);
    H("aligned_alloc", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 n = e.u64arg(a[1]), al = e.u64arg(a[0]);
        u64 id = e.S->mem.next;
        u64 p = Handlers::mallocMem(e, n, false);
        if(p && al > 16) { Obj* o = e.S->mem.getW(id); o->base = (id << SLOT_BITS) + al; p = o->base; }
        e.setReg(dst, mkConst(64, p));
    });
    H("calloc", [](Engine& e, const CallBase&, A& a, int dst) { u64 n = e.u64arg(a[0]), m = e.u64arg(a[1]); e.setReg(dst, mkConst(64, Handlers::mallocMem(e, n * m, true))); });
    H("realloc", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 p = e.u64arg(a[0]), n = e.u64arg(a[1]);
        u64 q = Handlers::mallocMem(e, n, false);
        if(p) {
            Obj* o = e.S->mem.get(p >> SLOT_BITS);
            if(o) Handlers::copyBytes(e, q, p, std::min(n, o->size));
            Handlers::freeMem(e, p);
        }
        e.setReg(dst, mkConst(64, q));
    });
    H("free", [](Engine& e, const CallBase&, A& a, int) { Handlers::freeMem(e, e.u64arg(a[0])); });
    H("_ZdlPv", handlers["free"]);
    H("_ZdlPvm", handlers["free"]);
    H("_ZdaPv", handlers["free"]);
    auto cpy = [](bool ov) {
        return [ov](Engine& e, const CallBase&, A& a, int dst) {
            u64 n = e.u64arg(a[2]), d = e.u64arg(a[0]), s = e.u64arg(a[1]);
            if(ov && n && s != d && s < d + n && d < s + n) e.violation("memory", "memcpy with overlapping ranges");
            Handlers::copyBytes(e, d, s, n);
            e.setReg(dst, mkConst(64, d));
        };
    };
    H("memcpy", cpy(true));
    H("memmove", cpy(false));
    H("memset", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 n = e.u64arg(a[2]), d = e.u64arg(a[0]);
        Handlers::setBytes(e, d, mkExtract(e.E(a[1], 32), 0, 8), n);
        e.setReg(dst, mkConst(64, d));
    });
    H("memcmp", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 n = e.u64arg(a[2]), x = e.u64arg(a[0]), y = e.u64arg(a[1]);
        e.setReg(dst, Handlers::cmpBytes(e, x, y, n));
    });
    H("bcmp", handlers["memcmp"]);
    H("memchr", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 n = e.u64arg(a[2]), p = e.u64arg(a[0]);
        Expr* c = mkExtract(e.E(a[1], 32), 0, 8);
        for(u64 i = 0; i < n; i++)
            if(e.branch(mkEq(e.readByte(p + i), c))) { e.setReg(dst, mkConst(64, p + i)); return; }
        e.setReg(dst, mkConst(64, 0));
    });
    H("strlen", [](Engine& e, const CallBase&, A& a, int dst) { u64 p = e.u64arg(a[0]); e.setReg(dst, mkConst(64, Handlers::strlenBytes(e, p))); });
    H("strncmp", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 n = e.u64arg(a[2]), x = e.u64arg(a[0]), y = e.u64arg(a[1]);
        e.setReg(dst, Handlers::strcmpBytes(e, x, y, n));
    });
    H("strcmp", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 x = e.u64arg(a[0]), y = e.u64arg(a[1]);
        e.setReg(dst, Handlers::strcmpBytes(e, x, y, 1 << 20));
    });
    // --- stdio / time / misc environment
    for(const char* n : {"printf", "fprintf", "fflush", "fclose", "puts", "putchar", "fputs", "vprintf", "vfprintf", "fwrite"}) H(n, zero32);
    H("fopen", zero32);
    H("time", [](Engine& e, const CallBase&, A&, int dst) { e.setReg(dst, mkConst(64, 1000000)); });
    H("localtime_r", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 p = e.u64arg(a[1]);
        Handlers::setBytes(e, p, mkConst(8, 0), 56);
        e.setReg(dst, mkConst(64, p));
    });
    H("strftime", [](Engine& e, const CallBase&, A& a, int dst) {
        const char* s = "[00:00:00]";
        u64 p = e.u64arg(a[0]);
        for(int i = 0; i < 11; i++) e.writeByte(p + i, mkConst(8, (u8)s[i]));
        e.setReg(dst, mkConst(64, 10));
    });
    H("clock_gettime", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 p = e.u64arg(a[1]);
        Type* i64t = IntegerType::get(e.M.getContext(), 64);
        u64 t = e.S->counters["clock"]++;
        e.store(p, mkConst(64, 1 + t / 1000), i64t);
        e.store(p + 8, mkConst(64, (t % 1000) * 1000000), i64t);
        e.setReg(dst, mkConst(32, 0));
    });
    H("sysconf", [](Engine& e, const CallBase&, A&, int dst) {
        u64 n = e.S->counters.count("nproc") ? e.S->counters["nproc"] : 2;
        e.setReg(dst, mkConst(64, n));
    });
    H("strerror_r", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 p = e.u64arg(a[1]);
        const char* s = "error";
        for(int i = 0; i < 6; i++) e.writeByte(p + i, mkConst(8, (u8)s[i]));
        e.setReg(dst, mkConst(64, p));
    });
    H("__errno_location", [](Engine& e, const CallBase&, A&, int dst) {
        auto& t = e.thr();
        if(!t.errnoAddr) { u64 x = e.alloc(4, K_TLS, "errno", 16, true); e.thr().errnoAddr = x; }
        e.setReg(dst, mkConst(64, e.thr().errnoAddr));
    });
    // --- libm
    struct { const char* n; u32 id; } uf1[] = {{"sin",0},{"cos",1},{"tan",2},{"exp",4},{"log",5},{"asin",6},{"acos",7},{"atan",8},{"log2",10},{"log10",11},{"exp2",12}};
    for(auto& u : uf1) {
        u32 id = u.id;
        auto h = [id](Engine& e, const CallBase& cb, A& a, int dst) { e.setReg(dst, mkFUF(id, e.E(a[0], (u32)cb.getType()->getPrimitiveSizeInBits()), nullptr)); };
        handlers[u.n] = h;
        handlers[std::string(u.n) + "f"] = h;
    }
    struct { const char* n; u32 id; } uf2[] = {{"pow",3},{"atan2",9},{"fmod",13},{"hypot",14}};
    for(auto& u : uf2) {
        u32 id = u.id;
        auto h = [id](Engine& e, const CallBase& cb, A& a, int dst) {
            u32 w = (u32)cb.getType()->getPrimitiveSizeInBits();
            e.setReg(dst, mkFUF(id, e.E(a[0], w), e.E(a[1], w)));
        };
        handlers[u.n] = h;
        handlers[std::string(u.n) + "f"] = h;
    }
    auto m1 = [&](const char* n, Expr* (*fn)(Expr*)) {
        auto h = [fn](Engine& e, const CallBase& cb, A& a, int dst) { e.setReg(dst, fn(e.E(a[0], (u32)cb.getType()->getPrimitiveSizeInBits()))); };
        handlers[n] = h;
        handlers[std::string(n) + "f"] = h;
    };
    m1("sqrt", [](Expr* x) { return mkFSqrt(x); });
    m1("fabs", [](Expr* x) { return mkFAbs(x); });
    m1("floor", [](Expr* x) { return mkFRound(x, RND_FLOOR); });
    m1("ceil", [](Expr* x) { return mkFRound(x, RND_CEIL); });
    m1("trunc", [](Expr* x) { return mkFRound(x, RND_TRUNC); });
    m1("round", [](Expr* x) { return mkFRound(x, RND_RNA); });
    m1("roundeven", [](Expr* x) { return mkFRound(x, RND_RNE); });
    m1("rint", [](Expr* x) { return mkFRound(x, RND_RNE); });
    m1("nearbyint", [](Expr* x) { return mkFRound(x, RND_RNE); });
    // --- threads
    auto rec = [](Engine& e) { if(e.S->multi) e.S->sched.push_back((u8)e.S->cur); };
    H("pthread_self", [](Engine& e, const CallBase&, A&, int dst) { e.setReg(dst, mkConst(64, 0x1000 + e.S->cur)); });
    H("pthread_equal", [](Engine& e, const CallBase&, A& a, int dst) { e.setReg(dst, mkZExt(mkEq(e.E(a[0], 64), e.E(a[1], 64)), 32)); });
    H("pthread_create", [rec](Engine& e, const CallBase&, A& a, int dst) {
        u64 hp = e.u64arg(a[0]), fp = e.u64arg(a[2]);
        auto it = e.faddr.find(fp);
        if(it == e.faddr.end()) e.violation("memory", "pthread_create with an invalid function pointer");
        if(e.S->th.size() >= 8) { e.incomplete("more than 8 threads"); e.end(); }
        Type* i64t = IntegerType::get(e.M.getContext(), 64);
        u32 id = (u32)e.S->th.size();
        e.store(hp, mkConst(64, 0x1000 + id), i64t);
        e.S->multi = true;
        rec(e);
        if(e.thr().vc.size() <= e.S->cur) e.tick();
        Thread t;
        t.vc = e.thr().vc;
        t.vc.resize(std::max<size_t>(t.vc.size(), id + 1));
        t.vc[id] = 1;
        e.tick();
        e.S->th.push_back(std::move(t));
        u32 cur = e.S->cur;
        e.S->cur = id;
        e.pushCall(it->second, {a[3]}, -1, nullptr);
        e.S->cur = cur;
        e.setReg(dst, mkConst(32, 0));
    });
    H("pthread_join", [rec](Engine& e, const CallBase&, A& a, int dst) {
        u64 h = e.u64arg(a[0]);
        u32 id = (u32)(h - 0x1000);
        if(id >= e.S->th.size()) e.violation("ub", "pthread_join of an invalid thread");
        if(e.S->th[id].joined || e.S->th[id].detached) e.violation("ub", "pthread_join of a joined or detached thread");
        if(e.S->th[id].st == T_DONE) {
            rec(e);
            e.joinVC(e.thr().vc, e.S->th[id].vc);
            e.S->th[id].joined = true;
            e.setReg(dst, mkConst(32, 0));
            return;
        }
        e.fr().pc--;
        e.thr().st = T_JOIN;
        e.thr().waitAddr = id;
        e.S->schedDone = true;
        e.pickNext();
    });
    H("vx_quiesce", [rec](Engine& e, const CallBase&, A&, int) {
        bool all = true;
        for(u32 o = 0; o < e.S->th.size(); o++) all &= o == e.S->cur || e.S->th[o].st == T_DONE;
        if(all) {
            rec(e);
            for(auto& o : e.S->th) e.joinVC(e.thr().vc, o.vc);
            return;
        }
        e.fr().pc--;
        e.thr().st = T_JOIN;
        e.thr().waitAddr = (u64)-1;
        e.S->schedDone = true;
        e.pickNext();
    });
    H("pthread_detach", [rec](Engine& e, const CallBase&, A& a, int dst) {
        u32 id = (u32)(e.u64arg(a[0]) - 0x1000);
        if(id >= e.S->th.size()) e.violation("ub", "pthread_detach of an invalid thread");
        if(e.S->th[id].joined || e.S->th[id].detached) e.violation("ub", "pthread_detach of a joined or detached thread");
        rec(e);
        e.S->th[id].detached = true;
        e.setReg(dst, mkConst(32, 0));
    });
    H("pthread_mutex_init", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 m = e.u64arg(a[0]);
        e.objAt(m, 40, true, "mutex init");
        Handlers::setBytes(e, m, mkConst(8, 0), 40);
        e.S->mutexes[m] = MutexS();
        e.setReg(dst, mkConst(32, 0));
    });
    H("pthread_mutex_destroy", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 m = e.u64arg(a[0]);
        e.objAt(m, 40, true, "mutex destroy");
        if(e.S->mutexes[m].owner != -1) e.violation("ub", "destroying a locked mutex");
        e.S->mutexes.erase(m);
        Handlers::setBytes(e, m + 16, mkConst(8, 0xff), 4); // glibc marks a destroyed mutex as kind -1
        e.setReg(dst, mkConst(32, 0));
    });
    auto destroyed = [](Engine& e, u64 m, int dst) {
        Obj* o = e.S->mem.get(m >> SLOT_BITS);
        u64 off = m + 16 - o->base;
        for(int i = 0; i < 4; i++)
            if(o->st[off + i] != B_CONC || o->data[off + i] != 0xff) return false;
        e.setReg(dst, mkConst(32, EINVAL));
        return true;
    };
    auto mchk = [](Engine& e, u64 m) {
        bool r = g_cfg.race;
        g_cfg.race = false;
        try { e.objAt(m, 40, false, "mutex access"); } catch(...) { g_cfg.race = r; throw; }
        g_cfg.race = r;
    };
    H("pthread_mutex_lock", [rec, mchk, destroyed](Engine& e, const CallBase&, A& a, int dst) {
        u64 m = e.u64arg(a[0]);
        mchk(e, m);
        if(destroyed(e, m, dst)) return;
        if(e.S->mutexes[m].owner == -1) {
            rec(e);
            e.mutexAcquire(m);
            e.setReg(dst, mkConst(32, 0));
            return;
        }
        e.fr().pc--;
        e.thr().st = T_MUTEX;
        e.thr().waitAddr = m;
        e.pickNext();
    });
    H("pthread_mutex_trylock", [rec, mchk, destroyed](Engine& e, const CallBase&, A& a, int dst) {
        u64 m = e.u64arg(a[0]);
        mchk(e, m);
        if(destroyed(e, m, dst)) return;
        rec(e);
        bool f = e.S->mutexes[m].owner == -1;
        if(f) e.mutexAcquire(m);
        e.setReg(dst, mkConst(32, f ? 0 : EBUSY));
    });
    H("pthread_mutex_unlock", [rec, mchk](Engine& e, const CallBase&, A& a, int dst) {
        u64 m = e.u64arg(a[0]);
        mchk(e, m);
        if(e.S->mutexes[m].owner != (int)e.S->cur) e.violation("ub", "unlocking a mutex not held by this thread");
        rec(e);
        e.mutexRelease(m);
        e.setReg(dst, mkConst(32, 0));
    });
    H("pthread_cond_init", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 m = e.u64arg(a[0]);
        Handlers::setBytes(e, m, mkConst(8, 0), 48);
        e.setReg(dst, mkConst(32, 0));
    });
    H("pthread_cond_destroy", [](Engine& e, const CallBase&, A& a, int dst) {
        u64 c = e.u64arg(a[0]);
        for(auto& t : e.S->th)
            if(t.st == T_COND && t.waitAddr == c && !t.woken) e.violation("ub", "destroying a condition variable with waiters");
        e.setReg(dst, mkConst(32, 0));
    });
    H("pthread_cond_wait", [rec, mchk](Engine& e, const CallBase&, A& a, int dst) {
        u64 c = e.u64arg(a[0]), m = e.u64arg(a[1]);
        mchk(e, c);
        if(e.S->mutexes[m].owner != (int)e.S->cur) e.violation("ub", "condition wait without holding the mutex");
        rec(e);
        e.mutexRelease(m);
        e.setReg(dst, mkConst(32, 0));
        auto& t = e.thr();
        t.st = T_COND;
        t.waitAddr = c;
        t.waitMutex = m;
        t.woken = false;
        e.pickNext();
    });
    H("pthread_cond_signal", [rec, mchk](Engine& e, const CallBase&, A& a, int dst) {
        u64 c = e.u64arg(a[0]);
        mchk(e, c);
        rec(e);
        e.setReg(dst, mkConst(32, 0));
        std::vector<u32> w;
        for(u32 u = 0; u < e.S->th.size(); u++)
            if(e.S->th[u].st == T_COND && e.S->th[u].waitAddr == c && !e.S->th[u].woken) w.push_back(u);
        for(size_t i = 1; i < w.size(); i++) {
            State* n = e.clone();
            n->th[w[i]].woken = true;
            n->schedDone = false;
            e.work.push_back(n);
        }
        if(!w.empty()) e.S->th[w[0]].woken = true;
    });
    H("pthread_cond_broadcast", [rec, mchk](Engine& e, const CallBase&, A& a, int dst) {
        u64 c = e.u64arg(a[0]);
        mchk(e, c);
        rec(e);
        for(auto& t : e.S->th)
            if(t.st == T_COND && t.waitAddr == c) t.woken = true;
        e.setReg(dst, mkConst(32, 0));
    });
    H("syscall", [rec](Engine& e, const CallBase&, A& a, int dst) {
        u64 nr = e.u64arg(a[0]);
        if(nr != 202) { e.incomplete("unmodelled system call " + std::to_string(nr)); e.end(); }
        u64 p = e.u64arg(a[1]), op = e.uarg(a[2], 32) & 127, val = e.uarg(a[3], 32);
        Type* i32t = IntegerType::get(e.M.getContext(), 32);
        auto setErr = [&](int x) {
            if(!e.thr().errnoAddr) { u64 y = e.alloc(4, K_TLS, "errno", 16, true); e.thr().errnoAddr = y; }
            e.store(e.thr().errnoAddr, mkConst(32, x), i32t);
        };
        if(op == 0) {
            u64 cur = e.uarg(e.load(p, i32t, true), 32);
            rec(e);
            if(cur != val) {
                setErr(EAGAIN);
                e.setReg(dst, mkConst(64, (u64)-1));
                return;
            }
            e.setReg(dst, mkConst(64, 0));
            auto& t = e.thr();
            t.st = T_FUTEX;
            t.waitAddr = p;
            t.waitDst = dst;
            t.woken = false;
            e.pickNext();
        } else if(op == 1) {
            rec(e);
            // waking an address needs no access to it: a freed address wakes nobody
            u64 n = 0;
            for(auto& t : e.S->th)
                if(t.st == T_FUTEX && t.waitAddr == p && !t.woken && n < val) t.woken = true, n++;
            if(!Handlers::valid(e, p, 4)) {
                // FUTEX_WAKE on unmapped memory may fail with EFAULT; still mapped heap memory does not
            }
            e.setReg(dst, mkConst(64, n));
        } else { e.incomplete("unmodelled futex operation"); e.end(); }
    });
    H("usleep", [](Engine& e, const CallBase&, A&, int dst) {
        e.setReg(dst, mkConst(32, 0));
        if(!e.S->multi) return;
        e.S->sched.push_back((u8)e.S->cur);
        e.S->schedDone = false;
        e.thr().yielded = true;
        e.pickNext();
    });
    H("sched_yield", handlers["usleep"]);
    for(const char* n : {"pthread_attr_init", "pthread_attr_destroy", "pthread_attr_getschedpolicy", "pthread_setschedprio",
                         "pthread_setaffinity_np", "sched_get_priority_min", "sched_get_priority_max"}) H(n, zero32);
}
