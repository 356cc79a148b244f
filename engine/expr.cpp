#include "expr.h"
#include <llvm/ADT/APSInt.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>

std::vector<VarInfo> g_vars;
u64 g_numf_leaks = 0;

static std::deque<Expr> g_arena;
struct Key {
    size_t operator()(const Expr* e) const {
        u64 h = (u64)e->op * 0x9E3779B97F4A7C15ull ^ e->width * 0xC2B2AE3D27D4EB4Full ^
                e->aux * 0x165667B19E3779F9ull;
        for(int i = 0; i < e->nk; i++) h = (h ^ e->k[i]->id) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
        h ^= e->v * 0xD6E8FEB86659FD93ull;
        if(e->big) h ^= (u64)llvm::hash_value(*e->big);
        h ^= h >> 32;
        return h;
    }
};
struct KEq {
    bool operator()(const Expr* a, const Expr* b) const {
        if(a->op != b->op || a->width != b->width || a->aux != b->aux || a->nk != b->nk ||
           a->v != b->v)
            return false;
        for(int i = 0; i < a->nk; i++)
            if(a->k[i] != b->k[i]) return false;
        if((a->big == nullptr) != (b->big == nullptr)) return false;
        if(a->big && *a->big != *b->big) return false;
        return true;
    }
};
#include <map>
#include <memory>
#include <unordered_set>
static std::unordered_set<Expr*, Key, KEq> g_tab;
u64 exprCount() { return g_arena.size(); }

static inline i64 sx(u64 v, u32 w) {
    if(w >= 64) return (i64)v;
    u64 m = (u64)1 << (w - 1);
    v &= maskw(w);
    return (i64)((v ^ m) - m);
}

static void computeRange(Expr* e) {
    if(e->width > 64) return;
    u64 M = maskw(e->width);
    e->ulo = 0;
    e->uhi = M;
    Expr *a = e->k[0], *b = e->k[1];
    switch(e->op) {
    case Op::Const: e->ulo = e->uhi = e->v; break;
    case Op::ZExt: e->ulo = a->ulo, e->uhi = a->uhi; break;
    case Op::SExt:
        if(a->uhi < ((u64)1 << (a->width - 1))) e->ulo = a->ulo, e->uhi = a->uhi;
        break;
    case Op::Add: {
        __uint128_t hi = (__uint128_t)a->uhi + b->uhi;
        if(hi <= M) e->ulo = a->ulo + b->ulo, e->uhi = (u64)hi;
        else if((__uint128_t)a->ulo + b->ulo > M) { // always wraps exactly once
            e->ulo = (a->ulo + b->ulo) & M, e->uhi = (u64)hi & M;
        }
    } break;
    case Op::Sub:
        if(a->ulo >= b->uhi) e->ulo = a->ulo - b->uhi, e->uhi = a->uhi - b->ulo;
        break;
    case Op::Mul: {
        __uint128_t hi = (__uint128_t)a->uhi * b->uhi;
        if(hi <= M) e->ulo = a->ulo * b->ulo, e->uhi = (u64)hi;
    } break;
    case Op::UDiv:
        if(b->ulo > 0) e->ulo = a->ulo / b->uhi, e->uhi = a->uhi / b->ulo;
        break;
    case Op::URem:
        if(b->ulo > 0) {
            e->uhi = std::min(a->uhi, b->uhi - 1);
            if(a->uhi < b->ulo) e->ulo = a->ulo;
        }
        break;
    case Op::And: e->uhi = std::min(a->uhi, b->uhi); break;
    case Op::Or: {
        u64 m = a->uhi | b->uhi;
        int bits = m ? 64 - __builtin_clzll(m) : 0;
        e->uhi = std::min(M, bits >= 64 ? ~(u64)0 : (((u64)1 << bits) - 1));
        e->ulo = std::max(a->ulo, b->ulo);
    } break;
    case Op::Xor: {
        u64 m = a->uhi | b->uhi;
        int bits = m ? 64 - __builtin_clzll(m) : 0;
        e->uhi = std::min(M, bits >= 64 ? ~(u64)0 : (((u64)1 << bits) - 1));
    } break;
    case Op::LShr:
        if(b->isConst()) {
            if(b->v >= e->width) e->ulo = e->uhi = 0;
            else e->ulo = a->ulo >> b->v, e->uhi = a->uhi >> b->v;
        } else e->uhi = a->uhi;
        break;
    case Op::Shl:
        if(b->isConst() && b->v < e->width) {
            __uint128_t hi = (__uint128_t)a->uhi << b->v;
            if(hi <= M) e->ulo = a->ulo << b->v, e->uhi = (u64)hi;
        }
        break;
    case Op::Concat:
        e->ulo = (a->ulo << b->width) | b->ulo;
        e->uhi = (a->uhi << b->width) | b->uhi;
        break;
    case Op::Extract:
        if(a->width <= 64 && (a->uhi >> e->aux) <= M) {
            e->ulo = a->ulo >> e->aux;
            e->uhi = a->uhi >> e->aux;
        }
        break;
    case Op::Ite:
        e->ulo = std::min(b->ulo, e->k[2]->ulo);
        e->uhi = std::max(b->uhi, e->k[2]->uhi);
        break;
    default: break;
    }
}

static Expr* intern(Expr& t) {
    auto it = g_tab.find(&t);
    if(it != g_tab.end()) return *it;
    if(t.big) t.big = new APInt(*t.big);
    g_arena.push_back(t);
    Expr* e = &g_arena.back();
    e->id = (u32)g_arena.size();
    computeRange(e);
    g_tab.insert(e);
    return e;
}
static Expr* node(Op op, u32 w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0) {
    Expr t;
    t.op = op;
    t.width = w;
    t.aux = aux;
    t.k[0] = a, t.k[1] = b, t.k[2] = c;
    t.nk = c ? 3 : b ? 2 : a ? 1 : 0;
    return intern(t);
}

Expr* mkConst(u32 w, u64 v) {
    Expr t;
    t.op = Op::Const;
    t.width = w;
    if(w > 64) {
        APInt x(w, v);
        t.big = &x;
        return intern(t);
    }
    t.v = v & maskw(w);
    return intern(t);
}
Expr* mkConst(const APInt& v) {
    if(v.getBitWidth() <= 64) return mkConst(v.getBitWidth(), v.getZExtValue());
    Expr t;
    t.op = Op::Const;
    t.width = v.getBitWidth();
    APInt x = v;
    t.big = &x;
    return intern(t);
}
Expr* mkTrue() {
    static Expr* t = mkConst(1, 1);
    return t;
}
Expr* mkFalse() {
    static Expr* t = mkConst(1, 0);
    return t;
}
Expr* mkVar(const std::string& name, u32 w, bool input) {
    Expr t;
    t.op = Op::Var;
    t.width = w;
    t.aux = (u32)g_vars.size();
    Expr* e = intern(t);
    g_vars.push_back({name, w, e, input});
    return e;
}
APInt constVal(const Expr* e) { return e->width <= 64 ? APInt(e->width, e->v) : *e->big; }

const llvm::fltSemantics& fsem(u32 w) {
    switch(w) {
    case 16: return APFloat::IEEEhalf();
    case 32: return APFloat::IEEEsingle();
    case 64: return APFloat::IEEEdouble();
    case 80: return APFloat::x87DoubleExtended();
    default: abort();
    }
}
static APFloat toF(const APInt& v) { return APFloat(fsem(v.getBitWidth()), v); }

// ---- concrete semantics (shared by folding and model evaluation) ----
static u64 foldBin(Op op, u32 w, u64 a, u64 b) {
    u64 M = maskw(w);
    switch(op) {
    case Op::Add: return (a + b) & M;
    case Op::Sub: return (a - b) & M;
    case Op::Mul: return (a * b) & M;
    case Op::UDiv: return b ? a / b : M;
    case Op::URem: return b ? a % b : a;
    case Op::SDiv: {
        i64 x = sx(a, w), y = sx(b, w);
        if(y == 0) return x < 0 ? 1 : M;
        if(y == -1) return (0 - a) & M;
        return (u64)(x / y) & M;
    }
    case Op::SRem: {
        i64 x = sx(a, w), y = sx(b, w);
        if(y == 0) return a;
        if(y == -1) return 0;
        return (u64)(x % y) & M;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << b) & M;
    case Op::LShr: return b >= w ? 0 : a >> b;
    case Op::AShr: {
        i64 x = sx(a, w);
        return (u64)(x >> (b >= w ? (w > 63 ? 63 : w - 1) : b)) & M;
    }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sx(a, w) < sx(b, w);
    case Op::Sle: return sx(a, w) <= sx(b, w);
    default: abort();
    }
}
static APInt foldBinAP(Op op, const APInt& a, const APInt& b) {
    u32 w = a.getBitWidth();
    switch(op) {
    case Op::Add: return a + b;
    case Op::Sub: return a - b;
    case Op::Mul: return a * b;
    case Op::UDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
    case Op::URem: return b.isZero() ? a : a.urem(b);
    case Op::SDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
    case Op::SRem: return b.isZero() ? a : a.srem(b);
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
    case Op::LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
    case Op::AShr: return b.uge(w) ? a.ashr(w - 1) : a.ashr(b);
    case Op::Eq: return APInt(1, a == b);
    case Op::Ult: return APInt(1, a.ult(b));
    case Op::Ule: return APInt(1, a.ule(b));
    case Op::Slt: return APInt(1, a.slt(b));
    case Op::Sle: return APInt(1, a.sle(b));
    default: abort();
    }
}
static APInt foldF(Op op, const APInt& a, const APInt& b) {
    APFloat x = toF(a), y = toF(b);
    auto rm = llvm::RoundingMode::NearestTiesToEven;
    switch(op) {
    case Op::FAdd: x.add(y, rm); return x.bitcastToAPInt();
    case Op::FSub: x.subtract(y, rm); return x.bitcastToAPInt();
    case Op::FMul: x.multiply(y, rm); return x.bitcastToAPInt();
    case Op::FDiv: x.divide(y, rm); return x.bitcastToAPInt();
    case Op::FRem: x.mod(y); return x.bitcastToAPInt();
    case Op::FEq: return APInt(1, x.compare(y) == APFloat::cmpEqual);
    case Op::FLt: return APInt(1, x.compare(y) == APFloat::cmpLessThan);
    case Op::FLe: {
        auto c = x.compare(y);
        return APInt(1, c == APFloat::cmpLessThan || c == APFloat::cmpEqual);
    }
    case Op::FUno: return APInt(1, x.compare(y) == APFloat::cmpUnordered);
    default: abort();
    }
}
static APInt foldFSqrt(const APInt& a) {
    if(a.getBitWidth() == 32) {
        float f = sqrtf(toF(a).convertToFloat());
        return APFloat(f).bitcastToAPInt();
    }
    double d = sqrt(toF(a).convertToDouble());
    return APFloat(d).bitcastToAPInt();
}
static APInt foldFToI(const APInt& a, u32 w, bool sgn) {
    llvm::APSInt r(w, !sgn);
    bool exact;
    auto st = toF(a).convertToInteger(r, llvm::RoundingMode::TowardZero, &exact);
    if(st & APFloat::opInvalidOp) return sgn ? APInt::getSignedMinValue(w) : APInt(w, 0);
    return r;
}
static APInt foldIToF(const APInt& a, u32 w, bool sgn) {
    APFloat f(fsem(w));
    f.convertFromAPInt(a, sgn, llvm::RoundingMode::NearestTiesToEven);
    return f.bitcastToAPInt();
}
static APInt foldFConv(const APInt& a, u32 w) {
    APFloat f = toF(a);
    bool li;
    f.convert(fsem(w), llvm::RoundingMode::NearestTiesToEven, &li);
    return f.bitcastToAPInt();
}
static llvm::RoundingMode rmode(u32 m) {
    switch(m) {
    case RND_FLOOR: return llvm::RoundingMode::TowardNegative;
    case RND_CEIL: return llvm::RoundingMode::TowardPositive;
    case RND_TRUNC: return llvm::RoundingMode::TowardZero;
    case RND_RNA: return llvm::RoundingMode::NearestTiesToAway;
    default: return llvm::RoundingMode::NearestTiesToEven;
    }
}
static double ufCall(u32 fn, double a, double b) {
    switch(fn) {
    case 0: return sin(a);
    case 1: return cos(a);
    case 2: return tan(a);
    case 3: return pow(a, b);
    case 4: return exp(a);
    case 5: return log(a);
    case 6: return asin(a);
    case 7: return acos(a);
    case 8: return atan(a);
    case 9: return atan2(a, b);
    case 10: return log2(a);
    case 11: return log10(a);
    case 12: return exp2(a);
    case 13: return fmod(a, b);
    case 14: return hypot(a, b);
    default: abort();
    }
}
static float ufCallf(u32 fn, float a, float b) {
    switch(fn) {
    case 0: return sinf(a);
    case 1: return cosf(a);
    case 2: return tanf(a);
    case 3: return powf(a, b);
    case 4: return expf(a);
    case 5: return logf(a);
    case 6: return asinf(a);
    case 7: return acosf(a);
    case 8: return atanf(a);
    case 9: return atan2f(a, b);
    case 10: return log2f(a);
    case 11: return log10f(a);
    case 12: return exp2f(a);
    case 13: return fmodf(a, b);
    case 14: return hypotf(a, b);
    default: abort();
    }
}
static APInt foldUF(u32 fn, const APInt& a, const APInt& b) {
    if(a.getBitWidth() == 32)
        return APFloat(ufCallf(fn, toF(a).convertToFloat(), toF(b).convertToFloat())).bitcastToAPInt();
    return APFloat(ufCall(fn, toF(a).convertToDouble(), toF(b).convertToDouble())).bitcastToAPInt();
}

// ---- constructors ----
Expr* mkNot(Expr* a) {
    if(a->isConst()) return mkConst(~constVal(a));
    if(a->op == Op::Xor && a->k[1]->isConst() && constVal(a->k[1]).isAllOnes()) return a->k[0];
    if(a->width == 1) {
        if(a->op == Op::Ult) return mkUle(a->k[1], a->k[0]);
        if(a->op == Op::Ule) return mkUlt(a->k[1], a->k[0]);
        if(a->op == Op::Slt) return mkSle(a->k[1], a->k[0]);
        if(a->op == Op::Sle) return mkSlt(a->k[1], a->k[0]);
    }
    return node(Op::Xor, a->width, a, mkConst(APInt::getAllOnes(a->width)));
}
Expr* mkNeg(Expr* a) { return mkBin(Op::Sub, mkConst(a->width, 0), a); }

static bool isPow2(u64 v, u32& s) {
    if(v == 0 || (v & (v - 1))) return false;
    s = __builtin_ctzll(v);
    return true;
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
    assert(a->width == b->width);
    u32 w = a->width;
    if(a->isConst() && b->isConst()) {
        if(w <= 64) return mkConst(w, foldBin(op, w, a->v, b->v));
        return mkConst(foldBinAP(op, constVal(a), constVal(b)));
    }
    bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor;
    if(comm) {
        if(a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); // const on the right
    }
    bool bc = b->isConst() && w <= 64;
    switch(op) {
    case Op::Add:
        if(b->isZero()) return a;
        if(bc) {
            if(a->op == Op::Add && a->k[1]->isConst())
                return mkBin(Op::Add, a->k[0], mkConst(w, a->k[1]->v + b->v));
            if(a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
                return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        }
        if(b->op == Op::Add && b->k[1]->isConst() && w <= 64)
            return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
        if(a->op == Op::Add && a->k[1]->isConst() && w <= 64)
            return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
        if(a->op == Op::Sub && a->k[1] == b) return a->k[0];
        if(b->op == Op::Sub && b->k[1] == a) return b->k[0];
        if(a == b && w <= 64) return mkBin(Op::Shl, a, mkConst(w, 1));
        break;
    case Op::Sub:
        if(b->isZero()) return a;
        if(a == b) return mkConst(w, 0);
        if(bc) return mkBin(Op::Add, a, mkConst(w, 0 - b->v));
        if(a->op == Op::Add && w <= 64) {
            if(a->k[0] == b) return a->k[1];
            if(a->k[1] == b) return a->k[0];
            if(a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
        }
        if(b->op == Op::Add && w <= 64) {
            if(b->k[0] == a) return mkNeg(b->k[1]);
            if(b->k[1] == a) return mkNeg(b->k[0]);
            if(b->k[1]->isConst())
                return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(w, 0 - b->k[1]->v));
        }
        if(a->isZero() && b->op == Op::Sub && b->k[0]->isZero()) return b->k[1];
        break;
    case Op::Mul:
        if(b->isZero()) return b;
        if(bc) {
            if(b->v == 1) return a;
            u32 s;
            if(isPow2(b->v, s)) return mkBin(Op::Shl, a, mkConst(w, s));
            if(a->op == Op::Mul && a->k[1]->isConst())
                return mkBin(Op::Mul, a->k[0], mkConst(w, a->k[1]->v * b->v));
            if(a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
                return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        }
        break;
    case Op::UDiv:
        if(bc) {
            if(b->v == 1) return a;
            u32 s;
            if(isPow2(b->v, s)) return mkBin(Op::LShr, a, mkConst(w, s));
        }
        if(w <= 64 && a->uhi < b->ulo) return mkConst(w, 0);
        break;
    case Op::URem:
        if(bc) {
            if(b->v == 1) return mkConst(w, 0);
            u32 s;
            if(isPow2(b->v, s)) return mkBin(Op::And, a, mkConst(w, b->v - 1));
        }
        if(w <= 64 && a->uhi < b->ulo) return a;
        break;
    case Op::SDiv:
        if(bc && b->v == 1) return a;
        if(w <= 64 && a->uhi < ((u64)1 << (w - 1)) && b->uhi < ((u64)1 << (w - 1)))
            return mkBin(Op::UDiv, a, b);
        break;
    case Op::SRem:
        if(w <= 64 && a->uhi < ((u64)1 << (w - 1)) && b->uhi < ((u64)1 << (w - 1)))
            return mkBin(Op::URem, a, b);
        break;
    case Op::And:
        if(b->isZero()) return b;
        if(a == b) return a;
        if(b->isConst() && constVal(b).isAllOnes()) return a;
        if(w == 1 && a->op == Op::Xor && a->k[1]->isTrue() && a->k[0] == b) return mkFalse();
        if(w == 1 && b->op == Op::Xor && b->k[1]->isTrue() && b->k[0] == a) return mkFalse();
        if(bc) {
            // low mask -> zext(extract)
            u64 m = b->v;
            if((m & (m + 1)) == 0) {
                u32 n = 64 - __builtin_clzll(m);
                if(a->uhi <= m) return a;
                return mkZExt(mkExtract(a, 0, n), w);
            }
            if(a->op == Op::And && a->k[1]->isConst())
                return mkBin(Op::And, a->k[0], mkConst(w, a->k[1]->v & m));
            if(a->op == Op::ZExt && w > a->k[0]->width)
                return mkZExt(mkBin(Op::And, a->k[0], mkConst(a->k[0]->width, m)), w);
            if(a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
                return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        }
        break;
    case Op::Or:
        if(b->isZero()) return a;
        if(a == b) return a;
        if(b->isConst() && constVal(b).isAllOnes()) return b;
        if(w == 1 && a->op == Op::Xor && a->k[1]->isTrue() && a->k[0] == b) return mkTrue();
        if(w == 1 && b->op == Op::Xor && b->k[1]->isTrue() && b->k[0] == a) return mkTrue();
        // disjoint-bit or of shifted zext: turn into concat
        if(w > 1) {
            for(int t = 0; t < 2; t++) {
                Expr *x = t ? b : a, *y = t ? a : b;
                if(x->op == Op::ZExt && y->op == Op::Shl && y->k[1]->isConst() && w <= 64 &&
                   y->k[1]->v >= x->k[0]->width && y->k[1]->v < w) {
                    u32 s = (u32)y->k[1]->v;
                    return mkConcat(mkExtract(y->k[0], 0, w - s), mkZExt(x->k[0], s));
                }
                if(x->op == Op::ZExt && y->op == Op::Concat && y->k[1]->isConst() &&
                   y->k[1]->isZero() && y->k[1]->width >= x->k[0]->width) {
                    return mkConcat(y->k[0], mkZExt(x->k[0], y->k[1]->width));
                }
            }
        }
        break;
    case Op::Xor:
        if(b->isZero()) return a;
        if(a == b) return mkConst(w, 0);
        if(b->isConst() && a->op == Op::Xor && a->k[1]->isConst())
            return mkBin(Op::Xor, a->k[0], mkConst(constVal(b) ^ constVal(a->k[1])));
        if(w == 1 && b->isTrue()) return mkNot(a);
        break;
    case Op::Shl:
        if(b->isZero()) return a;
        if(a->isZero()) return a;
        if(b->isConst()) {
            u64 s = w <= 64 ? b->v : b->big->getLimitedValue();
            if(s >= w) return mkConst(w, 0);
            if(a->op == Op::ZExt || w > 64) return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
        }
        break;
    case Op::LShr:
        if(b->isZero()) return a;
        if(a->isZero()) return a;
        if(b->isConst()) {
            u64 s = w <= 64 ? b->v : b->big->getLimitedValue();
            if(s >= w) return mkConst(w, 0);
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case Op::AShr:
        if(b->isZero()) return a;
        if(b->isConst()) {
            u64 s = w <= 64 ? b->v : b->big->getLimitedValue();
            if(s >= w) s = w - 1;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    default: break;
    }
    return node(op, w, a, b);
}

Expr* mkExtract(Expr* a, u32 lo, u32 w) {
    assert(lo + w <= a->width && w > 0);
    if(lo == 0 && w == a->width) return a;
    if(a->isConst()) return mkConst(constVal(a).extractBits(w, lo));
    switch(a->op) {
    case Op::Extract: return mkExtract(a->k[0], a->aux + lo, w);
    case Op::Concat: {
        u32 lw = a->k[1]->width;
        if(lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        if(lo + w <= lw) return mkExtract(a->k[1], lo, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
        u32 iw = a->k[0]->width;
        if(lo >= iw) return mkConst(w, 0);
        if(lo + w <= iw) return mkExtract(a->k[0], lo, w);
        return mkZExt(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case Op::SExt: {
        u32 iw = a->k[0]->width;
        if(lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if(lo == 0) return mkSExt(a->k[0], w);
        if(lo >= iw) return mkSExt(mkExtract(a->k[0], iw - 1, 1), w);
        return mkSExt(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case Op::And:
    case Op::Or:
    case Op::Xor:
        if(a->k[1]->isConst() || w == 1)
            return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        break;
    case Op::Add:
    case Op::Sub:
    case Op::Mul:
        if(lo == 0 && a->width <= 64 && w >= 8)
            return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    case Op::Ite:
        if((a->k[1]->isConst() && a->k[2]->isConst()) || a->width > 64)
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    case Op::Shl:
        if(a->k[1]->isConst() && a->width <= 64) {
            u64 s = a->k[1]->v;
            if(lo >= s) return mkExtract(a->k[0], lo - s, w);
            if(lo + w <= s) return mkConst(w, 0);
        }
        break;
    default: break;
    }
    if(a->width <= 64 && lo > 0 && (a->uhi >> lo) == 0) return mkConst(w, 0);
    return node(Op::Extract, w, a, nullptr, nullptr, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
    if(hi->isConst() && lo->isConst()) {
        APInt r = constVal(hi).zext(hi->width + lo->width).shl(lo->width) |
                  constVal(lo).zext(hi->width + lo->width);
        return mkConst(r);
    }
    if(hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] &&
       hi->aux == lo->aux + lo->width)
        return mkExtract(hi->k[0], lo->aux, hi->width + lo->width);
    if(hi->isZero()) return mkZExt(lo, hi->width + lo->width);
    // (x ++ extract) ++ extract
    if(hi->op == Op::Concat) {
        Expr* m = hi->k[1];
        if(m->op == Op::Extract && lo->op == Op::Extract && m->k[0] == lo->k[0] &&
           m->aux == lo->aux + lo->width)
            return mkConcat(hi->k[0], mkExtract(m->k[0], lo->aux, m->width + lo->width));
        if(m->isConst() && lo->isConst()) return mkConcat(hi->k[0], mkConcat(m, lo));
    }
    if(lo->op == Op::Concat) {
        Expr* m = lo->k[0];
        if(hi->op == Op::Extract && m->op == Op::Extract && hi->k[0] == m->k[0] &&
           hi->aux == m->aux + m->width)
            return mkConcat(mkExtract(m->k[0], m->aux, m->width + hi->width), lo->k[1]);
    }
    // extract(x, n.. msb of narrower via sext/zext) patterns: ZExt(x) bytes
    if(hi->op == Op::Extract && hi->k[0]->op != Op::Extract && lo == mkExtract(hi->k[0], 0, hi->aux) &&
       hi->aux == lo->width)
        return mkExtract(hi->k[0], 0, hi->width + lo->width);
    // ite merging
    if(hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0])
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    return node(Op::Concat, hi->width + lo->width, hi, lo);
}
Expr* mkZExt(Expr* a, u32 w) {
    assert(w >= a->width);
    if(w == a->width) return a;
    if(a->isConst()) return mkConst(constVal(a).zext(w));
    if(a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if(a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
        return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
    return node(Op::ZExt, w, a);
}
Expr* mkSExt(Expr* a, u32 w) {
    assert(w >= a->width);
    if(w == a->width) return a;
    if(a->isConst()) return mkConst(constVal(a).sext(w));
    if(a->op == Op::SExt) return mkSExt(a->k[0], w);
    if(a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if(a->width <= 64 && a->uhi < ((u64)1 << (a->width - 1))) return mkZExt(a, w);
    return node(Op::SExt, w, a);
}
Expr* mkTruncOrZExt(Expr* a, u32 w) { return w <= a->width ? mkExtract(a, 0, w) : mkZExt(a, w); }

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    assert(a->width == b->width && c->width == 1);
    if(c->isTrue()) return a;
    if(c->isFalse()) return b;
    if(a == b) return a;
    if(c->op == Op::Xor && c->k[1]->isTrue()) return mkIte(c->k[0], b, a);
    if(a->width == 1) {
        if(a->isTrue() && b->isFalse()) return c;
        if(a->isFalse() && b->isTrue()) return mkNot(c);
        if(a->isTrue()) return mkOr(c, b);
        if(a->isFalse()) return mkAnd(mkNot(c), b);
        if(b->isTrue()) return mkOr(mkNot(c), a);
        if(b->isFalse()) return mkAnd(c, a);
    }
    if(a->op == Op::Ite && a->k[0] == c) a = a->k[1];
    if(b->op == Op::Ite && b->k[0] == c) b = b->k[2];
    if(a == b) return a;
    if(b->op == Op::Ite && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    return node(Op::Ite, a->width, c, a, b);
}
Expr* mkEq(Expr* a, Expr* b) {
    assert(a->width == b->width);
    if(a == b) return mkTrue();
    if(a->isConst() && b->isConst()) return mkBool(constVal(a) == constVal(b));
    if(a->isConst()) std::swap(a, b);
    if(!b->isConst() && a->id > b->id) std::swap(a, b);
    u32 w = a->width;
    if(w <= 64 && (a->uhi < b->ulo || b->uhi < a->ulo)) return mkFalse();
    if(w == 1 && b->isConst()) return b->v ? a : mkNot(a);
    if(b->isConst()) {
        if(a->op == Op::ZExt) {
            u32 iw = a->k[0]->width;
            APInt c = constVal(b);
            if(c.getActiveBits() > iw) return mkFalse();
            return mkEq(a->k[0], mkConst(c.trunc(iw)));
        }
        if(a->op == Op::SExt) {
            u32 iw = a->k[0]->width;
            APInt c = constVal(b);
            if(c.trunc(iw).sext(w) != c) return mkFalse();
            return mkEq(a->k[0], mkConst(c.trunc(iw)));
        }
        if(a->op == Op::Concat) {
            u32 lw = a->k[1]->width;
            APInt c = constVal(b);
            return mkAnd(mkEq(a->k[0], mkConst(c.extractBits(w - lw, lw))),
                         mkEq(a->k[1], mkConst(c.extractBits(lw, 0))));
        }
        if(w <= 64) {
            if(a->op == Op::Add && a->k[1]->isConst())
                return mkEq(a->k[0], mkConst(w, b->v - a->k[1]->v));
            if(a->op == Op::Sub && a->k[0]->isConst())
                return mkEq(a->k[1], mkConst(w, a->k[0]->v - b->v));
            if(a->op == Op::Sub && b->v == 0) return mkEq(a->k[0], a->k[1]);
            if(a->op == Op::Xor && a->k[1]->isConst())
                return mkEq(a->k[0], mkConst(w, b->v ^ a->k[1]->v));
            if(a->op == Op::Xor && b->v == 0) return mkEq(a->k[0], a->k[1]);
            if(a->op == Op::Or && b->v == 0)
                return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b));
        }
        if(a->op == Op::Ite) {
            if(a->k[1]->isConst() || a->k[2]->isConst())
                return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
        }
    } else {
        if((a->op == Op::ZExt && b->op == Op::ZExt) || (a->op == Op::SExt && b->op == Op::SExt)) {
            if(a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
        }
        if(a->op == Op::Concat && b->op == Op::Concat && a->k[0]->width == b->k[0]->width)
            return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
        if(w <= 64 && a->op == Op::Add && b->op == Op::Add) {
            if(a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]);
            if(a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
        }
        if(w <= 64 && a->op == Op::Add && a->k[0] == b && a->k[1]->isConst()) return mkFalse();
        if(w <= 64 && b->op == Op::Add && b->k[0] == a && b->k[1]->isConst()) return mkFalse();
    }
    return node(Op::Eq, 1, a, b);
}
Expr* mkUlt(Expr* a, Expr* b) {
    assert(a->width == b->width);
    if(a == b) return mkFalse();
    u32 w = a->width;
    if(w <= 64) {
        if(a->uhi < b->ulo) return mkTrue();
        if(a->ulo >= b->uhi) return mkFalse();
        if(b->isConst() && b->v == 1) return mkEq(a, mkConst(w, 0));
        if(a->isConst() && a->v == 0) return mkNe(b, a);
    } else if(a->isConst() && b->isConst()) return mkBool(constVal(a).ult(constVal(b)));
    if(a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width)
        return mkUlt(a->k[0], b->k[0]);
    if(a->op == Op::ZExt && b->isConst() && constVal(b).getActiveBits() <= a->k[0]->width)
        return mkUlt(a->k[0], mkConst(constVal(b).trunc(a->k[0]->width)));
    if(b->op == Op::ZExt && a->isConst() && constVal(a).getActiveBits() <= b->k[0]->width)
        return mkUlt(mkConst(constVal(a).trunc(b->k[0]->width)), b->k[0]);
    if(a->op == Op::Ite && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst()))
        return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
    if(b->op == Op::Ite && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst()))
        return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
    if(w == 1) return mkAnd(mkNot(a), b);
    return node(Op::Ult, 1, a, b);
}
Expr* mkUle(Expr* a, Expr* b) {
    assert(a->width == b->width);
    if(a == b) return mkTrue();
    u32 w = a->width;
    if(w <= 64) {
        if(a->uhi <= b->ulo) return mkTrue();
        if(a->ulo > b->uhi) return mkFalse();
        if(b->isConst()) return b->v == maskw(w) ? mkTrue() : mkUlt(a, mkConst(w, b->v + 1));
        if(a->isConst()) return a->v == 0 ? mkTrue() : mkUlt(mkConst(w, a->v - 1), b);
    } else if(a->isConst() && b->isConst()) return mkBool(constVal(a).ule(constVal(b)));
    if(a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width)
        return mkUle(a->k[0], b->k[0]);
    if(w == 1) return mkOr(mkNot(a), b);
    return node(Op::Ule, 1, a, b);
}
static bool srangeKnown(Expr* e, i64& lo, i64& hi) {
    return e->width <= 64 && srange(e, lo, hi);
}
Expr* mkSlt(Expr* a, Expr* b) {
    assert(a->width == b->width);
    if(a == b) return mkFalse();
    u32 w = a->width;
    if(a->isConst() && b->isConst()) return mkBool(constVal(a).slt(constVal(b)));
    if(w <= 64) {
        u64 h = (u64)1 << (w - 1);
        if(a->uhi < h && b->uhi < h) return mkUlt(a, b);
        if(a->ulo >= h && b->ulo >= h) return mkUlt(a, b);
        if(a->ulo >= h && b->uhi < h) return mkTrue();
        if(a->uhi < h && b->ulo >= h) return mkFalse();
        i64 al, ah, bl, bh;
        if(srangeKnown(a, al, ah) && srangeKnown(b, bl, bh)) {
            if(ah < bl) return mkTrue();
            if(al >= bh) return mkFalse();
        }
    }
    if(a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width)
        return mkSlt(a->k[0], b->k[0]);
    if(a->op == Op::SExt && b->isConst() && constVal(b).getSignificantBits() <= a->k[0]->width)
        return mkSlt(a->k[0], mkConst(constVal(b).trunc(a->k[0]->width)));
    if(b->op == Op::SExt && a->isConst() && constVal(a).getSignificantBits() <= b->k[0]->width)
        return mkSlt(mkConst(constVal(a).trunc(b->k[0]->width)), b->k[0]);
    return node(Op::Slt, 1, a, b);
}
Expr* mkSle(Expr* a, Expr* b) {
    assert(a->width == b->width);
    if(a == b) return mkTrue();
    u32 w = a->width;
    if(a->isConst() && b->isConst()) return mkBool(constVal(a).sle(constVal(b)));
    if(w <= 64) {
        u64 h = (u64)1 << (w - 1);
        if(a->uhi < h && b->uhi < h) return mkUle(a, b);
        if(a->ulo >= h && b->ulo >= h) return mkUle(a, b);
        if(a->ulo >= h && b->uhi < h) return mkTrue();
        if(a->uhi < h && b->ulo >= h) return mkFalse();
        i64 al, ah, bl, bh;
        if(srangeKnown(a, al, ah) && srangeKnown(b, bl, bh)) {
            if(ah <= bl) return mkTrue();
            if(al > bh) return mkFalse();
        }
    }
    if(a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width)
        return mkSle(a->k[0], b->k[0]);
    return node(Op::Sle, 1, a, b);
}

// signed range; always succeeds for width <= 64 (may be the full range)
static bool srangeRec(Expr* e, i64& lo, i64& hi, int depth) {
    u32 w = e->width;
    if(w > 64) return false;
    i64 mn = w == 64 ? INT64_MIN : -(1ll << (w - 1)), mx = w == 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
    lo = mn, hi = mx;
    if(e->isConst()) {
        lo = hi = sx(e->v, w);
        return true;
    }
    u64 h = (u64)1 << (w - 1);
    if(e->uhi < h) {
        lo = (i64)e->ulo, hi = (i64)e->uhi;
        return true;
    }
    if(depth > 40) return true;
    i64 al, ah, bl, bh;
    switch(e->op) {
    case Op::SExt: return srangeRec(e->k[0], lo, hi, depth + 1);
    case Op::Extract: {
        if(e->aux == 0 && srangeRec(e->k[0], al, ah, depth + 1) && al >= mn && ah <= mx) lo = al, hi = ah;
        return true;
    }
    case Op::Add:
    case Op::Sub:
    case Op::Mul: {
        srangeRec(e->k[0], al, ah, depth + 1);
        srangeRec(e->k[1], bl, bh, depth + 1);
        __int128 l, u;
        if(e->op == Op::Add) l = (__int128)al + bl, u = (__int128)ah + bh;
        else if(e->op == Op::Sub) l = (__int128)al - bh, u = (__int128)ah - bl;
        else {
            __int128 p[4] = {(__int128)al * bl, (__int128)al * bh, (__int128)ah * bl, (__int128)ah * bh};
            l = *std::min_element(p, p + 4), u = *std::max_element(p, p + 4);
        }
        if(l >= mn && u <= mx) lo = (i64)l, hi = (i64)u;
        return true;
    }
    case Op::Shl:
        if(e->k[1]->isConst() && e->k[1]->v < 63) {
            srangeRec(e->k[0], al, ah, depth + 1);
            __int128 l = (__int128)al << e->k[1]->v, u = (__int128)ah << e->k[1]->v;
            if(l >= mn && u <= mx) lo = (i64)l, hi = (i64)u;
        }
        return true;
    case Op::Ite:
        srangeRec(e->k[1], al, ah, depth + 1);
        srangeRec(e->k[2], bl, bh, depth + 1);
        lo = std::min(al, bl), hi = std::max(ah, bh);
        return true;
    default: return true;
    }
}
std::unordered_map<Expr*, std::pair<i64, i64>> g_srange;
bool srange(Expr* e, i64& lo, i64& hi) {
    if(e->width > 64) return false;
    auto it = g_srange.find(e);
    if(it != g_srange.end()) {
        lo = it->second.first, hi = it->second.second;
        return true;
    }
    srangeRec(e, lo, hi, 0);
    g_srange[e] = {lo, hi};
    return true;
}

static Expr* negInt(Expr* a);
// ---- floats ----
static i64 mantLim(u32 w) { return w == 32 ? (1ll << 24) : (1ll << 53); }

// Integer-valued floats: every integer term built by exact float arithmetic carries its polynomial
// over the atomic terms, so that two terms with equal polynomials become one node (identities
// such as those of matrix and quaternion algebra are then decided by normalisation).
typedef std::map<std::vector<u32>, i64> Poly; // sorted atom ids (with repetition) -> coefficient
static std::unordered_map<Expr*, std::shared_ptr<Poly>> g_poly;
static std::map<Poly, Expr*> g_polyOf;
static std::unordered_map<u32, Expr*> g_atom;
extern std::unordered_map<Expr*, std::pair<i64, i64>> g_srange;
static const size_t polyMax = 20000;
static std::shared_ptr<Poly> polyOf(Expr* e) {
    while(e->op == Op::SExt) e = e->k[0];
    auto it = g_poly.find(e);
    if(it != g_poly.end()) return it->second;
    auto p = std::make_shared<Poly>();
    if(e->isConst()) {
        i64 v = sx(e->v, e->width);
        if(v) (*p)[{}] = v;
    } else {
        (*p)[{e->id}] = 1;
        g_atom[e->id] = e;
    }
    return g_poly[e] = p;
}
static bool fitsCoeff(__int128 v) { return v > -((__int128)1 << 60) && v < ((__int128)1 << 60); }
static std::shared_ptr<Poly> polyArith(Op op, const Poly& x, const Poly& y) {
    auto r = std::make_shared<Poly>();
    if(op != Op::FMul) {
        *r = x;
        for(auto& t : y) {
            i64& c = (*r)[t.first];
            __int128 n = op == Op::FAdd ? (__int128)c + t.second : (__int128)c - t.second;
            if(!fitsCoeff(n)) return nullptr;
            c = (i64)n;
            if(!c) r->erase(t.first);
        }
        return r->size() > polyMax ? nullptr : r;
    }
    if(x.size() * y.size() > 40 * polyMax) return nullptr;
    for(auto& s : x)
        for(auto& t : y) {
            std::vector<u32> m(s.first.size() + t.first.size());
            std::merge(s.first.begin(), s.first.end(), t.first.begin(), t.first.end(), m.begin());
            if(m.size() > 24) return nullptr;
            i64& c = (*r)[m];
            __int128 n = (__int128)c + (__int128)s.second * t.second;
            if(!fitsCoeff(n)) return nullptr;
            c = (i64)n;
            if(!c) r->erase(m);
        }
    return r->size() > polyMax ? nullptr : r;
}
static void polyRange(const Poly& p, __int128& lo, __int128& hi) {
    const __int128 inf = (__int128)1 << 100;
    lo = hi = 0;
    for(auto& t : p) {
        __int128 l = 1, h = 1;
        for(size_t i = 0; i < t.first.size();) {
            size_t j = i;
            while(j < t.first.size() && t.first[j] == t.first[i]) j++;
            i64 al, ah;
            srange(g_atom[t.first[i]], al, ah);
            for(size_t n = i; n < j; n++) {
                __int128 c[4] = {l * al, l * ah, h * al, h * ah};
                l = *std::min_element(c, c + 4), h = *std::max_element(c, c + 4);
                if(l < -inf || h > inf) {
                    lo = -inf, hi = inf;
                    return;
                }
            }
            if((j - i) % 2 == 0 && i == 0 && j == t.first.size()) l = std::max<__int128>(l, 0);
            i = j;
        }
        __int128 c[2] = {l * t.second, h * t.second};
        lo += std::min(c[0], c[1]), hi += std::max(c[0], c[1]);
        if(lo < -inf || hi > inf) {
            lo = -inf, hi = inf;
            return;
        }
    }
}
static u32 bitsFor(__int128 l, __int128 u) {
    u32 need = 1;
    while(need < 63 && ((__int128)-1 << (need - 1) > l || ((__int128)1 << (need - 1)) - 1 < u)) need++;
    return need;
}
static Expr* fitInt(Expr* e);
static void tighten(Expr* e, i64 l, i64 u) {
    i64 lo, hi;
    if(!srange(e, lo, hi)) return;
    g_srange[e] = {std::max(lo, l), std::min(hi, u)};
}
static Expr* polyExpr(const Poly& p, i64 l, i64 u) { // a term with this polynomial
    auto it = g_polyOf.find(p);
    if(it != g_polyOf.end()) return it->second;
    u32 w = bitsFor(l, u); // wrapping arithmetic of this width is exact for the sum
    Expr* r = mkConst(w, 0);
    for(auto& t : p) {
        Expr* m = mkConst(w, (u64)t.second);
        for(u32 id : t.first) {
            Expr* a = g_atom[id];
            m = mkBin(Op::Mul, m, a->width > w ? mkExtract(a, 0, w) : mkSExt(a, w));
        }
        r = mkBin(Op::Add, r, m);
    }
    tighten(r, l, u);
    if(!r->isConst()) {
        auto& k = g_poly[r];
        if(!k) k = std::make_shared<Poly>(p);
    }
    return g_polyOf[p] = r;
}
// x op y over the integers (null when it may not fit the mantissa)
static Expr* intArith(Op op, Expr* x, Expr* y, i64 lim) {
    i64 al, ah, bl, bh;
    srange(x, al, ah);
    srange(y, bl, bh);
    __int128 l, u;
    if(op == Op::FAdd) l = (__int128)al + bl, u = (__int128)ah + bh;
    else if(op == Op::FSub) l = (__int128)al - bh, u = (__int128)ah - bl;
    else {
        __int128 p[4] = {(__int128)al * bl, (__int128)al * bh, (__int128)ah * bl, (__int128)ah * bh};
        l = *std::min_element(p, p + 4), u = *std::max_element(p, p + 4);
    }
    auto px = polyOf(x), py = polyOf(y);
    auto pr = polyArith(op, *px, *py);
    if(pr) {
        __int128 pl, pu;
        polyRange(*pr, pl, pu);
        l = std::max(l, pl), u = std::min(u, pu);
    }
    static bool trace = getenv("VX_TRACE");
    if(trace && (!pr || l < -lim || u > lim))
        fprintf(stderr, "exact: op %d range %g..%g terms %zu*%zu -> %zu\n", (int)op, (double)l, (double)u, px->size(), py->size(), pr ? pr->size() : 0);
    if(l < -lim || u > lim) return nullptr;
    if(pr) {
        if(pr->empty()) return mkConst(1, 0);
        if(pr->size() == 1 && pr->begin()->first.empty()) {
            i64 v = pr->begin()->second;
            return mkConst(bitsFor(v, v), (u64)v);
        }
        auto it = g_polyOf.find(*pr);
        if(it != g_polyOf.end()) {
            tighten(it->second, (i64)l, (i64)u);
            return it->second;
        }
    }
    u32 need = std::max(bitsFor(l, u), std::max(x->width, y->width));
    if(need > 63) need = 63;
    auto adj = [&](Expr* e) { return e->width > need ? mkExtract(e, 0, need) : mkSExt(e, need); };
    Expr* r = mkBin(op == Op::FAdd ? Op::Add : op == Op::FSub ? Op::Sub : Op::Mul, adj(x), adj(y));
    tighten(r, (i64)l, (i64)u);
    r = fitInt(r);
    tighten(r, (i64)l, (i64)u);
    if(pr && !r->isConst()) {
        if(pr->size() == 1 && pr->begin()->first.size() == 1 && pr->begin()->second == 1)
            r = g_atom[pr->begin()->first[0]]; // the atom itself
        else {
            Expr* b = r;
            while(b->op == Op::SExt) b = b->k[0];
            auto& k = g_poly[b];
            if(!k) k = pr;
        }
        g_polyOf[*pr] = r;
    }
    return r;
}
static Expr* negInt(Expr* a) {
    Expr* r = intArith(Op::FSub, mkConst(1, 0), a, (i64)1 << 55);
    return r ? r : mkNeg(mkSExt(a, a->width + 1));
}

// Returns a signed integer expression (some width) equal to the float's numeric value.
Expr* asInt(Expr* f) {
    u32 w = f->width;
    if(w != 32 && w != 64) return nullptr;
    if(f->isConst()) {
        APFloat x = toF(constVal(f));
        if(!x.isFinite()) return nullptr;
        double d = w == 32 ? (double)x.convertToFloat() : x.convertToDouble();
        if(d != std::floor(d) || std::fabs(d) > (double)mantLim(w)) return nullptr;
        i64 iv = (i64)d;
        u32 bits = 64 - __builtin_clzll((u64)(iv < 0 ? -iv : iv) | 1) + 1;
        return mkConst(bits, (u64)iv);
    }
    switch(f->op) {
    case Op::SIToF: {
        i64 lo, hi;
        if(!srange(f->k[0], lo, hi)) return nullptr;
        if(lo < -mantLim(w) || hi > mantLim(w)) return nullptr;
        return f->k[0];
    }
    case Op::UIToF: {
        Expr* a = f->k[0];
        if(a->width > 63 && a->uhi > (u64)mantLim(w)) return nullptr;
        if(a->uhi > (u64)mantLim(w)) return nullptr;
        return mkZExt(a, std::min(a->width + 1, 64u));
    }
    case Op::NumF: return f->aux ? nullptr : f->k[0];
    case Op::Xor:
        if(f->k[1]->isConst() && constVal(f->k[1]).isSignMask()) {
            Expr* a = asInt(f->k[0]);
            if(!a) return nullptr;
            return negInt(a);
        }
        return nullptr;
    case Op::Concat: { // the sign bit flipped
        Expr *h = f->k[0], *l = f->k[1];
        if(h->op != Op::Xor || !h->k[1]->isConst() || !constVal(h->k[1]).isSignMask()) return nullptr;
        h = h->k[0];
        if(h->op != Op::Extract || l->op != Op::Extract || h->k[0] != l->k[0] || l->aux != 0 ||
           h->aux != l->width || h->k[0]->width != w)
            return nullptr;
        Expr* a = asInt(h->k[0]);
        return a ? negInt(a) : nullptr;
    }
    case Op::Ite: {
        Expr *a = asInt(f->k[1]), *b = a ? asInt(f->k[2]) : nullptr;
        if(!a || !b) return nullptr;
        u32 m = std::max(a->width, b->width);
        return mkIte(f->k[0], mkSExt(a, m), mkSExt(b, m));
    }
    default: return nullptr;
    }
}
static Expr* fitInt(Expr* e) { // shrink to the minimal width covering its range
    i64 lo, hi;
    if(!srange(e, lo, hi)) return e;
    u64 m = (u64)std::max(hi, lo < 0 ? ~lo : lo);
    u32 bits = (m ? 64 - __builtin_clzll(m) : 0) + 1;
    if(bits < e->width) return mkExtract(e, 0, bits);
    return e;
}
// f == x * 2^-k exactly
static Expr* asDy(Expr* f, u32& k) {
    k = 0;
    u32 w = f->width;
    if(w != 32 && w != 64) return nullptr;
    if(Expr* x = asInt(f)) return x;
    if(f->isConst()) {
        APFloat c = toF(constVal(f));
        if(!c.isFinite()) return nullptr;
        double d = w == 32 ? (double)c.convertToFloat() : c.convertToDouble();
        while(k < 60 && d != std::floor(d)) d *= 2, k++;
        if(d != std::floor(d) || std::fabs(d) > (double)mantLim(w)) return nullptr;
        i64 iv = (i64)d;
        return mkConst(bitsFor(iv, iv), (u64)iv);
    }
    if(f->op == Op::NumF) {
        k = f->aux;
        return f->k[0];
    }
    if(f->op == Op::Xor && f->k[1]->isConst() && constVal(f->k[1]).isSignMask()) {
        Expr* a = asDy(f->k[0], k);
        return a ? negInt(a) : nullptr;
    }
    return nullptr;
}
static Expr* scaleInt(Expr* x, u32 by, i64 lim) {
    if(!by) return x;
    if(by > 54) return nullptr;
    return intArith(Op::FMul, x, mkConst(by + 2, (u64)1 << by), lim);
}
static Expr* exactArith(Op op, Expr* a, Expr* b, u32 fw) {
    u32 ka, kb, k;
    Expr *x = asDy(a, ka), *y = x ? asDy(b, kb) : nullptr;
    if(!x || !y) return nullptr;
    i64 lim = mantLim(fw);
    if(op == Op::FMul) k = ka + kb;
    else {
        k = std::max(ka, kb);
        x = scaleInt(x, k - ka, (i64)1 << 55);
        y = x ? scaleInt(y, k - kb, (i64)1 << 55) : nullptr;
        if(!x || !y) return nullptr;
    }
    if(k > 80) return nullptr;
    i64 al, ah, bl, bh;
    srange(x, al, ah);
    srange(y, bl, bh);
    Expr* r = intArith(op, x, y, lim);
    if(!r) return nullptr;
    i64 l, u;
    srange(r, l, u);
    if(k && !r->isConst()) { // lowest terms
        auto p = polyOf(r);
        u32 d = k;
        for(auto& t : *p) d = std::min<u32>(d, (u32)__builtin_ctzll((u64)t.second));
        if(d) {
            Poly q = *p;
            for(auto& t : q) t.second >>= d;
            i64 lo = l >> d, hi = u >> d;
            if(q.size() == 1 && q.begin()->first.size() == 1 && q.begin()->second == 1)
                r = g_atom[q.begin()->first[0]];
            else r = polyExpr(q, lo, hi);
            k -= d;
        }
    }
    if(k) {
        if(r->isConst()) {
            if(!r->v) return node(Op::NumF, fw, mkConst(1, 0));
            APFloat f = toF(foldIToF(constVal(r), fw, true));
            return mkConst(scalbn(f, -(int)k, llvm::RoundingMode::NearestTiesToEven).bitcastToAPInt());
        }
        return node(Op::NumF, fw, r, nullptr, nullptr, k);
    }
    auto exactPos = [&](Expr* e) { // zero, if any, is +0
        return e->op == Op::SIToF || e->op == Op::UIToF ||
               (e->isConst() && !constVal(e).isSignMask());
    };
    bool exact = false;
    if(!ka && !kb && exactPos(a) && exactPos(b)) {
        if(op != Op::FMul) exact = true;
        else exact = (al >= 0 && bl >= 0) || (al > 0) || (bl > 0) || ((l > 0) || (u < 0));
    }
    if(exact) return mkIToF(r, fw, true);
    if(r->isConst() && r->v != 0) return mkConst(foldIToF(constVal(r), fw, true));
    return node(Op::NumF, fw, r);
}
Expr* mkFBin(Op op, Expr* a, Expr* b) {
    if(a->isConst() && b->isConst()) return mkConst(foldF(op, constVal(a), constVal(b)));
    if(op == Op::FAdd || op == Op::FSub || op == Op::FMul) {
        if(Expr* r = exactArith(op, a, b, a->width)) return r;
    }
    if(op == Op::FDiv && b->isConst()) { // by a power of two: the same as times its reciprocal
        APFloat f = toF(constVal(b)), inv(fsem(b->width));
        if(f.isFiniteNonZero() && f.getExactInverse(&inv)) {
            op = Op::FMul;
            b = mkConst(inv.bitcastToAPInt());
            if(Expr* r = exactArith(op, a, b, a->width)) return r;
        }
    }
    if(op == Op::FMul || op == Op::FDiv) {
        if(b->isConst() && constVal(b) == foldIToF(APInt(8, 1), b->width, true)) return a;
        if(op == Op::FMul && a->isConst() && constVal(a) == foldIToF(APInt(8, 1), a->width, true)) return b;
    }
    if((op == Op::FAdd || op == Op::FMul) && a->id > b->id) std::swap(a, b);
    return node(op, a->width, a, b);
}
Expr* mkFNeg(Expr* a) {
    if(a->op == Op::NumF) return node(Op::NumF, a->width, negInt(a->k[0]), nullptr, nullptr, a->aux);
    return mkBin(Op::Xor, a, mkConst(APInt::getSignMask(a->width)));
}
Expr* mkFAbs(Expr* a) {
    if(a->isConst()) {
        APInt v = constVal(a);
        v.clearBit(a->width - 1);
        return mkConst(v);
    }
    if(Expr* x = asInt(a)) {
        Expr* y = mkSExt(x, std::min(x->width + 1, 64u));
        Expr* r = mkIte(mkSlt(y, mkConst(y->width, 0)), mkNeg(y), y);
        return mkIToF(r, a->width, true);
    }
    APInt m = APInt::getSignedMaxValue(a->width);
    return mkBin(Op::And, a, mkConst(m));
}
Expr* mkFSqrt(Expr* a) {
    if(a->isConst()) return mkConst(foldFSqrt(constVal(a)));
    return node(Op::FSqrt, a->width, a);
}
Expr* mkFFma(Expr* a, Expr* b, Expr* c) {
    if(a->isConst() && b->isConst() && c->isConst()) {
        APFloat x = toF(constVal(a));
        x.fusedMultiplyAdd(toF(constVal(b)), toF(constVal(c)), llvm::RoundingMode::NearestTiesToEven);
        return mkConst(x.bitcastToAPInt());
    }
    if(Expr* p = exactArith(Op::FMul, a, b, a->width))
        if(Expr* r = exactArith(Op::FAdd, p, c, a->width)) return r;
    return node(Op::FFma, a->width, a, b, c);
}
Expr* mkFCmp(Op op, Expr* a, Expr* b) {
    if(a->isConst() && b->isConst()) return mkConst(foldF(op, constVal(a), constVal(b)));
    Expr *x = asInt(a), *y = x ? asInt(b) : nullptr;
    if(op == Op::FUno && x && y) return mkFalse();
    if(op == Op::FUno && x && b->isConst()) return mkBool(toF(constVal(b)).isNaN());
    if(op == Op::FUno && a == b && x) return mkFalse();
    if(!(x && y) && op != Op::FUno) {
        u32 ka, kb;
        Expr *p = asDy(a, ka), *q = p ? asDy(b, kb) : nullptr;
        if(p && q) {
            u32 k = std::max(ka, kb);
            p = scaleInt(p, k - ka, (i64)1 << 55), q = scaleInt(q, k - kb, (i64)1 << 55);
            if(p && q) x = p, y = q;
        }
    }
    if(op == Op::FUno) {
        u32 ka, kb;
        if(asDy(a, ka) && asDy(b, kb)) return mkFalse();
        if(asDy(a, ka) && b->isConst()) return mkBool(toF(constVal(b)).isNaN());
        if(asDy(b, ka) && a->isConst()) return mkBool(toF(constVal(a)).isNaN());
    }
    if(x && y) {
        u32 w = std::max(x->width, y->width);
        x = mkSExt(x, w), y = mkSExt(y, w);
        if(op == Op::FEq) return mkEq(x, y);
        if(op == Op::FLt) return mkSlt(x, y);
        if(op == Op::FLe) return mkSle(x, y);
    }
    // integer-valued versus arbitrary constant
    if(op != Op::FUno) {
        for(int t = 0; t < 2; t++) {
            Expr *i = t ? b : a, *c = t ? a : b;
            Expr* iv = asInt(i);
            if(!iv || !c->isConst()) continue;
            APFloat cf = toF(constVal(c));
            if(cf.isNaN()) return mkFalse();
            double d = c->width == 32 ? (double)cf.convertToFloat() : cf.convertToDouble();
            i64 lo, hi;
            srange(iv, lo, hi);
            if(op == Op::FEq) {
                if(d != std::floor(d) || d < (double)lo || d > (double)hi) return mkFalse();
                continue;
            }
            // i < d  <=> i < ceil(d) ; i <= d <=> i <= floor(d); d < i <=> floor(d) < i ...
            if(!t) {
                double q = op == Op::FLt ? std::ceil(d) : std::floor(d);
                if(q > (double)hi) return mkTrue();
                if(q < (double)lo) return mkFalse();
                Expr* qc = mkConst(64, (u64)(i64)q);
                return op == Op::FLt ? mkSlt(mkSExt(iv, 64), qc) : mkSle(mkSExt(iv, 64), qc);
            } else {
                double q = op == Op::FLt ? std::floor(d) : std::ceil(d);
                if(q > (double)hi) return mkFalse();
                if(q < (double)lo) return mkTrue();
                Expr* qc = mkConst(64, (u64)(i64)q);
                return op == Op::FLt ? mkSlt(qc, mkSExt(iv, 64)) : mkSle(qc, mkSExt(iv, 64));
            }
        }
    }
    if((op == Op::FEq || op == Op::FUno) && a->id > b->id) std::swap(a, b);
    return node(op, 1, a, b);
}
Expr* mkFToI(Expr* a, u32 w, bool sgn) {
    if(a->isConst()) return mkConst(foldFToI(constVal(a), w, sgn));
    if(Expr* x = asInt(a)) {
        if(x->width <= w) return mkSExt(x, w);
        i64 lo, hi;
        srange(x, lo, hi);
        return mkExtract(x, 0, w);
    }
    return node(sgn ? Op::FToSI : Op::FToUI, w, a);
}
Expr* mkIToF(Expr* a, u32 w, bool sgn) {
    if(a->isConst()) return mkConst(foldIToF(constVal(a), w, sgn));
    if(!sgn && a->op == Op::ZExt && a->k[0]->width < a->width) {
        return mkIToF(mkZExt(a->k[0], a->k[0]->width + 1), w, true);
    }
    if(sgn) a = fitInt(a);
    return node(sgn ? Op::SIToF : Op::UIToF, w, a);
}
Expr* mkFConv(Expr* a, u32 w) {
    if(a->width == w) return a;
    if(a->isConst()) return mkConst(foldFConv(constVal(a), w));
    if(Expr* x = asInt(a)) {
        i64 lo, hi;
        srange(x, lo, hi);
        if(lo >= -mantLim(w) && hi <= mantLim(w)) {
            if(a->op == Op::SIToF || a->op == Op::UIToF) return mkIToF(x, w, true);
            return node(Op::NumF, w, x);
        }
    }
    // narrowing an exact widening
    if(a->op == Op::FConv && a->k[0]->width == w && w < a->width) return a->k[0];
    return node(Op::FConv, w, a);
}
Expr* mkFRound(Expr* a, u32 mode) {
    if(a->isConst()) {
        APFloat f = toF(constVal(a));
        f.roundToIntegral(rmode(mode));
        return mkConst(f.bitcastToAPInt());
    }
    if(asInt(a)) return a;
    return node(Op::FRound, a->width, a, nullptr, nullptr, mode);
}
Expr* mkFUF(u32 fn, Expr* a, Expr* b) {
    if(!b) b = mkConst(a->width, 0);
    if(a->isConst() && b->isConst()) return mkConst(foldUF(fn, constVal(a), constVal(b)));
    return node(Op::FUF, a->width, a, b, nullptr, fn);
}

// ---- variables ----
static std::unordered_map<u32, std::vector<u32>> g_vcache;
const std::vector<u32>& exprVars(Expr* root) {
    static const std::vector<u32> empty;
    if(root->vars) return *root->vars;
    if(root->isConst()) return empty;
    // iterative post order
    std::vector<Expr*> st{root};
    while(!st.empty()) {
        Expr* e = st.back();
        if(e->vars || e->isConst()) {
            st.pop_back();
            continue;
        }
        bool ready = true;
        for(int i = 0; i < e->nk; i++)
            if(!e->k[i]->vars && !e->k[i]->isConst()) st.push_back(e->k[i]), ready = false;
        if(!ready) continue;
        st.pop_back();
        if(e->op == Op::Var) {
            e->vars = new std::vector<u32>{e->aux};
            continue;
        }
        // share with a child when possible
        std::vector<u32>* best = nullptr;
        for(int i = 0; i < e->nk; i++)
            if(e->k[i]->vars && (!best || e->k[i]->vars->size() > best->size())) best = e->k[i]->vars;
        if(!best) {
            e->vars = new std::vector<u32>();
            continue;
        }
        std::vector<u32> r = *best;
        for(int i = 0; i < e->nk; i++) {
            auto* v = e->k[i]->vars;
            if(!v || v == best) continue;
            std::vector<u32> t;
            std::set_union(r.begin(), r.end(), v->begin(), v->end(), std::back_inserter(t));
            r.swap(t);
        }
        e->vars = r.size() == best->size() ? best : new std::vector<u32>(std::move(r));
    }
    return root->vars ? *root->vars : empty;
}

// ---- evaluation ----
static u64 g_gen = 1;
u64 newGen() { return ++g_gen; }

static bool wide(Expr* e) { return e->width > 64; }

APInt evalAP(Expr* e, const Model& m);
u64 evalU64(Expr* e, const Model& m) {
    if(e->isConst()) return e->v;
    if(e->egen == m.gen) return e->ev;
    u64 r = 0;
    u32 w = e->width;
    Expr *a = e->k[0], *b = e->k[1];
    switch(e->op) {
    case Op::Var: {
        auto it = m.vals.find(e->aux);
        r = it == m.vals.end() ? 0 : it->second.getZExtValue();
    } break;
    case Op::Add: case Op::Sub: case Op::Mul: case Op::UDiv: case Op::SDiv: case Op::URem:
    case Op::SRem: case Op::And: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr:
    case Op::AShr: r = foldBin(e->op, w, evalU64(a, m), evalU64(b, m)); break;
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
        if(wide(a)) r = foldBinAP(e->op, evalAP(a, m), evalAP(b, m)).getZExtValue();
        else r = foldBin(e->op, a->width, evalU64(a, m), evalU64(b, m));
        break;
    case Op::Concat: r = (evalU64(a, m) << b->width) | evalU64(b, m); break;
    case Op::Extract:
        if(wide(a)) r = evalAP(a, m).extractBits(w, e->aux).getZExtValue();
        else r = (evalU64(a, m) >> e->aux) & maskw(w);
        break;
    case Op::ZExt: r = evalU64(a, m); break;
    case Op::SExt: r = (u64)sx(evalU64(a, m), a->width) & maskw(w); break;
    case Op::Ite: r = evalU64(a, m) ? evalU64(b, m) : evalU64(e->k[2], m); break;
    default: r = evalAP(e, m).getZExtValue(); break;
    }
    e->egen = m.gen;
    e->ev = r;
    return r;
}
APInt evalAP(Expr* e, const Model& m) {
    if(e->isConst()) return constVal(e);
    if(e->egen == m.gen) return wide(e) ? *e->ebig : APInt(e->width, e->ev);
    Expr *a = e->k[0], *b = e->k[1];
    u32 w = e->width;
    APInt r(w, 0);
    switch(e->op) {
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem:
    case Op::FEq: case Op::FLt: case Op::FLe: case Op::FUno:
        r = foldF(e->op, evalAP(a, m), evalAP(b, m));
        break;
    case Op::FSqrt: r = foldFSqrt(evalAP(a, m)); break;
    case Op::FFma: {
        APFloat x = toF(evalAP(a, m));
        x.fusedMultiplyAdd(toF(evalAP(b, m)), toF(evalAP(e->k[2], m)),
                           llvm::RoundingMode::NearestTiesToEven);
        r = x.bitcastToAPInt();
    } break;
    case Op::FToSI: r = foldFToI(evalAP(a, m), w, true); break;
    case Op::FToUI: r = foldFToI(evalAP(a, m), w, false); break;
    case Op::SIToF: r = foldIToF(evalAP(a, m), w, true); break;
    case Op::NumF:
        r = scalbn(toF(foldIToF(evalAP(a, m), w, true)), -(int)e->aux, llvm::RoundingMode::NearestTiesToEven)
                .bitcastToAPInt();
        break;
    case Op::UIToF: r = foldIToF(evalAP(a, m), w, false); break;
    case Op::FConv: r = foldFConv(evalAP(a, m), w); break;
    case Op::FRound: {
        APFloat f = toF(evalAP(a, m));
        f.roundToIntegral(rmode(e->aux));
        r = f.bitcastToAPInt();
    } break;
    case Op::FUF: r = foldUF(e->aux, evalAP(a, m), evalAP(b, m)); break;
    default:
        if(!wide(e)) return APInt(w, evalU64(e, m));
        switch(e->op) {
        case Op::Var: {
            auto it = m.vals.find(e->aux);
            if(it != m.vals.end()) r = it->second;
        } break;
        case Op::Concat:
            r = evalAP(a, m).zext(w).shl(b->width) | evalAP(b, m).zext(w);
            break;
        case Op::Extract: r = evalAP(a, m).extractBits(w, e->aux); break;
        case Op::ZExt: r = evalAP(a, m).zext(w); break;
        case Op::SExt: r = evalAP(a, m).sext(w); break;
        case Op::Ite: r = evalU64(a, m) ? evalAP(b, m) : evalAP(e->k[2], m); break;
        default: r = foldBinAP(e->op, evalAP(a, m), evalAP(b, m)); break;
        }
    }
    e->egen = m.gen;
    if(wide(e)) {
        if(!e->ebig) e->ebig = new APInt(r);
        else *e->ebig = r;
    } else e->ev = r.getZExtValue();
    return r;
}

std::string exprStr(Expr* e, int depth) {
    static const char* names[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","=","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","frem","fsqrt","ffma","feq","flt","fle","funo","ftosi","ftoui","sitof","uitof","fconv","fround","numf","fuf"};
    if(e->isConst()) {
        if(e->width <= 64) return std::to_string(e->v) + ":" + std::to_string(e->width);
        return "big:" + std::to_string(e->width);
    }
    if(e->op == Op::Var) return g_vars[e->aux].name;
    if(depth == 0) return "...";
    std::string s = std::string("(") + names[(int)e->op];
    if(e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
    for(int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], depth - 1);
    return s + ")";
}
