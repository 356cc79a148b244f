// Hash-consed bit-vector / IEEE-754 expression DAG used by the symbolic executor.
#pragma once
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
using llvm::APFloat;
using llvm::APInt;

enum class Op : u8 {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite,
    Eq, Ult, Ule, Slt, Sle,
    // IEEE operations on bit patterns (width 32 or 64)
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma,
    FEq, FLt, FLe, FUno,
    FToSI, FToUI, SIToF, UIToF, FConv, FRound,
    // float whose numeric value is exactly the signed integer operand, but whose zero sign is
    // unspecified (result of exact products); may only be consumed by exact arithmetic/comparison
    NumF,
    // uninterpreted function of float args (sin, cos, pow...): aux = function id
    FUF,
};

struct Expr {
    Op op;
    u8 nk = 0;
    u32 width = 0;
    u32 id = 0;
    u32 aux = 0; // Extract: low bit; Var: var id; FRound: mode; FUF: function id
    Expr* k[3] = {nullptr, nullptr, nullptr};
    u64 v = 0;            // Const with width <= 64
    APInt* big = nullptr; // Const with width > 64
    u64 ulo = 0, uhi = ~(u64)0; // unsigned range, width <= 64 only
    // evaluation memo
    u64 egen = 0;
    u64 ev = 0;
    APInt* ebig = nullptr;
    // variables (sorted ids), computed lazily
    std::vector<u32>* vars = nullptr;

    bool isConst() const { return op == Op::Const; }
    bool isZero() const { return isConst() && (width <= 64 ? v == 0 : big->isZero()); }
    bool isTrue() const { return isConst() && width == 1 && v == 1; }
    bool isFalse() const { return isConst() && width == 1 && v == 0; }
};

struct VarInfo {
    std::string name;
    u32 width;
    Expr* e;
    bool input;
};

extern std::vector<VarInfo> g_vars;
extern u64 g_numf_leaks;

inline u64 maskw(u32 w) { return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1); }

Expr* mkConst(u32 w, u64 v);
Expr* mkConst(const APInt& v);
Expr* mkTrue();
Expr* mkFalse();
inline Expr* mkBool(bool b) { return b ? mkTrue() : mkFalse(); }
Expr* mkVar(const std::string& name, u32 w, bool input);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a); // bitwise not (any width)
Expr* mkNeg(Expr* a);
Expr* mkExtract(Expr* a, u32 lo, u32 w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, u32 w);
Expr* mkSExt(Expr* a, u32 w);
Expr* mkTruncOrZExt(Expr* a, u32 w);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
inline Expr* mkNe(Expr* a, Expr* b) { return mkNot(mkEq(a, b)); }
Expr* mkUlt(Expr* a, Expr* b);
Expr* mkUle(Expr* a, Expr* b);
Expr* mkSlt(Expr* a, Expr* b);
Expr* mkSle(Expr* a, Expr* b);
inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(Op::And, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(Op::Or, a, b); }

Expr* mkFBin(Op op, Expr* a, Expr* b);
Expr* mkFNeg(Expr* a);
Expr* mkFAbs(Expr* a);
Expr* mkFSqrt(Expr* a);
Expr* mkFFma(Expr* a, Expr* b, Expr* c);
Expr* mkFCmp(Op op, Expr* a, Expr* b); // FEq FLt FLe FUno
Expr* mkFToI(Expr* a, u32 w, bool sgn);
Expr* mkIToF(Expr* a, u32 w, bool sgn);
Expr* mkFConv(Expr* a, u32 w);
enum { RND_RNE = 0, RND_FLOOR = 1, RND_CEIL = 2, RND_TRUNC = 3, RND_RNA = 4 };
Expr* mkFRound(Expr* a, u32 mode);
Expr* mkFUF(u32 fn, Expr* a, Expr* b);
Expr* asInt(Expr* f); // exact integer value of a float expression, or null

APInt constVal(const Expr* e);
const std::vector<u32>& exprVars(Expr* e);

// Models: value per variable id (missing = 0)
struct Model {
    std::unordered_map<u32, APInt> vals;
    u64 gen = 0; // unique per model content, for evaluation memo
};
u64 newGen();
u64 evalU64(Expr* e, const Model& m); // width <= 64
APInt evalAP(Expr* e, const Model& m);
std::string exprStr(Expr* e, int depth = 6);
u64 exprCount();
bool srange(Expr* e, i64& lo, i64& hi);
const llvm::fltSemantics& fsem(u32 w);
