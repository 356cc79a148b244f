// vx: * jobs=2 time=400 time_t=800
// bounds: all bit patterns in all four lanes of both operands (not-a-number excluded for minimum and maximum, whose result is then unspecified); dot products over all integer-valued lanes of 10 bits, where they are exact; equality over all bit patterns
// outside: the MSVC implementation; rounding of dot products whose terms are not exact
#include "fp.h"
#include <rpp/simd.h>
using rpp::SIMD::F32x4;

struct L {
    f32 v[4];
};
static F32x4 make(const L& l) {
    return F32x4::set(l.v[0], l.v[1], l.v[2], l.v[3]);
}
static void lanes(F32x4 r, const L& want, const char* what) {
    f32 out[4];
    __builtin_memcpy(out, &r, 16);
    bool ok = true;
    for(int i = 0; i < 4; i++) ok = ok & same(out[i], want.v[i]);
    vx_check(ok, what);
}
template<typename F>
static L each(const L& a, const L& b, F f) {
    L r;
    for(int i = 0; i < 4; i++) r.v[i] = f(a.v[i], b.v[i]);
    return r;
}
static L any4(bool number) {
    L l;
    for(int i = 0; i < 4; i++) l.v[i] = number ? any_number("lane") : any_f32("lane");
    return l;
}
HARNESS(build) {
    L a = any4(false);
    F32x4 r = make(a);
    lanes(r, a, "lanes are set in order");
    for(int i = 0; i < 4; i++) CHECKM(bits_of(r.data[i]) == bits_of(a.v[i]), "lane access");
    f32 x = a.v[0];
    lanes(F32x4::set1(x), L{x, x, x, x}, "broadcast");
    lanes(F32x4::zero(), L{0, 0, 0, 0}, "zero");
    lanes(F32x4::one(), L{1, 1, 1, 1}, "one");
}
HARNESS(arithmetic) {
    L a = any4(false), b = any4(false);
    F32x4 x = make(a), y = make(b);
    lanes(F32x4::add(x, y), each(a, b, [](f32 p, f32 q) { return p + q; }), "add");
    lanes(F32x4::sub(x, y), each(a, b, [](f32 p, f32 q) { return p - q; }), "subtract");
    lanes(F32x4::mul(x, y), each(a, b, [](f32 p, f32 q) { return p * q; }), "multiply");
    lanes(F32x4::div(x, y), each(a, b, [](f32 p, f32 q) { return p / q; }), "divide");
    lanes(x, a, "operands are unchanged");
    lanes(y, b, "operands are unchanged");
}
HARNESS(unary) {
    L a = any4(false);
    F32x4 x = make(a);
    lanes(F32x4::floor(x), each(a, a, [](f32 p, f32) { return __builtin_floorf(p); }), "floor");
    lanes(F32x4::ceil(x), each(a, a, [](f32 p, f32) { return __builtin_ceilf(p); }), "ceiling");
    L m = each(a, a, [](f32 p, f32) { return __builtin_fabsf(p); });
    lanes(F32x4::abs(x), m, "absolute value");
}
HARNESS(order) {
    L a = any4(true), b = any4(true);
    F32x4 x = make(a), y = make(b);
    lanes(F32x4::min(x, y), each(a, b, [](f32 p, f32 q) { return p < q ? p : q; }), "minimum");
    lanes(F32x4::max(x, y), each(a, b, [](f32 p, f32 q) { return p < q ? q : p; }), "maximum");
}
HARNESS(equality) {
    L a = any4(false), b = any4(false);
    bool eq = F32x4::cmpeq_all(make(a), make(b));
    bool want = (a.v[0] == b.v[0]) & (a.v[1] == b.v[1]) & (a.v[2] == b.v[2]) & (a.v[3] == b.v[3]);
    CHECKM(eq == want, "all lanes equal");
}
HARNESS(dot) {
    L a, b;
    for(int i = 0; i < 4; i++) a.v[i] = vx_f32i("a", 10), b.v[i] = vx_f32i("b", 10);
    f32 want = a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2] + a.v[3] * b.v[3];
    CHECKM(F32x4::dp(make(a), make(b)) == want, "dot product");
}
