// vx: * jobs=4 time=400 time_t=800
// bounds: all finite single-precision bit patterns (and double precision for the wrappers) for absolute value, sign, floor, ceiling, rounding, minimum, maximum, clamp, fractional part; interpolation over all integer end points of 10 bits with integer parameters, and of 4 bits (thorough 8) with parameters that are multiples of 1/8 in [0,1]; smoothstep over edges of 10-bit integers; the argument wiring of every trigonometric, exponential and power wrapper for all bit patterns
// outside: the accuracy of the C library functions behind the wrappers; not-a-number and infinite inputs of the ordering helpers
// assume: C library functions are uninterpreted (equal inputs give equal outputs)
#include "model.h"
#include <math.h>
namespace M = rpp::Math;

static u32 bits_of(f32 f) {
    u32 u;
    __builtin_memcpy(&u, &f, 4);
    return u;
}
static u64 bits_of(f64 f) {
    u64 u;
    __builtin_memcpy(&u, &f, 8);
    return u;
}
template<typename F>
static F any(const char* n, bool finite = true) {
    F f;
    if constexpr(sizeof(F) == 4) {
        u32 u = (u32)vx_bits(n, 32);
        __builtin_memcpy(&f, &u, 4);
    } else {
        u64 u = vx_bits(n, 64);
        __builtin_memcpy(&f, &u, 8);
    }
    if(finite) vx_assume(__builtin_isfinite(f));
    return f;
}
template<typename F>
static void sign_abs() {
    F x = any<F>("x");
    F a = M::abs(x);
    CHECKM(bits_of(a) == (bits_of(x) << 1) >> 1, "absolute value clears the sign and nothing else");
    F s = M::sign(x);
    CHECKM(x > 0 ? s == F(1) : x < 0 ? s == F(-1) : s == F(0), "sign");
}
HARNESS(signs) {
    sign_abs<f32>();
    sign_abs<f64>();
}
// r is integral: at magnitudes of 2^mantissa and more every value is
template<typename F>
static bool integral(F r) {
    constexpr F BIG = sizeof(F) == 4 ? F(8388608.0) : F(4503599627370496.0);
    return (r >= BIG) | (r <= -BIG) | ((F)(i64)r == r);
}
template<typename F>
static void rounding() {
    F x = any<F>("x");
    constexpr F BIG = sizeof(F) == 4 ? F(8388608.0) : F(4503599627370496.0);
    F f = M::floor(x), c = M::ceil(x), r = M::round(x);
    bool big = (x >= BIG) | (x <= -BIG);
    if(big) {
        CHECKM((f == x) & (c == x) & (r == x), "large values are integral already");
        return;
    }
    CHECKM(integral(f) & integral(c) & integral(r), "rounding gives integral values");
    CHECKM((f <= x) & (f + F(1) > x), "floor is the integer below");
    CHECKM((c >= x) & (c - F(1) < x), "ceiling is the integer above");
    CHECKM((r == f) | (r == c), "rounding gives an adjacent integer");
    F lo = x - f, hi = c - x; // exact
    if(lo < hi) CHECKM(r == f, "rounds to the nearest below");
    if(lo > hi) CHECKM(r == c, "rounds to the nearest above");
    if(lo == hi && f != c) CHECKM(r == (x < 0 ? f : c), "halves round away from zero");
    vx_reach("ordinary");
}
HARNESS(rounding32) {
    rounding<f32>();
}
HARNESS(rounding64) { // double precision: equal to the IEEE operations
    f64 x = any<f64>("x");
    CHECKM(M::floor(x) == __builtin_floor(x), "floor in double precision");
    CHECKM(M::ceil(x) == __builtin_ceil(x), "ceiling in double precision");
    CHECKM(M::round(x) == __builtin_round(x), "rounding in double precision");
    CHECKM(M::sqrt(x) == __builtin_sqrt(x) || x < 0, "square root in double precision");
}
template<typename F>
static void ordering() {
    F a = any<F>("a"), b = any<F>("b"), c = any<F>("c");
    F lo = M::min(a, b), hi = M::max(a, b);
    CHECKM((lo <= a) & (lo <= b) & ((lo == a) | (lo == b)), "min");
    CHECKM((hi >= a) & (hi >= b) & ((hi == a) | (hi == b)), "max");
    F l3 = M::min({a, b, c}), h3 = M::max({a, b, c});
    CHECKM((l3 <= a) & (l3 <= b) & (l3 <= c) & ((l3 == a) | (l3 == b) | (l3 == c)), "least of a list");
    CHECKM((h3 >= a) & (h3 >= b) & (h3 >= c) & ((h3 == a) | (h3 == b) | (h3 == c)), "greatest of a list");
    CHECKM((Limits<F>::min() <= a) & (a <= Limits<F>::max()), "limits enclose every finite value");
    if(b <= c) {
        F k = M::clamp(a, b, c);
        CHECKM(a < b ? k == b : a > c ? k == c : k == a, "clamp");
    }
}
HARNESS(ordering32) {
    ordering<f32>();
}
HARNESS(ordering64) {
    ordering<f64>();
}
HARNESS(fraction) {
    f32 x = any<f32>("x");
    vx_assume(x > -9.0e18f && x < 9.0e18f);
    f32 f = M::frac(x);
    f32 whole = x < 0 ? __builtin_ceilf(x) : __builtin_floorf(x);
    CHECKM(f == x - whole, "what is left of the whole part");
    CHECKM((f > -1.0f) & (f < 1.0f), "a fraction is less than one");
}
HARNESS(interpolation) {
    f32 a = vx_f32i("a", 10), b = vx_f32i("b", 10), t = vx_f32i("t", 3);
    CHECKM(M::lerp(a, b, t) == a + (b - a) * t, "linear interpolation (exact on integers, extrapolating)");
    f64 c = a, d = b, u = t;
    CHECKM(M::lerp(c, d, u) == c + (d - c) * u, "linear interpolation in double precision");
    CHECKM(M::lerp(a, b, 0.0f) == a && M::lerp(a, b, 1.0f) == b, "the ends");
}
HARNESS(interpolation_inside) {
    f32 a = vx_f32i("a", QT(4, 8)), b = vx_f32i("b", QT(4, 8));
    int k = vx_choose("eighths", 9);
    f32 r = M::lerp(a, b, (f32)k / 8.0f);
    CHECKM(r * 8.0f == a * (f32)(8 - k) + b * (f32)k, "linear interpolation (exact on these inputs)");
}
HARNESS(smooth) {
    f32 e0 = vx_f32i("e0", 10);
    int w = 1 << vx_choose("width", 5); // edge distance
    f32 e1 = e0 + (f32)w;
    f32 x = vx_f32i("x", 11);
    f32 r = M::smoothstep(e0, e1, x);
    if(x <= e0) CHECKM(r == 0.0f, "0 up to the first edge");
    else if(x >= e1) CHECKM(r == 1.0f, "1 from the second edge");
    else {
        f32 d = x - e0, fw = (f32)w; // 3 (d/w)^2 - 2 (d/w)^3, exact
        CHECKM(r * fw * fw * fw == d * d * (3.0f * fw - 2.0f * d), "cubic in between");
        vx_reach("between");
    }
}
HARNESS(angles) {
    f32 d = vx_f32i("degrees", 10);
    f32 r = M::radians(d);
    f64 exact = (f64)d * 3.14159265358979323846 / 180.0, err = (f64)r - exact;
    f64 tol = __builtin_fabs(exact) * 3e-7;
    CHECKM((err <= tol) & (err >= -tol), "radians");
    f32 back = M::degrees(d);
    exact = (f64)d * 180.0 / 3.14159265358979323846, err = (f64)back - exact;
    tol = __builtin_fabs(exact) * 3e-7;
    CHECKM((err <= tol) & (err >= -tol), "degrees");
}
HARNESS(wrappers) {
    f32 x = any<f32>("x", false), y = any<f32>("y", false);
#define ONE(g) CHECKM(bits_of(M::g(x)) == bits_of(::g##f(x)), #g " of a float")
    ONE(cos); ONE(sin); ONE(tan); ONE(acos); ONE(asin); ONE(atan); ONE(exp); ONE(sqrt);
    CHECKM(bits_of(M::atan2(y, x)) == bits_of(::atan2f(y, x)), "atan2 of floats");
    CHECKM(bits_of(M::pow(x, y)) == bits_of(::powf(x, y)), "pow of floats");
    CHECKM(bits_of(M::hypot(x, y)) == bits_of(::hypotf(x, y)), "hypot of floats");
    f64 v = any<f64>("v", false), w = any<f64>("w", false);
#define TWO(f) CHECKM(bits_of(M::f(v)) == bits_of(::f(v)), #f " of a double")
    TWO(cos); TWO(sin); TWO(tan); TWO(acos); TWO(asin); TWO(atan); TWO(exp); TWO(sqrt);
    CHECKM(bits_of(M::atan2(w, v)) == bits_of(::atan2(w, v)), "atan2 of doubles");
    CHECKM(bits_of(M::pow(v, w)) == bits_of(::pow(v, w)), "pow of doubles");
    CHECKM(bits_of(M::hypot(v, w)) == bits_of(::hypot(v, w)), "hypot of doubles");
}
