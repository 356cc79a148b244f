// vx: * jobs=8 time=400 time_t=800
// bounds: all values of both unsigned widths (32 and 64 bit) for power-of-two, logarithm, bit-count and power-of-two alignment helpers; alignments 1..40 (thorough 1..100) of every value in windows of 2^12 (thorough 2^16) values at the bottom, middle and top of each range; minimum, maximum and clamp over all values of every integer width, and lists of 0..4; integer powers with every exponent 0..9 and every base of 6 bits (8-bit and 64-bit arithmetic); byte sizes up to 2^30 units
// outside: inputs whose exact result does not fit the type (documented domain limits of round-up and alignment), alignment 0, logarithm of 0, absolute value of the most negative integer
#include "model.h"
using namespace rpp::Math;

template<typename U>
static U any(const char* n) {
    return (U)vx_bits(n, (int)sizeof(U) * 8);
}
template<typename U>
static void bits() {
    constexpr U W = sizeof(U) * 8, TOP = U(1) << (W - 1);
    U x = any<U>("x");
    // definitions by scanning the bits
    U ones = 0, high = 0;
    for(U i = 0; i < W; i++) {
        ones += (x >> i) & 1;
        high = ((x >> i) & 1) ? i + 1 : high; // position of the highest set bit + 1
    }
    CHECKM(popcount(x) == ones, "number of set bits");
    CHECKM(ctlz(x) == W - high, "number of leading zeros (the width for 0)");
    if(x) {
        CHECKM(log2(x) == high - 1, "logarithm rounded down");
        U p = prev_pow2(x);
        CHECKM((p & (p - 1)) == 0 && p != 0, "prev_pow2 is a power of two");
        CHECKM(p <= x && x - p < p, "prev_pow2 is the greatest power of two not above");
        vx_reach("positive");
        if(x <= TOP) {
            U n = next_pow2(x);
            CHECKM((n & (n - 1)) == 0 && n != 0, "next_pow2 is a power of two");
            CHECKM(n >= x && n / 2 < x, "next_pow2 is the least power of two not below");
            if(n == x) vx_reach("already a power");
        }
    } else {
        CHECKM(prev_pow2(x) == 0, "no power of two is at most 0");
    }
}
HARNESS(bits32) {
    bits<u32>();
}
HARNESS(bits64) {
    bits<u64>();
}
template<typename U>
static void pow2_alignment() {
    U x = any<U>("x");
    U a = U(1) << vx_choose("shift", (int)sizeof(U) * 8);
    U d = align_down_pow2(x, a);
    CHECKM(d <= x && x - d < a && (d & (a - 1)) == 0, "align_down_pow2");
    if(x <= U(0) - a) { // the exact result fits
        U u = align_pow2(x, a);
        CHECKM(u >= x && u - x < a && (u & (a - 1)) == 0, "align_pow2");
        vx_reach("up");
    }
}
HARNESS(align_pow2_32) {
    pow2_alignment<u32>();
}
HARNESS(align_pow2_64) {
    pow2_alignment<u64>();
}
template<typename U>
static void alignment() {
    constexpr int WIN = QT(12, 16);
    U a = (U)vx_choose("alignment", QT(40, 100)) + 1;
    U w = (U)vx_bits("x", WIN);
    // from both ends and the middle of the range
    U base[] = {0, (U(1) << (sizeof(U) * 8 - 1)) - (U(1) << (WIN - 1)), U(0) - (U(1) << WIN)};
    int k = vx_choose("window", 3);
    U x = base[k] + w;
    U low = base[k] / a * a; // a multiple of a, computed on constants
    U d = align_down(x, a);
    CHECKM(d <= x && x - d < a && (unsigned)(d - low) % (unsigned)a == 0 && d >= low, "align_down gives the multiple below");
    if(d == x) CHECKM(align(x, a) == x, "a multiple is aligned");
    else if(d <= U(-1) - a) {
        CHECKM(align(x, a) == d + a, "align gives the multiple above");
        vx_reach("rounded up");
    }
}
HARNESS(align_32) {
    alignment<u32>();
}
HARNESS(align_64) {
    alignment<u64>();
}
template<typename T>
static void order() {
    T a = any<T>("a"), b = any<T>("b"), c = any<T>("c");
    CHECKM(min(a, b) == (a < b ? a : b), "min");
    CHECKM(max(a, b) == (a < b ? b : a), "max");
    T l = min({a, b, c}), h = max({a, b, c});
    CHECKM(l <= a && l <= b && l <= c && (l == a || l == b || l == c), "least of a list");
    CHECKM(h >= a && h >= b && h >= c && (h == a || h == b || h == c), "greatest of a list");
    CHECKM(min({a}) == a && max({a}) == a, "list of one");
    CHECKM(min<T>({}) == Limits<T>::max() && max<T>({}) == Limits<T>::min(), "neutral value of an empty list");
    CHECKM(Limits<T>::min() <= a && a <= Limits<T>::max(), "limits enclose every value");
    if(b <= c) CHECKM(clamp(a, b, c) == (a < b ? b : a > c ? c : a), "clamp");
}
HARNESS(ordering) {
    switch(vx_choose("type", 8)) {
    case 0: order<i8>(); break;
    case 1: order<u8>(); break;
    case 2: order<i16>(); break;
    case 3: order<u16>(); break;
    case 4: order<i32>(); break;
    case 5: order<u32>(); break;
    case 6: order<i64>(); break;
    case 7: order<u64>(); break;
    }
    CHECKM(Limits<u64>::max() == ~0ul && Limits<i64>::min() == (i64)(1ul << 63) && Limits<i32>::min() == (i32)0x80000000u, "limits");
}
HARNESS(sizes) {
    u64 n = vx_bits("n", 30);
    CHECKM(KB(n) == n << 10, "kilobytes");
    CHECKM(MB(n) == n << 20, "megabytes");
    CHECKM(GB(n) == n << 30, "gigabytes");
}
HARNESS(absolute) {
    i32 a = any<i32>("a");
    i64 b = any<i64>("b");
    vx_assume(a != Limits<i32>::min() && b != Limits<i64>::min());
    CHECKM(rpp::Math::abs(a) == (a < 0 ? -a : a), "32-bit absolute value");
    CHECKM(rpp::Math::abs(b) == (b < 0 ? -b : b), "64-bit absolute value");
}
HARNESS(powers) {
    int e = vx_choose("exponent", 10);
    u64 b = vx_bits("base", 6), r = 1;
    for(int i = 0; i < e; i++) r *= b;
    CHECKM(rpp::Math::pow<u64>(b, (u64)e) == r, "power of an unsigned base");
    i64 s = (i64)b - 32, t = 1;
    for(int i = 0; i < e; i++) t *= s;
    CHECKM(rpp::Math::pow<i64>(s, (i64)e) == t, "power of a signed base");
    u8 c = 1;
    for(int i = 0; i < e; i++) c = (u8)(c * (u8)b);
    CHECKM(rpp::Math::pow<u8>((u8)b, (u8)e) == c, "power in 8-bit arithmetic");
}
