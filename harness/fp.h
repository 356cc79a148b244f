// Arbitrary floats and comparison of float results.
#pragma once
#include "model.h"
#include <rpp/vmath.h>
using rpp::f32;
using rpp::f64;

inline u32 bits_of(f32 f) {
    u32 u;
    __builtin_memcpy(&u, &f, 4);
    return u;
}
inline f32 any_f32(const char* n = "f") {
    u32 u = (u32)vx_bits(n, 32);
    f32 f;
    __builtin_memcpy(&f, &u, 4);
    return f;
}
inline f32 any_number(const char* n = "f") { // anything but not-a-number
    f32 f = any_f32(n);
    vx_assume(f == f);
    return f;
}
// the same number (zeros alike), or both not numbers
inline bool same(f32 a, f32 b) {
    if(vx_same(bits_of(a), bits_of(b))) return true;
    return (a == b) | ((a != a) & (b != b));
}
inline bool same(i32 a, i32 b) {
    return a == b;
}
inline bool same(u32 a, u32 b) {
    return a == b;
}
// equal up to rounding of the last places
inline bool near(f32 a, f32 b) {
    if(vx_same(bits_of(a), bits_of(b))) return true;
    f32 d = __builtin_fabsf(a - b), t = __builtin_fabsf(b) * 1e-6f;
    return (d <= t) | ((a != a) & (b != b));
}
