// vx: * jobs=2 time=400 time_t=800
// bounds: dimensions 2, 3, 4 and 5 of 32-bit floats and signed and unsigned integers; component-wise operations over all bit patterns of every component (division by zero and not-a-number in minima excluded); sums of products over all integer-valued floats of 9 bits, where they are exact, and all 32-bit integers (wrapping); lengths and normalisation over integer components of 6 bits
// outside: rounding of inexact sums of products; other component types
#include "fp.h"
using namespace rpp::Math;

template<typename T>
static T any(const char* n = "c") {
    if constexpr(Same<T, f32>) return any_f32(n);
    else return (T)vx_bits(n, 32);
}
template<typename T, u64 N>
struct A {
    T v[N];
};
template<typename T, u64 N>
static A<T, N> anyN() {
    A<T, N> a;
    for(u64 i = 0; i < N; i++) a.v[i] = any<T>();
    return a;
}
template<typename T, u64 N>
static Vect<T, N> make(const A<T, N>& a) {
    Vect<T, N> r;
    for(u64 i = 0; i < N; i++) r[i] = a.v[i];
    return r;
}
template<typename T, u64 N>
static void is(Vect<T, N> r, const A<T, N>& want, const char* what) {
    bool ok = true;
    for(u64 i = 0; i < N; i++) ok = ok & same(r[i], want.v[i]);
    vx_check(ok, what);
}
template<typename T, u64 N, typename F>
static A<T, N> each(const A<T, N>& a, const A<T, N>& b, F f) {
    A<T, N> r;
    for(u64 i = 0; i < N; i++) r.v[i] = f(a.v[i], b.v[i]);
    return r;
}
template<typename T>
static T w_add(T a, T b) {
    if constexpr(Same<T, i32>) return (i32)((u32)a + (u32)b);
    else return a + b;
}
template<typename T>
static T w_sub(T a, T b) {
    if constexpr(Same<T, i32>) return (i32)((u32)a - (u32)b);
    else return a - b;
}
template<typename T>
static T w_mul(T a, T b) {
    if constexpr(Same<T, i32>) return (i32)((u32)a * (u32)b);
    else return a * b;
}
template<typename T>
static T w_div(T a, T b) {
    return a / b;
}
template<typename T>
static bool fits(T a, T b, int op) { // signed overflow is outside the domain
    if constexpr(Same<T, i32>) {
        i64 r = op == 0 ? (i64)a + b : op == 1 ? (i64)a - b : op == 2 ? (i64)a * b : 0;
        if(op == 3) return b != 0 && !(a == Limits<i32>::min() && b == -1);
        return r >= Limits<i32>::min() && r <= Limits<i32>::max();
    } else if constexpr(Same<T, u32>) return op != 3 || b != 0;
    else return true;
}
template<typename T, u64 N>
static void arithmetic() {
    using V = Vect<T, N>;
    A<T, N> a = anyN<T, N>(), b = anyN<T, N>(), s;
    for(u64 i = 0; i < N; i++) s.v[i] = b.v[0];
    const V x = make(a), y = make(b);
    const T k = b.v[0];
    int op = vx_choose("op", 4);
    for(u64 i = 0; i < N; i++) vx_assume(fits(a.v[i], b.v[i], op) & fits(a.v[i], k, op));
    auto f = [op](T p, T q) {
        return op == 0 ? w_add(p, q) : op == 1 ? w_sub(p, q) : op == 2 ? w_mul(p, q) : w_div(p, q);
    };
    A<T, N> vv = each(a, b, f), vs = each(a, s, f);
    V c = x, d = x, r, rs;
    switch(op) {
    case 0: r = x + y; rs = x + k; c += y; d += k; break;
    case 1: r = x - y; rs = x - k; c -= y; d -= k; break;
    case 2: r = x * y; rs = x * k; c *= y; d *= k; break;
    case 3: r = x / y; rs = x / k; c /= y; d /= k; break;
    }
    is(r, vv, "vector and vector");
    is(rs, vs, "vector and scalar");
    is(c, vv, "compound assignment of a vector");
    is(d, vs, "compound assignment of a scalar");
    is(x, a, "operands are unchanged");
    is(y, b, "operands are unchanged");
}
template<typename T, u64 N>
static void scalar_first() {
    using V = Vect<T, N>;
    A<T, N> a = anyN<T, N>(), s;
    T k = any<T>("scalar");
    for(u64 i = 0; i < N; i++) s.v[i] = k;
    const V x = make(a);
    int op = vx_choose("op", 4);
    for(u64 i = 0; i < N; i++) vx_assume(fits(k, a.v[i], op));
    auto f = [op](T p, T q) {
        return op == 0 ? w_add(p, q) : op == 1 ? w_sub(p, q) : op == 2 ? w_mul(p, q) : w_div(p, q);
    };
    V r = op == 0 ? k + x : op == 1 ? k - x : op == 2 ? k * x : k / x;
    is(r, each(s, a, f), "scalar and vector");
    is(x, a, "operands are unchanged");
}
template<typename T, u64 N>
static void structure() {
    using V = Vect<T, N>;
    A<T, N> a = anyN<T, N>(), b = anyN<T, N>();
    V x = make(a), y = make(b);
    is(V{}, A<T, N>{}, "default vector is zero");
    A<T, N> k;
    for(u64 i = 0; i < N; i++) k.v[i] = a.v[0];
    is(V{a.v[0]}, k, "broadcast");
    bool eq = true;
    for(u64 i = 0; i < N; i++) eq = eq & (a.v[i] == b.v[i]);
    CHECKM((x == y) == eq, "equality");
    CHECKM((x != y) == !eq, "inequality");
    u64 n = 0;
    bool ok = true;
    for(const T& c : x) ok = ok & same(c, a.v[n++]);
    CHECKM(ok && n == N, "iteration");
    const V cx = x;
    n = 0;
    for(const T& c : cx) ok = ok & same(c, a.v[n++]);
    CHECKM(ok && n == N, "iteration of a constant vector");
    u64 j = (u64)vx_choose("index", (int)N);
    x[j] = b.v[j];
    a.v[j] = b.v[j];
    is(x, a, "write by index");
    V z{y};
    is(z, b, "copy");
    z = x;
    is(z, a, "copy assignment");
}
template<typename T, u64 N>
static void ordering() {
    using V = Vect<T, N>;
    A<T, N> a = anyN<T, N>(), b = anyN<T, N>();
    if constexpr(Same<T, f32>)
        for(u64 i = 0; i < N; i++) vx_assume((a.v[i] == a.v[i]) & (b.v[i] == b.v[i]));
    V x = make(a), y = make(b);
    // r is one of the two and no more than either (comparisons only: no rounding)
    auto lo = [](T r, T p, T q) { return ((r == p) | (r == q)) & (r <= p) & (r <= q); };
    auto hi = [](T r, T p, T q) { return ((r == p) | (r == q)) & (r >= p) & (r >= q); };
    V mn = rpp::Math::min(x, y), mx = rpp::Math::max(x, y);
    for(u64 i = 0; i < N; i++) {
        CHECKM(lo(mn[i], a.v[i], b.v[i]), "minimum of vectors");
        CHECKM(hi(mx[i], a.v[i], b.v[i]), "maximum of vectors");
    }
    T l = x.min(), h = x.max();
    bool lin = false, hin = false, ll = true, hh = true;
    for(u64 i = 0; i < N; i++) {
        lin = lin | (l == a.v[i]), hin = hin | (h == a.v[i]);
        ll = ll & (l <= a.v[i]), hh = hh & (h >= a.v[i]);
    }
    CHECKM(lin & ll, "least component");
    CHECKM(hin & hh, "greatest component");
}
template<typename T, u64 N>
static void clamping() {
    using V = Vect<T, N>;
    A<T, N> a = anyN<T, N>(), b = anyN<T, N>(), c = anyN<T, N>();
    for(u64 i = 0; i < N; i++) vx_assume((a.v[i] == a.v[i]) & (b.v[i] <= c.v[i]));
    V r = rpp::Math::clamp(make(a), make(b), make(c));
    for(u64 i = 0; i < N; i++) {
        bool in = (r[i] >= b.v[i]) & (r[i] <= c.v[i]);
        bool which = (r[i] == a.v[i]) | ((a.v[i] < b.v[i]) & (r[i] == b.v[i])) | ((a.v[i] > c.v[i]) & (r[i] == c.v[i]));
        CHECKM(in & which, "clamp");
    }
}
template<typename T, u64 N>
static void unary() {
    using V = Vect<T, N>;
    A<T, N> a = anyN<T, N>();
    if constexpr(Same<T, i32>)
        for(u64 i = 0; i < N; i++) vx_assume(a.v[i] != Limits<i32>::min());
    V x = make(a);
    if constexpr(!Same<T, u32>) {
        A<T, N> m = each(a, a, [](T p, T) { return p < 0 ? -p : p; });
        A<T, N> neg = each(a, a, [](T p, T) { return -p; });
        is(x.abs(), m, "absolute value");
        is(rpp::Math::abs(x), m, "absolute value (free)");
        is(-x, neg, "negation");
    }
    if constexpr(Same<T, f32>) {
        is(x.floor(), each(a, a, [](f32 p, f32) { return __builtin_floorf(p); }), "floor");
        is(x.ceil(), each(a, a, [](f32 p, f32) { return __builtin_ceilf(p); }), "ceiling");
    }
    is(x, a, "operand is unchanged");
}
HARNESS(arithmetic_f) {
    switch(vx_choose("dim", 4)) {
    case 0: arithmetic<f32, 2>(); break;
    case 1: arithmetic<f32, 3>(); break;
    case 2: arithmetic<f32, 4>(); break;
    case 3: arithmetic<f32, 5>(); break;
    }
}
HARNESS(arithmetic_i) {
    switch(vx_choose("dim", 4)) {
    case 0: arithmetic<i32, 2>(); break;
    case 1: arithmetic<i32, 3>(); break;
    case 2: arithmetic<u32, 3>(); break;
    case 3: arithmetic<u32, 4>(); break;
    }
}
HARNESS(scalar_first_f) {
    switch(vx_choose("dim", 4)) {
    case 0: scalar_first<f32, 2>(); break;
    case 1: scalar_first<f32, 3>(); break;
    case 2: scalar_first<f32, 4>(); break;
    case 3: scalar_first<f32, 5>(); break;
    }
}
HARNESS(scalar_first_i) {
    switch(vx_choose("dim", 4)) {
    case 0: scalar_first<i32, 2>(); break;
    case 1: scalar_first<i32, 3>(); break;
    case 2: scalar_first<u32, 3>(); break;
    case 3: scalar_first<u32, 4>(); break;
    }
}
HARNESS(structure_f) {
    switch(vx_choose("dim", 4)) {
    case 0: structure<f32, 2>(); break;
    case 1: structure<f32, 3>(); break;
    case 2: structure<f32, 4>(); break;
    case 3: structure<f32, 5>(); break;
    }
}
HARNESS(structure_i) {
    switch(vx_choose("dim", 4)) {
    case 0: structure<i32, 2>(); break;
    case 1: structure<i32, 3>(); break;
    case 2: structure<u32, 3>(); break;
    case 3: structure<u32, 4>(); break;
    }
}
HARNESS(clamping_f) {
    switch(vx_choose("dim", 4)) {
    case 0: clamping<f32, 2>(); break;
    case 1: clamping<f32, 3>(); break;
    case 2: clamping<f32, 4>(); break;
    case 3: clamping<f32, 5>(); break;
    }
}
HARNESS(clamping_i) {
    switch(vx_choose("dim", 3)) {
    case 0: clamping<i32, 2>(); break;
    case 1: clamping<i32, 3>(); break;
    case 2: clamping<u32, 4>(); break;
    }
}
HARNESS(ordering_f) {
    switch(vx_choose("dim", 4)) {
    case 0: ordering<f32, 2>(); break;
    case 1: ordering<f32, 3>(); break;
    case 2: ordering<f32, 4>(); break;
    case 3: ordering<f32, 5>(); break;
    }
}
HARNESS(ordering_i) {
    switch(vx_choose("dim", 4)) {
    case 0: ordering<i32, 2>(); break;
    case 1: ordering<i32, 3>(); break;
    case 2: ordering<u32, 3>(); break;
    case 3: ordering<u32, 4>(); break;
    }
}
HARNESS(unary_f) {
    switch(vx_choose("dim", 4)) {
    case 0: unary<f32, 2>(); break;
    case 1: unary<f32, 3>(); break;
    case 2: unary<f32, 4>(); break;
    case 3: unary<f32, 5>(); break;
    }
}
HARNESS(unary_i) {
    switch(vx_choose("dim", 4)) {
    case 0: unary<i32, 2>(); break;
    case 1: unary<i32, 3>(); break;
    case 2: unary<u32, 3>(); break;
    case 3: unary<u32, 4>(); break;
    }
}

template<u64 N>
static Vect<f32, N> ints(const char* n, int bits) {
    Vect<f32, N> r;
    for(u64 i = 0; i < N; i++) r[i] = vx_f32i(n, bits);
    return r;
}
template<u64 N>
static void products() {
    Vect<f32, N> a = ints<N>("a", 9), b = ints<N>("b", 9);
    f32 d = 0, n2 = 0;
    for(u64 i = 0; i < N; i++) d += a[i] * b[i], n2 += a[i] * a[i];
    CHECKM(dot(a, b) == d, "dot product");
    CHECKM(a.norm2() == n2, "squared length");
    CHECKM(near(a.norm(), rpp::Math::sqrt(n2)), "length");
    f32 t = vx_f32i("t", 3);
    Vect<f32, N> l = lerp(a, b, t);
    bool ok = true;
    for(u64 i = 0; i < N; i++) ok = ok & (l[i] == a[i] + (b[i] - a[i]) * t);
    CHECKM(ok, "interpolation");
}
HARNESS(products_f) {
    switch(vx_choose("dim", 4)) {
    case 0: products<2>(); break;
    case 1: products<3>(); break;
    case 2: products<4>(); break;
    case 3: products<5>(); break;
    }
}
HARNESS(products_i) {
    Vect<u32, 3> a, b;
    u32 d = 0;
    for(u64 i = 0; i < 3; i++) {
        a[i] = any<u32>("a"), b[i] = any<u32>("b");
        d += a[i] * b[i];
    }
    CHECKM(dot(a, b) == d, "dot product of integers");
    CHECKM(b.norm2() == b[0] * b[0] + b[1] * b[1] + b[2] * b[2], "squared length of integers");
}
HARNESS(crossing) {
    Vec3 a = ints<3>("a", 10), b = ints<3>("b", 10);
    Vec3 c = cross(a, b);
    CHECKM(c.x == a.y * b.z - a.z * b.y, "cross product x");
    CHECKM(c.y == a.z * b.x - a.x * b.z, "cross product y");
    CHECKM(c.z == a.x * b.y - a.y * b.x, "cross product z");
}
template<u64 N>
static void unit() {
    Vect<f32, N> a = ints<N>("a", 6);
    bool zero = true;
    for(u64 i = 0; i < N; i++) zero = zero & (a[i] == 0.0f);
    vx_assume(!zero);
    f32 n = a.norm();
    bool ok = true, ok2 = true, ok3 = true;
    Vect<f32, N> u = a.unit(), f = normalize(a), m = a;
    Vect<f32, N> r = m.normalize();
    for(u64 i = 0; i < N; i++) {
        ok = ok & near(u[i], a[i] / n);
        ok2 = ok2 & near(f[i], a[i] / n);
        ok3 = ok3 & near(m[i], a[i] / n) & same(m[i], r[i]);
    }
    CHECKM(ok, "unit vector");
    CHECKM(ok2, "normalised vector (free)");
    CHECKM(ok3, "normalisation in place");
}
HARNESS(units) {
    switch(vx_choose("dim", 4)) {
    case 0: unit<2>(); break;
    case 1: unit<3>(); break;
    case 2: unit<4>(); break;
    case 3: unit<5>(); break;
    }
}
// the parts of a vector alias its own components, in order
HARNESS(parts) {
    f32 c[4];
    for(int i = 0; i < 4; i++) c[i] = any_f32();
    Vec2 v2{c[0], c[1]};
    Vec3 v3{c[0], c[1], c[2]};
    Vec4 v4{c[0], c[1], c[2], c[3]};
    CHECKM(same(v2.x, c[0]) && same(v2.y, c[1]), "components of Vec2");
    CHECKM(same(v3.x, c[0]) && same(v3.y, c[1]) && same(v3.z, c[2]), "components of Vec3");
    CHECKM(same(v4.x, c[0]) && same(v4.y, c[1]) && same(v4.z, c[2]) && same(v4.w, c[3]), "components of Vec4");
    Vec3 e3{v2, c[2]};
    Vec4 e4{v3, c[3]};
    bool ok = true;
    for(u64 i = 0; i < 3; i++) ok = ok & same(e3[i], c[i]);
    for(u64 i = 0; i < 4; i++) ok = ok & same(e4[i], c[i]);
    CHECKM(ok, "extension by one component");
    auto sub = [&](const f32* p, u64 n, u64 from) {
        bool r = true;
        for(u64 i = 0; i < n; i++) r = r & same(p[i], c[from + i]);
        return r;
    };
    CHECKM(sub(v3.xy().begin(), 2, 0) && sub(v3.yz().begin(), 2, 1), "parts of Vec3");
    CHECKM(sub(v4.xy().begin(), 2, 0) && sub(v4.yz().begin(), 2, 1) && sub(v4.zw().begin(), 2, 2), "pairs of Vec4");
    CHECKM(sub(v4.xyz().begin(), 3, 0) && sub(v4.yzw().begin(), 3, 1), "triples of Vec4");
    v4.yzw() = Vec3{c[0], c[0], c[0]};
    CHECKM(same(v4.x, c[0]) && same(v4.y, c[0]) && same(v4.z, c[0]) && same(v4.w, c[0]), "writing through a part");
    v3.yz() = Vec2{c[3], c[0]};
    CHECKM(same(v3.x, c[0]) && same(v3.y, c[3]) && same(v3.z, c[0]), "writing through a part of Vec3");
    Vec4i q{1, 2, 3, 4};
    CHECKM(q.xyz().z == 3 && q.zw().x == 3 && q.yzw().x == 2 && q.xy().y == 2, "parts of integer vectors");
}
HARNESS(conversion) {
    i32 c[3];
    for(int i = 0; i < 3; i++) c[i] = (i32)vx_sbits("c", 20);
    Vec3i v{c[0], c[1], c[2]};
    Vec3 f = v.as<f32>();
    Vec3i g = f.as<i32>();
    bool ok = true, back = true;
    for(u64 i = 0; i < 3; i++) ok = ok & (f[i] == (f32)c[i]), back = back & (g[i] == c[i]);
    CHECKM(ok, "conversion to float");
    CHECKM(back, "conversion to integer");
    Vec4 h;
    for(u64 i = 0; i < 3; i++) h[i] = any_f32();
    h[3] = 2.0f;
    Vec3 p = h.proj();
    ok = true;
    for(u64 i = 0; i < 3; i++) ok = ok & same(p[i], h[i] / 2.0f);
    CHECKM(ok, "projection divides by the last component");
}
