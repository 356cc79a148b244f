// vx: * jobs=2 time=300 time_t=800
// bounds: quaternion and box operations over all integer-valued components of 4 to 9 bits (exact in floats); component-wise operations, boxes, enclosure and emptiness over all float bit patterns that are numbers; inverses over every quaternion whose squared length is a power of two up to 64; transforms by all integer matrices of 5-bit entries; projections by matrices of 4-bit entries
// outside: rounding of inexact results; Euler angle extraction (inverse trigonometry)
// assume: sine and cosine stand for arbitrary integers with the exact addition of their use
#include "fp.h"
using namespace rpp::Math;
static f32 sin_is, cos_is, arg_is;
extern "C" float vxe_sinf(float a) {
    arg_is = a;
    return sin_is;
}
extern "C" float vxe_cosf(float a) {
    arg_is = a;
    return cos_is;
}
struct Q4 {
    f32 x, y, z, w;
};
static Q4 ints(const char* n, int bits) {
    Q4 q;
    q.x = vx_f32i(n, bits), q.y = vx_f32i(n, bits), q.z = vx_f32i(n, bits), q.w = vx_f32i(n, bits);
    return q;
}
static Q4 bits() {
    Q4 q;
    q.x = any_f32("q"), q.y = any_f32("q"), q.z = any_f32("q"), q.w = any_f32("q");
    return q;
}
static Quat make(Q4 q) {
    return Quat{q.x, q.y, q.z, q.w};
}
static void is(Quat r, f32 x, f32 y, f32 z, f32 w, const char* what) {
    vx_check(same(r.x, x) & same(r.y, y) & same(r.z, z) & same(r.w, w), what);
}
static void eq(Quat r, f32 x, f32 y, f32 z, f32 w, const char* what) {
    vx_check((r.x == x) & (r.y == y) & (r.z == z) & (r.w == w), what);
}
static Vec3 ints3(const char* n, int bits) {
    f32 x = vx_f32i(n, bits), y = vx_f32i(n, bits), z = vx_f32i(n, bits);
    return Vec3{x, y, z};
}
HARNESS(quat_components) {
    Q4 p = bits(), q = bits();
    const Quat a = make(p), b = make(q);
    f32 s = any_f32("s");
    is(Quat{}, 0.0f, 0.0f, 0.0f, 1.0f, "default is the identity");
    is(Quat{Vec3{p.x, p.y, p.z}, p.w}, p.x, p.y, p.z, p.w, "from parts");
    is(Quat{Vec4{p.x, p.y, p.z, p.w}}, p.x, p.y, p.z, p.w, "from a vector");
    is(a + b, p.x + q.x, p.y + q.y, p.z + q.z, p.w + q.w, "sum");
    is(a - b, p.x - q.x, p.y - q.y, p.z - q.z, p.w - q.w, "difference");
    is(a * s, s * p.x, s * p.y, s * p.z, s * p.w, "product with a scalar");
    is(-a, -p.x, -p.y, -p.z, -p.w, "negation");
    is(a.conjugate(), -p.x, -p.y, -p.z, p.w, "conjugate");
    Vec3 c = a.complex();
    CHECKM(same(c.x, p.x) & same(c.y, p.y) & same(c.z, p.z) & same(a.real(), p.w), "parts");
    is(a, p.x, p.y, p.z, p.w, "operand is unchanged");
    is(b, q.x, q.y, q.z, q.w, "operand is unchanged");
}
HARNESS(quat_structure) {
    Q4 p = bits(), q = bits();
    Quat a = make(p), b = make(q);
    const Quat k = a;
    bool e = (p.x == q.x) & (p.y == q.y) & (p.z == q.z) & (p.w == q.w);
    CHECKM((a == b) == e, "equality");
    CHECKM((a != b) == !e, "inequality");
    f32 v[4] = {p.x, p.y, p.z, p.w};
    int n = 0;
    bool ok = true, ok2 = true, ok3 = true;
    for(const f32& f : k) ok = ok & same(f, v[n++]);
    n = 0;
    for(f32& f : a) ok2 = ok2 & same(f, v[n++]);
    CHECKM(ok & ok2, "iteration");
    for(int i = 0; i < 4; i++) ok3 = ok3 & same(a[i], v[i]) & same(k[i], v[i]);
    CHECKM(ok3, "indexing");
    int i = vx_choose("index", 4);
    a[i] = q.x;
    v[i] = q.x;
    is(a, v[0], v[1], v[2], v[3], "writing by index");
}
HARNESS(quat_product) {
    Q4 p = ints("p", 9), q = ints("q", 9), r = ints("r", 5);
    Quat a = make(p), b = make(q);
    eq(a * b, p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y, p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x,
       p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w, p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z, "product");
    eq(a * Quat{}, p.x, p.y, p.z, p.w, "identity is neutral (right)");
    eq(Quat{} * a, p.x, p.y, p.z, p.w, "identity is neutral (left)");
    f32 n = p.x * p.x + p.y * p.y + p.z * p.z + p.w * p.w;
    CHECKM(a.norm2() == n, "squared length");
    eq(a * a.conjugate(), 0.0f, 0.0f, 0.0f, n, "product with the conjugate");
    CHECKM(near(a.norm(), rpp::Math::sqrt(n)), "length");
    Q4 s = ints("s", 5), t = ints("t", 5);
    Quat A = make(r), B = make(s), C = make(t), L = (A * B) * C, R = A * (B * C), D = A * (B + C), S = A * B + A * C;
    eq(L, R.x, R.y, R.z, R.w, "products are associative");
    eq(D, S.x, S.y, S.z, S.w, "products distribute over sums");
    Quat cj = (A * B).conjugate(), dj = B.conjugate() * A.conjugate();
    eq(cj, dj.x, dj.y, dj.z, dj.w, "conjugate of a product");
}
HARNESS(quat_rotation) {
    Q4 q = ints("q", 5), p = ints("p", 3);
    Vec3 v = ints3("v", 5);
    Quat a = make(q), b = make(p);
    Vec3 r = a.rotate(v), m = a.to_mat() * v, d = a.to_mat().rotate(v);
    f32 n = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w;
    bool ok = true, ok2 = true;
    for(u64 i = 0; i < 3; i++) ok = ok & (r[i] == m[i] + (n - 1.0f) * v[i]), ok2 = ok2 & (m[i] == d[i]);
    CHECKM(ok, "rotating agrees with the matrix");
    CHECKM(ok2, "rotation fixes the origin");
    // rotation turns as its product formula does: v + 2 w (u x v) + 2 u x (u x v), for unit quaternions
    f32 cx = q.y * v.z - q.z * v.y, cy = q.z * v.x - q.x * v.z, cz = q.x * v.y - q.y * v.x;
    f32 dx = q.y * cz - q.z * cy, dy = q.z * cx - q.x * cz, dz = q.x * cy - q.y * cx;
    CHECKM((m.x == v.x + 2.0f * q.w * cx + 2.0f * dx) & (m.y == v.y + 2.0f * q.w * cy + 2.0f * dy) &
               (m.z == v.z + 2.0f * q.w * cz + 2.0f * dz),
           "rotation matrix");
    Quat c = make(ints("q", 3));
    Vec3 w = ints3("w", 3);
    Vec3 one = (c * b).rotate(w), two = c.rotate(b.rotate(w));
    CHECKM((one.x == two.x) & (one.y == two.y) & (one.z == two.z), "rotations compose");
    Mat4 t = a.to_mat();
    bool row = true;
    for(int i = 0; i < 3; i++) row = row & (t.data[i * 4 + 3] == 0.0f) & (t.data[12 + i] == 0.0f);
    CHECKM(row & (t.data[15] == 1.0f), "affine");
}
// a quaternion whose squared length is a power of two: (a, b, 0, 0) and so on up to symmetry
HARNESS(quat_inverse) {
    static const f32 len[] = {1.0f, 2.0f, 0.5f, 4.0f};
    f32 s = len[vx_choose("length", 4)];
    f32 c[4] = {0.0f, 0.0f, 0.0f, 0.0f};
    int i = vx_choose("first", 4), kind = vx_choose("kind", 3);
    f32 sg = vx_choose("sign", 2) ? -s : s;
    if(kind == 0) c[i] = sg;
    else if(kind == 1) {
        int j = (i + 1 + vx_choose("second", 3)) % 4;
        c[i] = sg, c[j] = s;
    } else
        for(int j = 0; j < 4; j++) c[j] = i == j ? sg : s;
    Quat q{c[0], c[1], c[2], c[3]};
    Quat v = q.inverse();
    Q4 p = ints("p", 6);
    Quat l = v * (q * make(p)), r = (make(p) * q) * v;
    eq(l, p.x, p.y, p.z, p.w, "inverse (left)");
    eq(r, p.x, p.y, p.z, p.w, "inverse (right)");
    if(kind != 1) { // the length is exact
        Quat u = q.unit();
        f32 n = kind == 0 ? s : 2.0f * s;
        is(u, c[0] / n, c[1] / n, c[2] / n, c[3] / n, "unit quaternion");
    }
}
HARNESS(quat_axis_angle) {
    u64 i = (u64)vx_choose("axis", 3);
    f32 len = vx_choose("length", 2) ? 4.0f : -0.5f;
    Vec3 axis;
    axis[i] = len;
    static const f32 sc[][2] = {{1.0f, 0.0f}, {0.0f, 1.0f}, {0.0f, -1.0f}, {-1.0f, 0.0f}};
    int t = vx_choose("turn", 4); // sine and cosine at the quarter turns
    sin_is = sc[t][0], cos_is = sc[t][1];
    Quat q = Quat::axis_angle(axis, 50.0f);
    CHECKM(near(arg_is, 50.0f * 3.14159265358979f / 360.0f), "half the angle, in radians");
    f32 c[3] = {0.0f, 0.0f, 0.0f};
    c[i] = len < 0.0f ? -sin_is : sin_is;
    eq(q, c[0], c[1], c[2], cos_is, "rotation about an axis");
}
// ---- boxes ----
static Vec3 any3(const char* n) {
    f32 x = any_number(n), y = any_number(n), z = any_number(n);
    return Vec3{x, y, z};
}
HARNESS(box_enclose) {
    int what = vx_choose("what", 3);
    BBox b;
    CHECKM(b.empty(), "a new box is empty");
    Vec3 p = any3("p"), q = any3("q");
    for(u64 i = 0; i < 3; i++) vx_assume((__builtin_fabsf(p[i]) <= Limits<f32>::max()) & (__builtin_fabsf(q[i]) <= Limits<f32>::max()));
    b.enclose(p);
    for(u64 i = 0; i < 3; i++) CHECKM((b.min[i] == p[i]) & (b.max[i] == p[i]), "one point");
    CHECKM(!b.empty(), "a box with a point is not empty");
    if(what == 0) b.enclose(q);
    else if(what == 1) {
        BBox c;
        c.enclose(q);
        b.enclose(c);
    } else {
        BBox c;
        b.enclose(c); // an empty box adds nothing
        q = p;
    }
    for(u64 i = 0; i < 3; i++) {
        bool in = (b.min[i] <= p[i]) & (b.min[i] <= q[i]) & (b.max[i] >= p[i]) & (b.max[i] >= q[i]);
        bool tight = ((b.min[i] == p[i]) | (b.min[i] == q[i])) & ((b.max[i] == p[i]) | (b.max[i] == q[i]));
        CHECKM(in, "the box encloses both");
        CHECKM(tight, "the box is no larger than needed");
    }
    if(vx_choose("reset", 2)) {
        b.reset();
        CHECKM(b.empty(), "a reset box is empty");
        b.enclose(q);
        for(u64 i = 0; i < 3; i++) CHECKM((b.min[i] == q[i]) & (b.max[i] == q[i]), "one point after reset");
    }
}
HARNESS(box_empty) {
    Vec3 lo = any3("min"), hi = any3("max");
    BBox b{lo, hi};
    CHECKM(b.empty() == ((lo.x > hi.x) | (lo.y > hi.y) | (lo.z > hi.z)), "emptiness");
    if(b.empty()) CHECKM(b.surface_area() == 0.0f, "an empty box has no surface");
}
HARNESS(box_measures) {
    Vec3 lo = ints3("min", 8), hi = ints3("max", 8);
    BBox b{lo, hi};
    Vec3 c = b.center();
    CHECKM((2.0f * c.x == lo.x + hi.x) & (2.0f * c.y == lo.y + hi.y) & (2.0f * c.z == lo.z + hi.z), "center");
    if(b.empty()) return;
    f32 dx = hi.x - lo.x, dy = hi.y - lo.y, dz = hi.z - lo.z;
    CHECKM(b.surface_area() == 2.0f * dx * dy + 2.0f * dy * dz + 2.0f * dz * dx, "surface");
}
// the transformed box is the smallest one around the eight transformed corners
HARNESS(box_transform) {
    const int bm = QT(5, 6);
    Mat4 m;
    for(int c = 0; c < 4; c++)
        for(int r = 0; r < 3; r++) m.data[c * 4 + r] = vx_f32i("m", bm);
    Vec3 lo = ints3("min", bm), hi = ints3("max", bm);
    for(u64 i = 0; i < 3; i++) vx_assume(lo[i] <= hi[i]);
    BBox b{lo, hi};
    b.transform(m);
    for(u64 i = 0; i < 3; i++) { // each bound is the extreme over the corners: term by term
        f32 a = m.data[12 + i], z = a;
        for(u64 j = 0; j < 3; j++) {
            f32 e = m.data[j * 4 + i], p = e * lo[j], q = e * hi[j];
            a += p < q ? p : q, z += p < q ? q : p;
        }
        CHECKM(b.min[i] == a, "the lower bound is the least corner");
        CHECKM(b.max[i] == z, "the upper bound is the greatest corner");
    }
}
// projecting: around all eight corners when none is behind; nothing when all are; everything when some are
HARNESS(box_project) {
    Vec3 lo = ints3("min", 3), hi = ints3("max", 3);
    Mat4 m;
    for(int c = 0; c < 4; c++)
        for(int r = 0; r < 3; r++) m.data[c * 4 + r] = c == r ? vx_f32i("m", 3) : c == 3 ? vx_f32i("t", 3) : 0.0f;
    m.data[4] = vx_f32i("shear", 3); // x from y
    m.data[10] = vx_choose("flip", 2) ? -1.0f : 1.0f;
    BBox b{lo, hi};
    Vec2 mn, mx;
    b.project(m, mn, mx);
    f32 z0 = m.data[10] * lo.z + m.data[14], z1 = m.data[10] * hi.z + m.data[14];
    bool b0 = z0 < 0.0f, b1 = z1 < 0.0f;
    if(b0 & b1) {
        CHECKM((mn.x == 0.0f) & (mn.y == 0.0f) & (mx.x == 0.0f) & (mx.y == 0.0f), "all behind");
    } else if(b0 | b1) {
        CHECKM((mn.x == -1.0f) & (mn.y == -1.0f) & (mx.x == 1.0f) & (mx.y == 1.0f), "partly behind");
    } else {
        bool in = true, xa = false, xb = false, ya = false, yb = false;
        for(int k = 0; k < 4; k++) {
            f32 px = k & 1 ? hi.x : lo.x, py = k & 2 ? hi.y : lo.y;
            f32 x = m.data[0] * px + m.data[4] * py + m.data[12], y = m.data[5] * py + m.data[13];
            in = in & (mn.x <= x) & (x <= mx.x) & (mn.y <= y) & (y <= mx.y);
            xa = xa | (mn.x == x), xb = xb | (mx.x == x), ya = ya | (mn.y == y), yb = yb | (mx.y == y);
        }
        CHECKM(in, "corners project inside");
        CHECKM(xa & xb & ya & yb, "the projection is no larger than needed");
    }
}
