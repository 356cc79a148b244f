// vx: * jobs=2 time=300 time_t=800
// bounds: entry-wise operations over all float bit patterns; products over all integer-valued entries of 11 bits (exact in floats); inverses over all P*L*D*U with L, U unit triangular of 3-bit integer entries, D a diagonal of powers of two and their inverses, P every row permutation; constructors over integer-valued arguments of 3 to 8 bits with sine, cosine and tangent arbitrary integers
// outside: rounding of inexact results; singular matrices; Euler angle extraction
// assume: in harnesses named *_directions, sqrt stands for an arbitrary normaliser (1), so the vectors the code normalises stay exact polynomials; normalisation itself is decided in G01
#include "fp.h"
using namespace rpp::Math;

static f32 sin_is, cos_is, tan_is, arg_is;
static bool unit_sqrt;
extern "C" float vxe_sinf(float a) {
    arg_is = a;
    return sin_is;
}
extern "C" float vxe_cosf(float a) {
    arg_is = a;
    return cos_is;
}
extern "C" float vxe_tanf(float a) {
    arg_is = a;
    return tan_is;
}
extern "C" float vxe_sqrtf(float a) {
    return unit_sqrt ? 1.0f : __builtin_elementwise_sqrt(a);
}

struct E16 {
    f32 at[4][4]; // [column][row]
};
template<typename F>
static E16 fill(F f) {
    E16 e;
    for(int c = 0; c < 4; c++)
        for(int r = 0; r < 4; r++) e.at[c][r] = f();
    return e;
}
static E16 bits16() {
    return fill([] { return any_f32("m"); });
}
static E16 ints16(int bits) {
    return fill([bits] { return vx_f32i("m", bits); });
}
static Mat4 make(const E16& e) {
    Mat4 m;
    for(int c = 0; c < 4; c++)
        for(int r = 0; r < 4; r++) m.data[c * 4 + r] = e.at[c][r];
    return m;
}
template<typename F>
static void is(const Mat4& m, F want, const char* what) {
    bool ok = true;
    for(int c = 0; c < 4; c++)
        for(int r = 0; r < 4; r++) ok = ok & same(m.data[c * 4 + r], want(c, r));
    vx_check(ok, what);
}
template<typename F>
static void eq(const Mat4& m, F want, const char* what) {
    bool ok = true;
    for(int c = 0; c < 4; c++)
        for(int r = 0; r < 4; r++) ok = ok & (m.data[c * 4 + r] == want(c, r));
    vx_check(ok, what);
}
static f32 id(int c, int r) {
    return c == r ? 1.0f : 0.0f;
}
static f32 nil(int, int) {
    return 0.0f;
}
HARNESS(entrywise) {
    E16 a = bits16(), b = bits16();
    f32 s = any_f32("s");
    const Mat4 x = make(a), y = make(b);
    is(x + y, [&](int c, int r) { return a.at[c][r] + b.at[c][r]; }, "sum");
    is(x - y, [&](int c, int r) { return a.at[c][r] - b.at[c][r]; }, "difference");
    is(x + s, [&](int c, int r) { return a.at[c][r] + s; }, "sum with a scalar");
    is(x - s, [&](int c, int r) { return a.at[c][r] - s; }, "difference with a scalar");
    is(x * s, [&](int c, int r) { return a.at[c][r] * s; }, "product with a scalar");
    is(x / s, [&](int c, int r) { return a.at[c][r] / s; }, "quotient by a scalar");
    is(x.T(), [&](int c, int r) { return a.at[r][c]; }, "transpose");
    is(Mat4::transpose(x), [&](int c, int r) { return a.at[r][c]; }, "transpose (static)");
    is(x, [&](int c, int r) { return a.at[c][r]; }, "operand is unchanged");
    is(y, [&](int c, int r) { return b.at[c][r]; }, "operand is unchanged");
}
HARNESS(structure) {
    E16 a = bits16();
    Vec4 v[4];
    for(int c = 0; c < 4; c++)
        for(int r = 0; r < 4; r++) v[c][(u64)r] = a.at[c][r];
    auto want = [&](int c, int r) { return a.at[c][r]; };
    Mat4 m{v[0], v[1], v[2], v[3]};
    is(m, want, "from columns");
    auto* p = &a.at[0][0];
    Mat4 n{p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]};
    is(n, want, "from entries");
    const Mat4 k = m;
    bool ok = true, ok2 = true, ok3 = true;
    u64 c = 0;
    for(const Vec4& col : k) {
        for(u64 r = 0; r < 4; r++) ok = ok & same(col[r], a.at[c][r]);
        c++;
    }
    CHECKM(ok && c == 4, "iteration over columns");
    for(u64 i = 0; i < 4; i++)
        for(u64 r = 0; r < 4; r++) {
            ok2 = ok2 & same(m[i][r], a.at[i][r]);
            ok3 = ok3 & same(k[i][r], a.at[i][r]);
        }
    CHECKM(ok2 && ok3, "indexing is column, then row");
    u64 i = (u64)vx_choose("column", 4), r = (u64)vx_choose("row", 4);
    m[i][r] = 7.0f;
    a.at[i][r] = 7.0f;
    is(m, want, "writing an entry");
    for(Vec4& col : m) col = Vec4{1.0f, 2.0f, 3.0f, 4.0f};
    is(m, [](int, int r) { return (f32)(r + 1); }, "writing columns");
    is(Mat4{}, id, "default is the identity");
    is(Mat4::I, id, "identity");
    is(Mat4::zero, nil, "zero");
    is(Mat4::swap_x_z, [](int c, int r) { return c == r ? (c == 1 || c == 3 ? 1.0f : 0.0f) : (c + r == 2 && c != 1 ? 1.0f : 0.0f); }, "exchange of x and z");
}
HARNESS(index_out_of_range) {
    Mat4 m;
    const Mat4 k;
    u64 i = vx_bits("index", 64);
    vx_assume(i >= 4);
    if(vx_choose("const", 2)) MUST_DIE(k[i]);
    else MUST_DIE(m[i]);
}
HARNESS(equality) {
    E16 a = bits16(), b = a;
    int c = vx_choose("column", 4), r = vx_choose("row", 4); // differ in at most two entries
    b.at[c][r] = any_f32("other");
    int c2 = vx_choose("column2", 4), r2 = 3 - r;
    b.at[c2][r2] = any_f32("other");
    bool e = true;
    for(int i = 0; i < 4; i++)
        for(int j = 0; j < 4; j++) e = e & (a.at[i][j] == b.at[i][j]);
    Mat4 x = make(a), y = make(b);
    CHECKM((x == y) == e, "equality");
    CHECKM((x != y) == !e, "inequality");
}
HARNESS(products) {
    E16 a = ints16(11), b = ints16(11);
    const Mat4 x = make(a), y = make(b);
    Mat4 p = x * y;
    eq(p, [&](int c, int r) {
        f32 s = 0.0f;
        for(int k = 0; k < 4; k++) s += a.at[k][r] * b.at[c][k];
        return s;
    }, "product");
    is(x, [&](int c, int r) { return a.at[c][r]; }, "operand is unchanged");
    is(y, [&](int c, int r) { return b.at[c][r]; }, "operand is unchanged");
    is(x * Mat4::I, [&](int c, int r) { return a.at[c][r]; }, "identity is neutral (right)");
    is(Mat4::I * x, [&](int c, int r) { return a.at[c][r]; }, "identity is neutral (left)");
    Vec4 v;
    for(u64 i = 0; i < 4; i++) v[i] = vx_f32i("v", 11);
    Vec4 w = x * v;
    Vec3 u = x * v.xyz(), d = x.rotate(v.xyz());
    bool o4 = true, o3 = true, od = true;
    for(u64 r = 0; r < 4; r++) {
        f32 s = 0.0f;
        for(u64 k = 0; k < 3; k++) s += a.at[k][r] * v[k];
        o4 = o4 & (w[r] == s + a.at[3][r] * v[3]);
        if(r < 3) o3 = o3 & (u[r] == s + a.at[3][r]), od = od & (d[r] == s);
    }
    CHECKM(o4, "matrix and vector");
    CHECKM(o3, "matrix and point");
    CHECKM(od, "matrix and direction");
    E16 f = ints16(4), g = ints16(4), h = ints16(4);
    Mat4 A = make(f), B = make(g), C = make(h), L = (A * B) * C, R = A * (B * C), D = A * (B + C), S = A * B + A * C;
    eq(L, [&](int c, int r) { return R.data[c * 4 + r]; }, "products are associative");
    eq(D, [&](int c, int r) { return S.data[c * 4 + r]; }, "products distribute over sums");
    Mat4 T = (A * B).T(), U = B.T() * A.T();
    eq(T, [&](int c, int r) { return U.data[c * 4 + r]; }, "transpose of a product");
}
// every integer matrix P*L*D*U
static void perm(int n, int* p) {
    int e[4] = {0, 1, 2, 3};
    for(int i = 0, f = 6; i < 4; i++) {
        int d = n / f;
        n %= f;
        p[i] = e[d];
        for(int j = d; j < 3; j++) e[j] = e[j + 1];
        if(3 - i > 0) f /= 3 - i;
    }
}
static Mat4 invertible(int bits) {
    f32 l[4][4], u[4][4], m[4][4]; // [row][column]
    static const f32 diag[5][4] = {{1, 1, 1, 1}, {2, 1, 0.5f, 1}, {1, -1, 1, 2}, {0.25f, -2, 1, 1}, {-1, 0.5f, 0.5f, 1}};
    const f32* d = diag[vx_choose("diagonal", 5)];
    for(int r = 0; r < 4; r++)
        for(int c = 0; c < 4; c++) {
            l[r][c] = r == c ? 1.0f : r > c ? vx_f32i("l", bits) : 0.0f;
            u[r][c] = r == c ? 1.0f : r < c ? vx_f32i("u", bits) : 0.0f;
        }
    int p[4];
    perm(vx_choose("permutation", 24), p);
    for(int r = 0; r < 4; r++)
        for(int c = 0; c < 4; c++) {
            f32 s = 0.0f;
            for(int k = 0; k < 4; k++) s += l[r][k] * d[k] * u[k][c];
            m[p[r]][c] = s;
        }
    Mat4 M;
    for(int r = 0; r < 4; r++)
        for(int c = 0; c < 4; c++) M.data[c * 4 + r] = m[r][c];
    return M;
}
static void inverses(int bits) {
    const Mat4 m = invertible(bits);
    Mat4 i = vx_choose("static", 2) ? Mat4::inverse(m) : m.inverse();
    eq(m * i, id, "matrix times its inverse");
    eq(i * m, id, "inverse times its matrix");
}
HARNESS(inverse) {
    inverses(QT(2, 3));
}
HARNESS(scaling_translation) {
    Vec3 s{vx_f32i("s", 9), vx_f32i("s", 9), vx_f32i("s", 9)}, v{vx_f32i("v", 9), vx_f32i("v", 9), vx_f32i("v", 9)};
    Vec3 a = Mat4::scale(s) * v, b = Mat4::translate(s) * v, c = Mat4::translate(s).rotate(v);
    bool o1 = true, o2 = true, o3 = true;
    for(u64 i = 0; i < 3; i++) o1 = o1 & (a[i] == s[i] * v[i]), o2 = o2 & (b[i] == s[i] + v[i]), o3 = o3 & (c[i] == v[i]);
    CHECKM(o1, "scaling a point");
    CHECKM(o2, "translating a point");
    CHECKM(o3, "directions are not translated");
    Vec4 e{0.0f, 0.0f, 0.0f, 1.0f};
    CHECKM((Mat4::scale(s).T() * e == e) && (Mat4::translate(Vec3{}) == Mat4::I), "affine");
    Vec4 t = Mat4::translate(s) * Vec4{v, 1.0f};
    CHECKM(t.w == 1.0f, "points stay points");
}
static Vec3 ints3(const char* n, int bits) {
    f32 x = vx_f32i(n, bits), y = vx_f32i(n, bits), z = vx_f32i(n, bits);
    return Vec3{x, y, z};
}
static f32 dot3(Vec3 a, Vec3 b) {
    return a.x * b.x + a.y * b.y + a.z * b.z;
}
// v cos + (k x v) sin + k (k.v) (1 - cos)
HARNESS(rotate_directions) {
    unit_sqrt = true;
    cos_is = vx_f32i("cos", 3), sin_is = vx_f32i("sin", 3);
    Vec3 k = ints3("axis", 3), v = ints3("v", 4);
    f32 angle = vx_choose("angle", 2) ? 90.0f : -36.0f;
    Mat4 m = Mat4::rotate(angle, k);
    CHECKM(near(arg_is, angle * 3.14159265358979f / 180.0f), "angle in radians");
    Vec3 r = m.rotate(v), p = m * v;
    f32 kv = dot3(k, v) * (1.0f - cos_is);
    Vec3 w{v.x * cos_is + (k.y * v.z - k.z * v.y) * sin_is + k.x * kv,
           v.y * cos_is + (k.z * v.x - k.x * v.z) * sin_is + k.y * kv,
           v.z * cos_is + (k.x * v.y - k.y * v.x) * sin_is + k.z * kv};
    bool ok = true, ok2 = true;
    for(u64 i = 0; i < 3; i++) ok = ok & (r[i] == w[i]), ok2 = ok2 & (p[i] == w[i]);
    CHECKM(ok, "rotation about an axis");
    CHECKM(ok2, "rotation fixes the origin");
    Vec4 h = m * Vec4{v, 1.0f};
    CHECKM(h.w == 1.0f, "points stay points");
}
HARNESS(rotate_scaled_axis) { // the length of the axis does not matter
    cos_is = vx_f32i("cos", 3), sin_is = vx_f32i("sin", 3);
    u64 i = (u64)vx_choose("axis", 3);
    Vec3 e, f;
    e[i] = 1.0f;
    f[i] = vx_choose("length", 2) ? 4.0f : 0.5f;
    Mat4 a = Mat4::rotate(30.0f, e), b = Mat4::rotate(30.0f, f);
    eq(a, [&](int c, int r) { return b.data[c * 4 + r]; }, "axis is normalised");
}
HARNESS(look_at_directions) {
    unit_sqrt = true;
    Vec3 pos = ints3("pos", 3), at = ints3("at", 3), up = ints3("up", 3);
    Mat4 m = Mat4::look_at(pos, at, up);
    Vec3 o = m * pos, f = m * at, u = m.rotate(up);
    Vec3 F = at - pos;
    CHECKM((o.x == 0.0f) & (o.y == 0.0f) & (o.z == 0.0f), "the eye is the origin");
    CHECKM((f.x == 0.0f) & (f.y == 0.0f) & (f.z == -dot3(F, F)), "the target is on the negative z axis");
    CHECKM(u.x == 0.0f, "up has no sideways part");
    f32 sx = F.y * up.z - F.z * up.y, sy = F.z * up.x - F.x * up.z, sz = F.x * up.y - F.y * up.x;
    CHECKM(u.y == sx * sx + sy * sy + sz * sz, "up points up");
    Vec3 side = m.rotate(Vec3{sx, sy, sz});
    CHECKM((side.x == sx * sx + sy * sy + sz * sz) & (side.y == 0.0f) & (side.z == 0.0f), "right points right");
    Vec4 w = m * Vec4{at, 1.0f};
    CHECKM(w.w == 1.0f, "points stay points");
}
HARNESS(look_at_axes) { // exact unit vectors: a camera on an axis
    u64 i = (u64)vx_choose("axis", 3);
    Vec3 pos = ints3("pos", 6), d, up;
    f32 len = vx_choose("length", 2) ? 4.0f : -2.0f;
    d[i] = len;
    up[(i + 1) % 3] = 2.0f;
    Mat4 m = Mat4::look_at(pos, pos + d, up);
    Vec3 o = m * (pos + d), u = m * (pos + up);
    CHECKM((o.x == 0.0f) & (o.y == 0.0f) & (o.z == -__builtin_fabsf(len)), "the target is at its distance");
    CHECKM((u.x == 0.0f) & (u.y == 2.0f) & (u.z == 0.0f), "up is up");
}
HARNESS(turn_directions) {
    unit_sqrt = true;
    Vec3 d = ints3("dir", 4);
    vx_assume((d.y != 1.0f) & (d.y != -1.0f));
    bool z = vx_choose("z", 2);
    Mat4 m = z ? Mat4::rotate_z_to(d) : Mat4::rotate_y_to(d);
    Vec3 r = m * (z ? Vec3{0.0f, 0.0f, -1.0f} : Vec3{0.0f, 1.0f, 0.0f});
    bool ok = true;
    for(u64 i = 0; i < 3; i++) ok = ok & (r[i] == d[i]);
    CHECKM(ok, "the axis turns to the direction");
    Vec3 c[3] = {m[0].xyz(), m[1].xyz(), m[2].xyz()};
    CHECKM((dot3(c[0], c[1]) == 0.0f) & (dot3(c[1], c[2]) == 0.0f) & (dot3(c[0], c[2]) == 0.0f), "columns are orthogonal");
    Vec3 n{c[0].y * c[1].z - c[0].z * c[1].y, c[0].z * c[1].x - c[0].x * c[1].z, c[0].x * c[1].y - c[0].y * c[1].x};
    CHECKM(dot3(n, c[2]) >= 0.0f, "right handed");
    Vec4 e = m * Vec4{0.0f, 0.0f, 0.0f, 1.0f};
    CHECKM((e.x == 0.0f) & (e.y == 0.0f) & (e.z == 0.0f) & (e.w == 1.0f), "no translation");
}
HARNESS(turn_poles) {
    static const f32 len[] = {1.0f, -1.0f, 4.0f, -0.5f};
    f32 l = len[vx_choose("length", 4)];
    u64 axis = (u64)vx_choose("axis", 3);
    Vec3 d, n;
    d[axis] = l;
    n[axis] = l < 0.0f ? -1.0f : 1.0f;
    bool z = vx_choose("z", 2);
    Mat4 m = z ? Mat4::rotate_z_to(d) : Mat4::rotate_y_to(d);
    Vec3 r = m * (z ? Vec3{0.0f, 0.0f, -1.0f} : Vec3{0.0f, 1.0f, 0.0f});
    CHECKM(r == n, "the axis turns to the direction");
    Mat4 g = m.T() * m;
    eq(g, id, "orthonormal");
}
HARNESS(ortho) {
    static const f32 size[] = {1.0f, 2.0f, 8.0f, -4.0f};
    f32 l = vx_f32i("l", 8), b = vx_f32i("b", 8), n = vx_f32i("n", 8);
    f32 w = size[vx_choose("w", 4)], h = size[vx_choose("h", 4)], d = size[vx_choose("d", 3)];
    Mat4 m = Mat4::ortho(l, l + w, b, b + h, n, n + d);
    f32 z = vx_f32i("z", 8);
    Vec4 lo = m * Vec4{l, b, z, 1.0f}, hi = m * Vec4{l + w, b + h, z, 1.0f};
    CHECKM((lo.x == -1.0f) & (lo.y == -1.0f) & (lo.w == 1.0f), "lower left corner");
    CHECKM((hi.x == 1.0f) & (hi.y == 1.0f) & (hi.w == 1.0f), "upper right corner");
    Vec4 p = m * Vec4{l, b, -n, 1.0f}, q = m * Vec4{l, b, -(n + d), 1.0f};
    CHECKM((p.z == 0.0f) & (q.z == 1.0f), "depth runs from zero to one");
}
HARNESS(perspective) {
    static const f32 tans[] = {1.0f, 0.5f, 2.0f, 0.25f}, ars[] = {1.0f, 2.0f, 0.5f};
    tan_is = tans[vx_choose("tan", 4)];
    f32 ar = ars[vx_choose("aspect", 3)], n = vx_f32i("near", 6);
    Mat4 m = Mat4::proj(60.0f, ar, n);
    CHECKM(near(arg_is, 3.14159265358979f / 6.0f), "half the angle, in radians");
    Vec4 v{ints3("v", 6), 1.0f};
    Vec4 c = m * v;
    CHECKM((c.x * tan_is * ar == v.x) & (c.y * tan_is == -v.y) & (c.z == n) & (c.w == -v.z), "perspective");
}
