// vx: * jobs=2 query=600000 time=700 time_t=800
// bounds: every value of every integer width, char, pointer and of 32 and 64-bit floats; strings and views of 0 to 5 arbitrary bytes (thorough 8) at arbitrary offsets with arbitrary leftover bytes; vectors of 2 to 4 components; up to three combined values
// outside: distribution quality; not-a-number keys (equal to nothing)
#include "text.h"
#include "fp.h"
using namespace rpp;
template<typename T>
static T any() {
    T t;
    u64 b = vx_bits("value", sizeof(T) * 8);
    __builtin_memcpy(&t, &b, sizeof(T));
    return t;
}
template<typename T>
static void scalar() {
    T a = any<T>(), b = any<T>();
    vx_assume(a == b);
    CHECKM(hash(a) == hash(b), "equal values hash equally");
    CHECKM(hash_nonzero(a) == hash_nonzero(b), "equal values hash equally (non-zero form)");
    CHECKM(hash_nonzero(a) != 0, "the non-zero form is not zero");
}
template<typename T>
static void differs() { // every byte of the value matters for some value
    u64 x = 1 ^ (u64(1) << ((u64)vx_choose("byte", (int)sizeof(T)) * 8 + 3));
    CHECKM(hash(T(1)) != hash(T(x)), "a different value hashes differently");
}
HARNESS(integers) {
    switch(vx_choose("type", 9)) {
    case 0: scalar<u8>(); break;
    case 1: scalar<i8>(); break;
    case 2: scalar<u16>(); break;
    case 3: scalar<i16>(); break;
    case 4: scalar<u32>(); break;
    case 5: scalar<i32>(); break;
    case 6: scalar<u64>(); break;
    case 7: scalar<i64>(); break;
    case 8: scalar<char>(); break;
    }
}
HARNESS(floats) {
    if(vx_choose("double", 2)) scalar<f64>();
    else scalar<f32>();
}
HARNESS(pointers) {
    static int obj[8];
    u64 i = (u64)vx_choose("a", 8), j = (u64)vx_choose("b", 8);
    int *p = obj + i, *q = obj + j;
    if(i == j) CHECKM(hash(p) == hash(q), "equal pointers hash equally");
    else CHECKM(hash(p) != hash(q), "neighbouring addresses hash differently");
}
HARNESS(value_matters) {
    switch(vx_choose("type", 4)) {
    case 0: differs<u64>(); break;
    case 1: differs<i32>(); break;
    case 2: differs<u16>(); break;
    case 3: differs<u8>(); break;
    }
}
HARNESS(strings) {
    const u64 N = QT(5, 8);
    u64 n = (u64)vx_choose("length", (int)N + 1);
    u8 a[8 + 8], b[8 + 8];
    for(auto& c : a) c = (u8)vx_bits("byte", 8); // text with arbitrary bytes before and after
    for(auto& c : b) c = (u8)vx_bits("byte", 8);
    u64 at = (u64)vx_choose("offset", 3);
    for(u64 i = 0; i < n; i++) vx_assume(a[at + i] == b[3 + i]);
    String_View x(a + at, n), y(b + 3, n);
    u64 h = hash(x);
    CHECKM(x == y, "the views are equal");
    CHECKM(hash(y) == h, "equal views hash equally");
    auto s = x.string<Mdefault>();
    auto t = y.string<Mhidden>();
    CHECKM(hash(s) == h, "a string hashes like its view");
    CHECKM(hash(t) == h, "strings of different allocators hash alike");
    CHECKM(hash_nonzero(s) == hash_nonzero(y) && hash_nonzero(s) != 0, "non-zero form");
    String<> grown(N + 6); // leftover bytes and spare capacity do not matter
    grown.set_length(n);
    for(u64 i = 0; i < n; i++) grown[i] = a[at + i];
    CHECKM(hash(grown) == h, "capacity does not matter");
    auto c = s.clone();
    CHECKM(hash(c) == h, "a copy hashes alike");
}
HARNESS(string_bytes_matter) { // each byte and the length influence the hash
    u64 n = 3;
    u8 a[3] = {7, 7, 7}, b[4] = {7, 7, 7, 7};
    u64 i = (u64)vx_choose("byte", 4);
    if(i < 3) b[i] = 9;
    else n = 4;
    CHECKM(hash(String_View(a, 3)) != hash(String_View(b, n)), "every byte and the length matter");
    u8 c[2] = {1, 2}, d[2] = {2, 1};
    CHECKM(hash(String_View(c, 2)) != hash(String_View(d, 2)), "the order of bytes matters");
}
// every pair of equal values: the same value, or the two zeros
template<typename T>
static void equal(T& a, T& b) {
    a = b = any<T>();
    if constexpr(Same<T, f32>) {
        int z = vx_choose("zeros", 3);
        if(z) a = z == 1 ? 0.0f : -0.0f, b = -a;
    }
}
template<typename T, u64 N>
static void vect() {
    Math::Vect<T, N> a, b;
    for(u64 i = 0; i < N; i++) equal(a[i], b[i]);
    CHECKM(hash(a) == hash(b), "equal vectors hash equally");
    Math::Vect<T, N> c, d;
    u64 i = (u64)vx_choose("component", (int)N);
    c[i] = T(1);
    d[i] = T(2);
    CHECKM(hash(c) != hash(d), "every component matters");
}
HARNESS(vectors) {
    switch(vx_choose("type", 6)) {
    case 0: vect<f32, 2>(); break;
    case 1: vect<f32, 3>(); break;
    case 2: vect<f32, 4>(); break;
    case 3: vect<i32, 2>(); break;
    case 4: vect<i32, 3>(); break;
    case 5: vect<u32, 4>(); break;
    }
}
HARNESS(combined) {
    u64 a, c;
    i32 b, d;
    f32 e, f;
    equal(a, c), equal(b, d), equal(e, f);
    CHECKM(hash(a, b) == hash(c, d), "equal pairs hash equally");
    CHECKM(hash(a, b, e) == hash(c, d, f), "equal triples hash equally");
    CHECKM(hash(1u, 2u, 3u) != hash(1u, 2u, 4u) && hash(1u, 2u, 3u) != hash(1u, 5u, 3u) && hash(1u, 2u, 3u) != hash(0u, 2u, 3u), "every part matters");
}
HARNESS(locations) {
    u8 a[4], b[4];
    for(int i = 0; i < 4; i++) a[i] = (u8)vx_bits("byte", 8), b[i] = (u8)vx_bits("byte", 8);
    u64 line = any<u64>(), other = any<u64>();
    vx_assume((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3]) & (line == other));
    Log::Location x{String_View(a, 2), String_View(a + 2, 2), line}, y{String_View(b, 2), String_View(b + 2, 2), other};
    CHECKM(x == y, "the locations are equal");
    CHECKM(hash(x) == hash(y), "equal locations hash equally");
    Log::Location z{"f"_v, "g"_v, 1}, w{"f"_v, "g"_v, 2};
    CHECKM(hash(z) != hash(w), "the line matters");
}
