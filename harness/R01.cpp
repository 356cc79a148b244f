// vx: * jobs=2 time=300 time_t=800
// bounds: every generator state and seed, every range of every integer width and signedness, all probabilities, shuffles of 0 to 4 elements (thorough 5), three draws in sequence
// outside: statistical quality; seeding from the clock
#include "model.h"
#include <rpp/rng.h>
using namespace rpp;
static u64 any64(const char* n) {
    return vx_bits(n, 64);
}
template<Float F>
static void unit() {
    RNG::Stream s(any64("state"));
    F u = s.unit<F>();
    CHECKM(u >= F(0), "unit draws are not negative");
    CHECKM(u < F(1), "unit draws are below one");
    if(u >= F(0.5)) { // draws reach every part of the interval
        if(u >= F(0.96875)) vx_reach("upper end");
        else vx_reach("upper half");
    } else {
        if(u < F(0.03125)) vx_reach("lower end");
        else vx_reach("lower half");
    }
}
HARNESS(unit_f32) {
    unit<f32>();
}
HARNESS(unit_f64) {
    unit<f64>();
}
// the low end of the interval is resolved finely: some draw is positive and tiny
HARNESS(unit_fine) {
    RNG::Stream s(any64("state"));
    if(vx_choose("double", 2)) {
        f64 u = s.unit<f64>();
        if((u > 0.0) & (u <= 0x1p-52)) vx_reach("fine doubles");
    } else {
        f32 u = s.unit<f32>();
        if((u > 0.0f) & (u <= 0x1p-23f)) vx_reach("fine floats");
    }
}
template<Int I>
static void range() {
    RNG::Stream s(any64("state"));
    I lo = (I)any64("min"), hi = (I)any64("max");
    vx_assume(lo < hi);
    I r = s.range<I>(lo, hi);
    CHECKM(r >= lo, "ranged draws are at least the minimum");
    CHECKM(r < hi, "ranged draws are below the maximum");
}
HARNESS(range_unsigned) {
    switch(vx_choose("width", 4)) {
    case 0: range<u8>(); break;
    case 1: range<u16>(); break;
    case 2: range<u32>(); break;
    case 3: range<u64>(); break;
    }
}
HARNESS(range_signed) {
    switch(vx_choose("width", 4)) {
    case 0: range<i8>(); break;
    case 1: range<i16>(); break;
    case 2: range<i32>(); break;
    case 3: range<i64>(); break;
    }
}
HARNESS(range_reaches_all) { // every value of a small range can be drawn
    RNG::Stream s(any64("state"));
    i32 r = s.range<i32>(-2, 2);
    switch(r) {
    case -2: vx_reach("-2"); break;
    case -1: vx_reach("-1"); break;
    case 0: vx_reach("0"); break;
    case 1: vx_reach("1"); break;
    default: CHECKM(false, "ranged draws lie in the range");
    }
}
static u64 draw(RNG::Stream& s, int op) {
    switch(op) {
    case 0: return s();
    case 1: return s.integer<u32>();
    case 2: {
        f32 f = s.unit<f32>();
        u32 b;
        __builtin_memcpy(&b, &f, 4);
        return b;
    }
    case 3: return (u64)s.range<i32>(-5, 6);
    default: return s.coin_flip(0.25f);
    }
}
HARNESS(reproducible) {
    u64 seed = any64("seed");
    RNG::Stream a(seed), b(any64("other")), c(seed);
    b.seed(seed);
    bool same = true;
    for(int i = 0; i < 3; i++) {
        int op = vx_choose("draw", 5);
        u64 x = draw(a, op), y = draw(b, op);
        (void)c(); // every draw advances the state by one step
        same = same & (x == y);
    }
    CHECKM(same, "equal seeds give equal sequences");
    CHECKM(a() == c(), "every draw advances the state");
    RNG::Stream d = a;
    CHECKM(d() == a(), "a copy continues the sequence");
}
HARNESS(sequence_moves) { // the state is not stuck
    RNG::Stream s(any64("state"));
    u64 x = s(), y = s();
    if((x ^ y) & 1) vx_reach("two different draws");
}
HARNESS(coin) {
    u64 seed = any64("state");
    RNG::Stream a(seed), b(seed), c(seed), d(seed);
    CHECKM(!a.coin_flip(0.0f), "probability zero never succeeds");
    CHECKM(b.coin_flip(1.0f), "probability one always succeeds");
    CHECKM(!c.coin_flip(0.0), "probability zero never succeeds");
    CHECKM(d.coin_flip(1.0), "probability one always succeeds");
    RNG::Stream e(seed), f(seed);
    f32 p = 0.5f, q = 0.75f;
    bool x = e.coin_flip(p), y = f.coin_flip(q);
    CHECKM(!x | y, "a likelier coin succeeds whenever a less likely one does");
    if(x) vx_reach("heads");
    else if(y) vx_reach("heads only for the likelier coin");
    else vx_reach("tails");
}
HARNESS(shuffle) {
    const u64 N = QT(4, 5);
    u64 n = (u64)vx_choose("length", (int)N + 1);
    RNG::Stream s(any64("state"));
    Vec<u32> v;
    u32 at[5], seen = 0;
    for(u64 i = 0; i < n; i++) v.push(at[i] = (u32)vx_bits("element", 32));
    Vec<u32> idx; // the same state moves indices the same way
    for(u64 i = 0; i < n; i++) idx.push((u32)i);
    RNG::Stream t = s;
    s.shuffle(v);
    t.shuffle(idx);
    CHECKM(v.length() == n && idx.length() == n, "shuffling keeps the length");
    for(u64 i = 0; i < n; i++) {
        CHECKM(idx[i] < n, "shuffling invents nothing");
        CHECKM(!(seen >> idx[i] & 1), "shuffling repeats nothing");
        seen |= 1u << idx[i];
        CHECKM(v[i] == at[idx[i]], "the shuffle is a permutation of the elements");
    }
    if(n == 3) {
        switch(idx[0] * 100 + idx[1] * 10 + idx[2]) { // every order can come out
        case 12: vx_reach("012"); break;
        case 21: vx_reach("021"); break;
        case 102: vx_reach("102"); break;
        case 120: vx_reach("120"); break;
        case 201: vx_reach("201"); break;
        case 210: vx_reach("210"); break;
        }
    }
}
HARNESS(shuffle_moves) { // elements are moved, never copied or dropped
    u64 n = (u64)vx_choose("length", 4);
    {
        RNG::Stream s(any64("state"));
        Vec<Tok> v;
        for(u64 i = 0; i < n; i++) v.push(Tok{(u32)i});
        s.shuffle(v);
        u32 sum = 0;
        for(auto& e : v) sum += 1u << (4 * val(e));
        u32 want = 0;
        for(u64 i = 0; i < n; i++) want += 1u << (4 * i);
        CHECKM(sum == want, "every element is still there once");
    }
}
