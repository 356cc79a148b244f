// vx: * jobs=4 time=400 time_t=800
// bounds: tuples of arity 0..5 and pairs with fields of 1 to 32 bytes, mixed alignment and ownership: every field, every value, writing/moving/cloning any one field
// outside: arity above 5
#include "model.h"
#include <rpp/tuple.h>

struct alignas(16) W {
    u64 a, b;
};
HARNESS(tuple5) {
    u8 a = (u8)vx_bits("a", 8);
    u64 b = vx_bits("b", 64);
    u16 c = (u16)vx_bits("c", 16);
    W d{vx_bits("d", 64), vx_bits("d", 64)};
    u32 e = sym32();
    using T = Tuple<u8, u64, u16, W, u32>;
    T t{u8{a}, u64{b}, u16{c}, W{d}, u32{e}};
    auto eq = [&](const T& x, u8 a, u64 b, u16 c, u64 d1, u64 d2, u32 e) {
        CHECKM(x.get<0>() == a && x.get<1>() == b && x.get<2>() == c && x.get<3>().a == d1 && x.get<3>().b == d2 && x.get<4>() == e, "tuple field");
        CHECKM(((uptr)&x.get<3>() & 15) == 0 && ((uptr)&x.get<1>() & 7) == 0, "tuple field alignment");
    };
    eq(t, a, b, c, d.a, d.b, e);
    CHECKM(t.length() == 5 && Tuple<>{}.length() == 0 && Tuple<u8>{u8{1}}.length() == 1, "tuple length");
    T u = t;
    T v{rpp::move(u)};
    u64 y = vx_bits("y", 64);
    switch(vx_choose("write", 6)) {
    case 0: t.get<0>() = (u8)y; eq(t, (u8)y, b, c, d.a, d.b, e); break;
    case 1: t.get<1>() = y; eq(t, a, y, c, d.a, d.b, e); break;
    case 2: t.get<2>() = (u16)y; eq(t, a, b, (u16)y, d.a, d.b, e); break;
    case 3: t.get<3>() = W{y, ~y}; eq(t, a, b, c, y, ~y, e); break;
    case 4: t.get<4>() = (u32)y; eq(t, a, b, c, d.a, d.b, (u32)y); break;
    case 5: {
        auto& [p, q, r, s, w] = t;
        CHECKM(p == a && q == b && r == c && s.a == d.a && w == e, "structured binding of a tuple");
        q = y;
        eq(t, a, y, c, d.a, d.b, e);
    } break;
    }
    eq(v, a, b, c, d.a, d.b, e);
    u = v;
    eq(u, a, b, c, d.a, d.b, e);
    vx_reach("end");
}
HARNESS(tuple_invoke) {
    u32 a = sym32(), b = sym32(), c = sym32();
    Tuple<u32, u32, u32> t{u32{a}, u32{b}, u32{c}};
    u32 r = t.invoke([](u32 x, u32 y, u32 z) { return x * 3 + y * 5 + z * 7; });
    CHECKM(r == a * 3 + b * 5 + c * 7, "tuple invocation passes the fields in order");
    Tuple<> e;
    CHECKM(e.invoke([&] { return a; }) == a, "empty tuple invocation");
    auto k = e.clone();
    (void)k;
    Tuple<u32, u32> p{u32{a}, u32{b}};
    CHECKM(p.invoke([](u32 x, u32 y) { return x - y; }) == a - b, "pair invocation");
    vx_reach("end");
}
HARNESS(tuple_clone) {
    u32 a = sym32(), b = sym32();
    {
        Tuple<Tok, u32, Cpy> t{Tok(a), u32{b}, Cpy(a + b)};
        u32 at = Tok::next;
        Tuple<Tok, u32, Cpy> m{rpp::move(t)};
        CHECKM(val(m.get<0>()) == a && m.get<1>() == b && val(m.get<2>()) == a + b, "moved tuple");
        CHECKM(t.get<0>().id == 0 && Tok::next == at, "moving a tuple copies a field");
        t = rpp::move(m);
        CHECKM(val(t.get<0>()) == a && t.get<1>() == b && val(t.get<2>()) == a + b, "move-assigned tuple");
        Tuple<Tok, Cpy> s{Tok(b), Cpy(a)};
        at = Tok::next;
        Tuple<Tok, Cpy> c = s.clone();
        CHECKM(Tok::next == at + 1 && val(c.get<0>()) == b && val(c.get<1>()) == a, "cloned tuple");
        c.get<0>() = Tok(9);
        c.get<1>() = Cpy(8);
        CHECKM(val(s.get<0>()) == b && val(s.get<1>()) == a, "cloned tuple is independent");
    }
    CHECKM(Tok::count == 0 && Cpy::live == 0, "tuple fields are destroyed once");
    vx_reach("end");
}
HARNESS(pair_fields) {
    u8 a = (u8)vx_bits("a", 8);
    u64 b = vx_bits("b", 64), y = vx_bits("y", 64);
    Pair<u8, u64> p{u8{a}, u64{b}};
    const Pair<u8, u64> q{p};
    CHECKM(p.first == a && p.second == b && q.get<0>() == a && q.get<1>() == b, "pair fields");
    switch(vx_choose("op", 5)) {
    case 0: p.first = (u8)y; CHECKM(p.second == b && p.get<0>() == (u8)y, "pair write"); break;
    case 1: p.get<1>() = y; CHECKM(p.first == a && p.second == y, "pair write"); break;
    case 2: {
        auto [f, s] = q;
        CHECKM(f == a && s == b, "structured binding of a pair");
    } break;
    case 3: {
        auto& [f, s] = p;
        s = y;
        CHECKM(p.second == y && p.first == a && f == a, "structured binding by reference");
    } break;
    case 4: {
        auto c = q.clone();
        c.first ^= 1;
        c.second = y;
        CHECKM(q.first == a && q.second == b, "cloned pair is independent");
        Pair<u8, u64> d;
        d = q;
        CHECKM(d.first == a && d.second == b, "assigned pair");
    } break;
    }
    CHECKM(q.first == a && q.second == b, "other pair untouched");
    vx_reach("end");
}
HARNESS(pair_owning) {
    u32 a = sym32(), b = sym32();
    {
        Pair<Tok, Cpy> p{Tok(a), Cpy(b)};
        u32 at = Tok::next;
        auto c = p.clone();
        CHECKM(Tok::next == at + 1, "pair clone copies once");
        CHECKM(val(c.first) == a && val(c.second) == b && val(p.first) == a && val(p.second) == b, "cloned pair");
        Pair<Tok, Cpy> m{rpp::move(p)};
        CHECKM(val(m.first) == a && val(m.second) == b && p.first.id == 0, "moved pair");
        p = rpp::move(c);
        CHECKM(val(p.first) == a && val(p.second) == b, "move-assigned pair");
        Pair<Cpy, Tok> r{Cpy(b), Tok(a)};
        auto s = r.clone();
        CHECKM(val(s.first) == b && val(s.second) == a, "cloned pair");
        const Cpy k(b);
        Pair<Cpy, Cpy> u{k, k};
        auto w = u.clone();
        Pair<Cpy, Cpy> x{u};
        CHECKM(val(w.first) == b && val(x.second) == b && val(u.first) == b, "copied pair");
        Pair<Cpy, Tok> z{k, Tok(a)};
        Pair<Tok, Cpy> zz{Tok(a), k};
        CHECKM(val(z.first) == b && val(z.second) == a && val(zz.first) == a && val(zz.second) == b, "mixed pair");
        Pair<Tok, Tok> tt{Tok(a), Tok(b)};
        auto tc = tt.clone();
        CHECKM(val(tc.first) == a && val(tc.second) == b, "cloned pair");
        rpp::swap(tt.first, tc.second);
        CHECKM(val(tt.first) == b && val(tc.second) == a, "swap exchanges values");
    }
    CHECKM(Tok::count == 0 && Cpy::live == 0, "pair fields are destroyed once");
    vx_reach("end");
}
HARNESS(storage) {
    u32 a = sym32();
    {
        u8 pad0 = 1;
        Storage<Tok> s;
        u8 pad1 = 2;
        s.construct(a);
        CHECKM(val(*s) == a && s->value == a && (void*)s.data() == (void*)&*s, "storage holds the constructed object");
        *s = Tok(a + 1);
        CHECKM(val(*s) == a + 1, "storage assignment");
        s.destruct();
        CHECKM(Tok::count == 0, "storage destroys its object");
        s.construct(Tok(a));
        CHECKM(val(*s) == a, "storage can be reused");
        s.destruct();
        CHECKM(pad0 == 1 && pad1 == 2, "neighbours untouched");
    }
    Storage<W> w[2];
    CHECKM(((uptr)w[0].data() & 15) == 0 && ((uptr)w[1].data() & 15) == 0, "storage alignment");
    w[1].construct(W{1, 2});
    w[0].construct(W{vx_bits("x", 64), 4});
    CHECKM(w[1]->a == 1 && w[1]->b == 2 && w[0]->b == 4, "storages are disjoint");
    Storage<u32> v{a};
    Storage<u32> c = v;
    *v = 0;
    CHECKM(*c == a, "storage copies are independent");
    CHECKM(Tok::count == 0, "storage destroys once");
    vx_reach("end");
}
HARNESS(swap_values) {
    u64 a = vx_bits("a", 64), b = vx_bits("b", 64);
    u64 x = a, y = b;
    rpp::swap(x, y);
    CHECKM(x == b && y == a, "swap exchanges trivially movable values");
    Cpy p((u32)a), q((u32)b);
    rpp::swap(p, q);
    CHECKM(val(p) == (u32)b && val(q) == (u32)a, "swap exchanges values");
    vx_reach("end");
}
HARNESS(ref) {
    u32 a = sym32(), b = sym32();
    u32 x = a, y = b;
    Ref<u32> r{x}, s{y};
    CHECKM(*r == a && *s == b && r.ok(), "reference");
    *r = b + 1;
    CHECKM(x == b + 1 && y == b, "writing through a reference");
    Ref<u32> c = r;
    r = s;
    CHECKM(*r == b && &*c == &x, "rebinding a reference");
    Ref<u32> n;
    CHECKM(!n.ok(), "empty reference");
    Ref<u32> m{rpp::move(r)};
    CHECKM(&*m == &y && !r.ok(), "moved reference");
    switch(vx_choose("which", 3)) {
    case 0: MUST_DIE(*n); break;
    case 1: MUST_DIE(*r); break;
    case 2: CHECKM(&*s == &y, "other reference"); break;
    }
}
