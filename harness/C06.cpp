// vx: * jobs=4 time=400 time_t=800
// bounds: optionals of trivial, owning and copyable values: every history of 5 (thorough 6) of 9 operations; all 32-bit values
// bounds: variants of 2, 4, 8, 9 and 12 alternatives (trivial, owning, self-referential, large, over-aligned): every (previous, next) pair of alternatives by construction, assignment, move, clone and self-move; all values
// outside: longer histories; alternatives whose operations themselves stop the program; use of a moved-from variant other than assigning or destroying it
#include "model.h"
#include <rpp/variant.h>

HARNESS(opt_u32) {
    bool ok = false;
    u32 v = 0;
    Opt<u32> o;
    for(int k = 0; k < QT(5, 6); k++) {
        u32 x = sym32();
        switch(vx_choose("op", 9)) {
        case 0: o = Opt<u32>(u32{x}), ok = true, v = x; break;
        case 1: o = u32{x}, ok = true, v = x; break;
        case 2: o.emplace(x), ok = true, v = x; break;
        case 3: o.clear(), ok = false; break;
        case 4: {
            Opt<u32> c = o;
            CHECKM(c.ok() == ok && (!ok || *c == v), "Opt copy");
            if(ok) {
                *c = x;
                CHECKM(*o == v, "Opt copies are independent");
            } else if(vx_choose("deref", 2)) MUST_DIE(*o);
        } break;
        case 5: {
            Opt<u32> c = o.clone();
            CHECKM(c.ok() == ok && (!ok || *c == v), "Opt clone");
            o = rpp::move(c);
        } break;
        case 6:
            if(ok) *o = x, v = x;
            else {
                const Opt<u32>& c = o;
                if(vx_choose("deref", 2)) MUST_DIE(*c);
            }
            break;
        case 7: {
            Opt<u32> m{rpp::move(o)};
            CHECKM(m.ok() == ok && (!ok || *m == v), "Opt move");
            o = rpp::move(m);
        } break;
        case 8: {
            u32 d = x;
            CHECKM(&o.value_or(d) == (ok ? &*o : &d), "Opt::value_or");
            if(!ok) o = Opt<u32>();
        } break;
        }
        CHECKM(o.ok() == ok, "Opt holds a value exactly when one was stored");
        if(ok) CHECKM(*o == v && *o.operator->() == v, "Opt holds the stored value");
    }
    vx_reach("end");
}
HARNESS(opt_empty) {
    struct P { u32 a; };
    Opt<P> o;
    const Opt<P>& c = o;
    if(vx_choose("used", 2)) {
        o.emplace(P{3});
        o.clear();
    }
    switch(vx_choose("which", 4)) {
    case 0: MUST_DIE(*o); break;
    case 1: MUST_DIE(*c); break;
    case 2: MUST_DIE(o->a); break;
    case 3: MUST_DIE(c->a); break;
    }
}
HARNESS(opt_owning) {
    Leak leak;
    {
        Opt<Tok> o, p;
        bool ok = false;
        u32 v = 0;
        for(int k = 0; k < QT(5, 6); k++) {
            u32 x = sym32();
            switch(vx_choose("op", 7)) {
            case 0: o = Opt<Tok>(Tok(x)), ok = true, v = x; break;
            case 1: o = Tok(x), ok = true, v = x; break;
            case 2: o.emplace(x), ok = true, v = x; break;
            case 3: o.clear(), ok = false; break;
            case 4: {
                u32 at = Tok::next;
                Opt<Tok> c = o.clone();
                CHECKM(Tok::next == at + (ok ? 1 : 0), "Opt::clone copies its value once");
                CHECKM(c.ok() == ok && (!ok || val(*c) == v), "Opt clone");
            } break;
            case 5: {
                u32 at = Tok::next;
                p = rpp::move(o);
                CHECKM(p.ok() == ok && (!ok || val(*p) == v), "Opt move assignment");
                o = rpp::move(p);
                CHECKM(Tok::next == at, "moving an Opt copies its value");
            } break;
            case 6: {
                Opt<Tok>* self = &o;
                o = rpp::move(*self);
                ok = o.ok(); // may come out empty, but never with an ended value
                if(ok) v = val(*o);
            } break;
            }
            CHECKM(o.ok() == ok && (!ok || val(*o) == v), "Opt holds the stored value");
        }
    }
    leak.done();
    CHECKM(Tok::count == 0, "an element was never destroyed");
    vx_reach("end");
}

struct Big {
    u64 w[5];
    u32 v;
    explicit Big(u32 x) : v(x) {
        for(u64 i = 0; i < 5; i++) w[i] = (u64)x * (i + 1);
    }
    u32 get() const {
        for(u64 i = 0; i < 5; i++) CHECKM(w[i] == (u64)v * (i + 1), "Variant corrupts its value");
        return v;
    }
};
struct alignas(32) Wide {
    u32 v;
    explicit Wide(u32 x) : v(x) {
    }
};
template<u32 I>
struct Tag {
    u32 v;
    explicit Tag(u32 x) : v(x) {
    }
};
inline u32 get(const Big& b) {
    return b.get();
}
inline u32 get(const Wide& w) {
    CHECKM(((uptr)&w & 31) == 0, "Variant storage is under-aligned");
    return w.v;
}
inline u32 get(const Tok& t) {
    return val(t);
}
inline u32 get(const Cpy& t) {
    return val(t);
}
inline u32 get(u32 x) {
    return x;
}
template<u32 I>
inline u32 get(const Tag<I>& t) {
    return t.v;
}
template<typename T>
struct TypeId {
    static inline u32 id = 99;
};
template<typename V, typename... Ts>
struct Drive {
    static V make(u32 i, u32 x) {
        V* r = null;
        alignas(V) u8 mem[sizeof(V)];
        u32 k = 0;
        ((k++ == i ? (void)(r = new(mem) V(Ts(x))) : (void)0), ...);
        V out{rpp::move(*r)};
        r->~V();
        return out;
    }
    static void assign(V& v, u32 i, u32 x) {
        u32 k = 0;
        ((k++ == i ? (void)(v = V(Ts(x))) : (void)0), ...);
    }
    static void check(V& v, u32 i, u32 x) {
        CHECKM(v.index() == i, "Variant reports the wrong alternative");
        u32 k = 0;
        ((TypeId<Ts>::id = k++), ...);
        u32 calls = 0, which = 0, value = 0;
        auto f = [&](auto& a) {
            calls++;
            which = TypeId<Decay<decltype(a)>>::id;
            value = get(a);
            return which;
        };
        u32 r = v.match(f);
        CHECKM(calls == 1, "Variant::match runs exactly one handler once");
        CHECKM(which == i && r == i, "Variant::match runs the handler of the held alternative");
        CHECKM(value == x, "Variant holds the stored value");
        calls = 0;
        const V& c = v;
        r = c.match([&](const auto& a) {
            calls++;
            which = TypeId<Decay<decltype(a)>>::id;
            value = get(a);
            return which + 100;
        });
        CHECKM(calls == 1 && which == i && r == i + 100 && value == x, "Variant::match on a constant variant");
    }
};
template<typename... Ts>
static void pairs() {
    using V = Variant<Ts...>;
    using D = Drive<V, Ts...>;
    constexpr int N = sizeof...(Ts);
    Leak leak;
    {
        u32 i = (u32)vx_choose("from", N), j = (u32)vx_choose("to", N);
        u32 x = sym32(), y = sym32();
        V v = D::make(i, x);
        D::check(v, i, x);
        switch(vx_choose("op", 6)) {
        case 0:
            D::assign(v, j, y);
            D::check(v, j, y);
            break;
        case 1: {
            V w = D::make(j, y);
            D::check(w, j, y);
            u32 at = Tok::next;
            v = rpp::move(w);
            CHECKM(Tok::next == at, "moving a Variant copies its value");
            D::check(v, j, y);
            w = D::make(i, x);
            D::check(w, i, x);
        } break;
        case 2: {
            u32 at = Tok::next, before = Tok::count;
            V w = v.clone();
            CHECKM(Tok::next - at <= 1 && Tok::count - before == Tok::next - at, "Variant::clone copies its value once");
            D::check(w, i, x);
            D::assign(w, j, y);
            D::check(v, i, x);
            D::check(w, j, y);
        } break;
        case 3: {
            V w{rpp::move(v)};
            D::check(w, i, x);
            v = D::make(j, y);
            D::check(v, j, y);
            D::check(w, i, x);
        } break;
        case 4: {
            u32 c = 0;
            u32 r = rpp::move(v).match([&](auto&& a) {
                c++;
                return get(a);
            });
            CHECKM(c == 1 && r == x, "Variant::match on an rvalue");
        } break;
        case 5: {
            V* self = &v;
            v = rpp::move(*self);
            D::check(v, i, x);
            D::assign(v, j, y);
            D::check(v, j, y);
        } break;
        }
    }
    leak.done();
    CHECKM(Tok::count == 0, "an element was never destroyed");
    vx_reach("end");
}
HARNESS(variant2_trivial) {
    pairs<u32, Tag<0>>();
}
HARNESS(variant2_owning) {
    pairs<Tok, u32>();
}
HARNESS(variant4) {
    pairs<u32, Tok, Big, Cpy>();
}
HARNESS(variant8) {
    pairs<Tag<0>, Tok, Tag<2>, Tag<3>, Wide, Tag<5>, Cpy, Big>();
}
HARNESS(variant8_trivial) {
    pairs<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Wide, Tag<5>, u32, Big>();
}
HARNESS(variant9) {
    pairs<Tag<0>, Tag<1>, Tok, Tag<3>, Tag<4>, Cpy, Tag<6>, Tag<7>, Big>();
}
HARNESS(variant12) {
    pairs<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>, Tag<5>, Tag<6>, Tag<7>, Tag<8>, Tok, Tag<10>, Wide>();
}
HARNESS(overload_named) {
    u32 x = sym32();
    Variant<Named<"a", u32>, Named<"b", u32>> v{Named<"b", u32>{x}};
    u32 r = v.match(Overload{[](Named<"a", u32>& a) { return a.value + 1; }, [](Named<"b", u32>& b) { return b.value; }});
    CHECKM(r == x && v.index() == 1, "Overload picks the matching handler");
    u32& ref = *new(&r) u32(x);
    Named<"a", u32> n{x};
    u32& conv = n;
    conv = x + 1;
    CHECKM(n.value == x + 1 && ref == x, "Named converts to its value");
    vx_reach("end");
}
