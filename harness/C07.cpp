// vx: * jobs=4 time=400 time_t=800
// bounds: every history of 4 (thorough 5) of 7 operations over two function objects and 5 kinds of callable (captureless, trivial capture, owning capture, self-referential capture, capture of exactly the maximal size); all captured and passed values
// bounds: arguments of by-value, reference, constant reference, rvalue-reference and move-only type; results by value, reference and move-only type; 1- and 8-word function objects
// outside: longer histories; callables that re-enter or destroy the function object that runs them
#include "model.h"

using F = Function<u32(u32)>;
struct Model {
    int kind = -1; // -1 empty
    u32 cap = 0, calls = 0;
};
static F make(int kind, u32 c) {
    switch(kind) {
    case 0: return F([](u32 x) { return x ^ 0x55u; });
    case 1: return F([c](u32 x) { return x + c; });
    case 2: return F([t = Tok(c)](u32 x) { return x - val(t); });
    case 3: return F([t = Cpy(c), n = 0u](u32 x) mutable { return n++, x * 2 + val(t) + n; });
    default:
        return F([a = (u64)c, b = (u64)c + 1, d = (u64)c + 2, e = (u64)c + 3](u32 x) {
            CHECKM(b == a + 1 && d == a + 2 && e == a + 3, "captured state is damaged");
            return (u32)a + x;
        });
    }
}
static u32 expect(Model& m, u32 x) {
    switch(m.kind) {
    case 0: return x ^ 0x55u;
    case 1: return x + m.cap;
    case 2: return x - m.cap;
    case 3: return x * 2 + m.cap + ++m.calls;
    default: return m.cap + x;
    }
}
HARNESS(function_history) {
    Leak leak;
    {
        int k0 = vx_choose("kind", 5), k1 = vx_choose("kind", 5);
        u32 c0 = sym32(), c1 = sym32();
        F f[2] = {make(k0, c0), make(k1, c1)};
        Model m[2] = {{k0, c0, 0}, {k1, c1, 0}};
        for(int s = 0; s < QT(3, 4); s++) {
            int i = s & 1 ? vx_choose("which", 2) : 0, j = 1 - i;
            switch(vx_choose("op", 5)) {
            case 0:
                f[i] = rpp::move(f[j]);
                m[i] = m[j];
                m[j].kind = -1;
                break;
            case 1: {
                F t{rpp::move(f[i])};
                if(vx_choose("call", 2)) MUST_DIE(f[i](1));
                Model k = m[i];
                if(k.kind >= 0) {
                    u32 x = sym32("arg");
                    CHECKM(t(x) == expect(k, x), "moved Function runs its callable");
                }
                f[i] = rpp::move(t);
                m[i] = k;
            } break;
            case 2: {
                int k = vx_choose("kind", 5);
                u32 c = sym32();
                f[i] = make(k, c);
                m[i] = {k, c, 0};
            } break;
            case 3: {
                u32 x = sym32("arg");
                if(m[i].kind >= 0) CHECKM(f[i](x) == expect(m[i], x), "Function runs the stored callable with its argument");
                else MUST_DIE(f[i](x));
            } break;
            case 4: {
                F* self = &f[i];
                f[i] = rpp::move(*self); // comes out empty or unchanged
                F probe{rpp::move(f[i])};
                m[i].kind = -1;
            } break;
            }
        }
        for(int i = 0; i < 2; i++)
            if(m[i].kind >= 0) {
                u32 x = sym32("arg");
                CHECKM(f[i](x) == expect(m[i], x), "Function runs the stored callable with its argument");
            }
        // state is ended exactly once: tokens alive equals owning functions alive
        CHECKM(Tok::count == (m[0].kind == 2 ? 1u : 0u) + (m[1].kind == 2 ? 1u : 0u), "captured state is destroyed exactly once");
    }
    leak.done();
    CHECKM(Tok::count == 0, "captured state is never destroyed");
    vx_reach("end");
}
HARNESS(function_args) {
    u32 a = sym32(), b = sym32(), c = sym32();
    switch(vx_choose("case", 9)) {
    case 0: {
        Function<u32(u32&, const u32&)> f([](u32& x, const u32& y) {
            x += y;
            return x ^ y;
        });
        u32 x = a;
        u32 r = f(x, b);
        CHECKM(x == a + b && r == ((a + b) ^ b), "reference arguments refer to the caller's objects");
    } break;
    case 1: {
        Function<u32(Tok)> f([](Tok t) { return val(t); });
        u32 at = Tok::next;
        u32 r = f(Tok(a));
        CHECKM(r == a && Tok::next == at + 1 && Tok::count == 0, "by-value arguments are moved through");
    } break;
    case 2: {
        Function<Tok(Tok&&)> f([](Tok&& t) { return Tok(rpp::move(t)); });
        Tok t(a);
        Tok u = f(rpp::move(t));
        CHECKM(val(u) == a && t.id == 0 && Tok::count == 1, "rvalue arguments are moved, results returned");
    } break;
    case 3: {
        u32 x = a;
        Function<u32&()> f([&x]() -> u32& { return x; });
        f() = b;
        CHECKM(x == b, "reference results refer to the callable's object");
    } break;
    case 4: {
        Function<u64(u8, u64, f32, u16, u32)> f([](u8 p, u64 q, f32 r, u16 s, u32 t) { return (u64)p + q * 3 + (r == 1.0f) + s * (u64)5 + t * (u64)7; });
        u64 q = vx_bits("q", 64);
        CHECKM(f((u8)a, q, 1.0f, (u16)b, c) == (u64)(u8)a + q * 3 + 1 + (u16)b * (u64)5 + c * (u64)7, "argument order and width");
    } break;
    case 5: {
        u32 hit = 0;
        Function<void(u32)> f([&hit](u32 x) { hit = x; });
        f(a);
        CHECKM(hit == a, "void result");
    } break;
    case 6: {
        FunctionN<1, u32(u32)> f([p = &a](u32 x) { return *p + x; });
        FunctionN<1, u32(u32)> g{rpp::move(f)};
        CHECKM(g(b) == a + b, "one-word function object");
        MUST_DIE(f(b));
    } break;
    case 7: {
        struct Big { u32 v[16]; } big;
        for(u32 i = 0; i < 16; i++) big.v[i] = a + i;
        FunctionN<8, u32(u32)> f([big](u32 i) { return big.v[i]; });
        big.v[3] = 0;
        FunctionN<8, u32(u32)> g{rpp::move(f)};
        f = rpp::move(g);
        u32 i = (u32)vx_bits("i", 4);
        CHECKM(f(i) == a + i, "captured array survives moves");
    } break;
    case 8: {
        struct alignas(16) W { u64 a, b; };
        W w{a, b};
        Function<bool(u64)> f([w](u64 x) {
            CHECKM(((uptr)&w & 15) == 0, "captured state is under-aligned");
            return w.a + w.b == x;
        });
        CHECKM(f((u64)a + b), "over-aligned capture");
    } break;
    }
    CHECKM(Tok::count == 0 || Tok::count == 1, "arguments are destroyed once");
    vx_reach("end");
}
HARNESS(function_in_containers) {
    Leak leak;
    {
        Vec<F> v;
        u32 a = sym32(), x = sym32();
        for(u32 i = 0; i < 9; i++) v.push(make((int)(i % 5), a + i));
        for(u32 i = 0; i < 9; i++) {
            Model m{(int)(i % 5), a + i, 0};
            CHECKM(v[i](x) == expect(m, x), "stored functions survive container growth");
        }
        Opt<F> o{rpp::move(v[2])};
        MUST_DIE(v[2](x));
    }
    leak.done();
}
