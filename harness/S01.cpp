// vx: * jobs=4 time=400 time_t=800
// bounds: all byte strings (every byte value) of length 0..4 (thorough 0..6) for construction, clone, move, terminate, append, write, comparison and hashing of views and owning strings in every mix; all 64-bit indices and sub-ranges
// bounds: text of literals and C strings of length 0..4
// outside: longer strings; allocation failure; ordering of embedded multi-byte characters beyond byte order
#include "text.h"

#define N QT(4, 6)

HARNESS(own_and_copy) {
    Leak leak;
    {
        Text t = any_text<N>();
        String<> s = t.view().string();
        CHECKM(same_bytes(s.view(), t.mem.data(), t.n), "a string holds the bytes it was built from");
        CHECKM(s.length() == t.n && s.empty() == (t.n == 0) && s.capacity() >= t.n, "string length");
        if(t.n) CHECKM(s.data() != t.mem.data(), "a string owns its bytes");
        String<> c = s.clone();
        String_View v = t.view().clone();
        CHECKM(same_bytes(v, t.mem.data(), t.n), "a cloned view denotes the same bytes");
        if(t.n) {
            u64 i = vx_bits("i", 64);
            vx_assume(i < t.n);
            u8 b = (u8)vx_bits("new", 8);
            s[i] = b;
            CHECKM(s[i] == b, "string write");
            CHECKM(same_bytes(c.view(), t.mem.data(), t.n), "a cloned string is independent");
            s[i] = t.mem[i];
        }
        String<> m{rpp::move(s)};
        CHECKM(s.empty() && s.length() == 0 && s.capacity() == 0 && s.data() == null, "moved-from string is empty");
        CHECKM(same_bytes(m.view(), t.mem.data(), t.n), "moved string keeps its bytes");
        s = rpp::move(m);
        CHECKM(same_bytes(s.view(), t.mem.data(), t.n), "move-assigned string keeps its bytes");
        u64 k = 0;
        const String<>& cs = s;
        for(u8 b : cs) CHECKM(b == t.mem[k++], "string iteration");
        CHECKM(k == t.n, "string iteration");
        k = 0;
        for(u8 b : t.view()) CHECKM(b == t.mem[k++], "view iteration");
    }
    leak.done();
    vx_reach("end");
}
HARNESS(terminate) {
    Leak leak;
    {
        Text t = any_text<N>();
        String<> s = t.view().string();
        String<> a = t.view().terminate<Mdefault>(), b = s.terminate<Mdefault>();
        CHECKM(a.length() == t.n + 1 && b.length() == t.n + 1, "terminated copy has one extra byte");
        CHECKM(same_bytes(a.sub(0, t.n), t.mem.data(), t.n) && same_bytes(b.sub(0, t.n), t.mem.data(), t.n), "terminated copy holds the bytes");
        CHECKM(a[t.n] == 0 && b[t.n] == 0, "terminated copy ends with a zero byte");
    }
    leak.done();
    vx_reach("end");
}
HARNESS(append) {
    Leak leak;
    {
        Text x = any_text<QT(3, 4)>("x"), y = any_text<QT(3, 4)>("y");
        String<> a = x.view().append<Mdefault>(y.view());
        String<> sx = x.view().string(), sy = y.view().string();
        String<> b = sx.append<Mdefault>(sy);
        CHECKM(a.length() == x.n + y.n && b.length() == x.n + y.n, "appended length");
        CHECKM(same_bytes(a.sub(0, x.n), x.mem.data(), x.n) && same_bytes(a.sub(x.n, x.n + y.n), y.mem.data(), y.n), "appended bytes");
        CHECKM(same_bytes(b.sub(0, x.n), x.mem.data(), x.n) && same_bytes(b.sub(x.n, x.n + y.n), y.mem.data(), y.n), "appended bytes");
        CHECKM(same_bytes(sx.view(), x.mem.data(), x.n) && same_bytes(sy.view(), y.mem.data(), y.n), "append leaves its operands alone");
    }
    leak.done();
    vx_reach("end");
}
HARNESS(compare) {
    Text x = any_text<QT(3, 5)>("x"), y = any_text<QT(3, 5)>("y");
    String_View vx = x.view(), vy = y.view();
    String<> sx = vx.string(), sy = vy.string();
    bool eq = same_bytes(vx, y.mem.data(), y.n);
    CHECKM((vx == vy) == eq, "view equality is byte equality");
    CHECKM((sx == sy) == eq, "string equality is byte equality");
    CHECKM((sx == vy) == eq, "string/view equality is byte equality");
    CHECKM((vx == sy) == eq, "view/string equality is byte equality");
    if(eq) {
        CHECKM(rpp::hash(vx) == rpp::hash(vy) && rpp::hash(sx) == rpp::hash(vy) && rpp::hash(sx) == rpp::hash(sy), "equal strings hash equally");
        vx_reach("equal");
    } else vx_reach("different");
    // lexicographic byte order
    bool lt = false, decided = false;
    u64 m = x.n < y.n ? x.n : y.n;
    for(u64 i = 0; i < m; i++) {
        bool d = x[i] != y[i];
        lt = lt | (!decided & d & (x[i] < y[i]));
        decided = decided | d;
    }
    lt = lt | (!decided & (x.n < y.n));
    CHECKM((vx < vy) == lt, "view order is lexicographic byte order");
    CHECKM((sx < sy) == lt, "string order is lexicographic byte order");
}
HARNESS(index) {
    Text t = any_text<3>();
    String<> s = t.view().string();
    const String<>& cs = s;
    u64 i = vx_bits("index", 64);
    if(i < t.n) {
        CHECKM(s[i] == t[i] && cs[i] == t[i] && t.view()[i] == t[i], "indexed byte");
        vx_reach("in");
    } else {
        vx_reach("out");
        switch(vx_choose("which", 3)) {
        case 0: MUST_DIE(s[i]); break;
        case 1: MUST_DIE(cs[i]); break;
        case 2: MUST_DIE(t.view()[i]); break;
        }
    }
}
HARNESS(sub) {
    Text t = any_text<3>();
    String<> s = t.view().string();
    u64 a = vx_bits("start", 64), b = vx_bits("end", 64);
    if(a <= b && b <= t.n) {
        String_View p = t.view().sub(a, b), q = s.sub(a, b);
        CHECKM(p.length() == b - a && q.length() == b - a, "sub-string length");
        CHECKM(p.data() == t.mem.data() + a || b == a, "sub-string position");
        u64 i = vx_bits("i", 64);
        vx_assume(i < b - a);
        CHECKM(p[i] == t[a + i] && q[i] == t[a + i], "sub-string byte");
        vx_reach("in");
    } else {
        vx_reach("out");
        if(vx_choose("which", 2)) MUST_DIE(t.view().sub(a, b));
        else MUST_DIE(s.sub(a, b));
    }
}
HARNESS(set_length) {
    String<> s{4};
    CHECKM(s.length() == 0 && s.capacity() == 4, "reserved string is empty");
    u64 n = vx_bits("length", 64);
    if(n <= 4) {
        s.set_length(n);
        CHECKM(s.length() == n && s.capacity() == 4, "set_length");
        vx_reach("in");
    } else MUST_DIE(s.set_length(n));
}
HARNESS(write) {
    Text t = any_text<2>("text");
    u64 i = vx_bits("at", 64);
    char c = (char)vx_bits("c", 8);
    u8 old[3] = {1, 2, 3};
    String<> s = String_View{old, 3}.string();
    String<> o = t.view().string();
    switch(vx_choose("what", 3)) {
    case 0:
        if(i < 3) {
            CHECKM(s.write(i, c) == i + 1, "write returns the next position");
            for(u64 k = 0; k < 3; k++) CHECKM(s[k] == (k == i ? (u8)c : old[k]), "character write");
            vx_reach("char");
        } else MUST_DIE(s.write(i, c));
        break;
    case 1:
        if(i <= 3 && t.n <= 3 - i) {
            CHECKM(s.write(i, t.view()) == i + t.n, "write returns the next position");
            for(u64 k = 0; k < 3; k++) CHECKM(s[k] == (k >= i && k < i + t.n ? t[vx_concrete(k - i)] : old[k]), "text write");
            vx_reach("view");
        } else MUST_DIE(s.write(i, t.view()));
        break;
    case 2:
        if(i <= 3 && t.n <= 3 - i) {
            CHECKM(s.write(i, o) == i + t.n, "write returns the next position");
            for(u64 k = 0; k < 3; k++) CHECKM(s[k] == (k >= i && k < i + t.n ? t[vx_concrete(k - i)] : old[k]), "text write");
            vx_reach("string");
        } else MUST_DIE(s.write(i, o));
        break;
    }
    CHECKM(s.length() == 3, "writing does not change the length");
}
HARNESS(from_literals) {
    CHECKM("abc"_v.length() == 3 && ""_v.empty() && "a\0b"_v.length() == 3, "literal length");
    CHECKM("a\0b"_v[1] == 0 && "a\0b"_v[2] == 'b', "literal bytes");
    CHECKM(String_View{"xyz"} == "xyz"_v && String_View{Literal{"lit"}} == "lit"_v, "C string and literal views");
    Text t = any_text<4>();
    for(u64 i = 0; i < t.n; i++) vx_assume(t[i] != 0);
    String<> z = t.view().terminate<Mdefault>();
    String_View v{reinterpret_cast<const char*>(z.data())};
    CHECKM(same_bytes(v, t.mem.data(), t.n), "view of a C string ends at its terminator");
    CHECKM(!("a\0b"_v == "a\0c"_v), "bytes after a zero byte count");
    vx_reach("end");
}
HARNESS(ascii) {
    u8 c = (u8)vx_bits("c", 8);
    bool low = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z';
    CHECKM(rpp::ascii::to_uppercase(c) == (low ? c - 32 : c), "upper case");
    CHECKM(rpp::ascii::to_lowercase(c) == (up ? c + 32 : c), "lower case");
    CHECKM(rpp::ascii::is_whitespace(c) == (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v'), "white space");
    vx_reach("end");
}
