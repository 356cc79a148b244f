// vx: vec_u32 jobs=8 time=400 time_t=840
// bounds: Vec/Stack/Array/Slice of 32-bit values (all values symbolic): every history of 3 (thorough 4) operations out of 12 from 6 starting shapes (empty, reserved, full at 8, filled)
// bounds: every 64-bit index for operator[] and every (start,length) pair of 64-bit values for Slice::sub on sequences of length 0..4
// outside: longer histories; allocation failure; arguments of emplace/push(T&&) that alias an element while the storage grows
#include "seqops.h"
#include <rpp/array.h>

HARNESS(vec_u32) {
    vec_history<u32, true>(QT(3, 4));
    vx_reach("end");
}
HARNESS(stack_lifo) {
    Leak leak;
    {
        Seq<32> r;
        Stack<u32> s;
        if(vx_choose("prefill", 2)) {
            for(u32 i = 0; i < 8; i++) {
                s.push(i);
                r.push(i);
            }
        }
        for(int k = 0; k < QT(5, 6); k++) {
            switch(vx_choose("op", 6)) {
            case 0: {
                u32 x = sym32();
                s.push(rpp::move(x));
                r.push(x);
            } break;
            case 1: {
                u32 x = sym32();
                s.emplace(x);
                r.push(x);
            } break;
            case 2:
                if(r.n) {
                    CHECKM(s.top() == r.v[r.n - 1], "Stack::top");
                    s.pop();
                    r.pop_back();
                } else MUST_DIE(s.pop());
                break;
            case 3:
                s.clear();
                r.n = 0;
                break;
            case 4: {
                Stack<u32> c = s.clone();
                Stack<u32> m{rpp::move(s)};
                CHECKM(s.empty() && s.length() == 0, "moved-from Stack is empty");
                s.push(5u);
                s = rpp::move(c);
                CHECKM(m.length() == r.n, "moved Stack keeps its elements");
            } break;
            case 5: {
                const u32 x = sym32();
                s.push(x);
                r.push(x);
            } break;
            }
            CHECKM(s.length() == r.n && s.empty() == (r.n == 0), "Stack length");
            if(r.n) CHECKM(s.top() == r.v[r.n - 1], "Stack::top is the most recent push");
            else MUST_DIE(s.top());
            u64 i = 0;
            for(u32 x : s) CHECKM(i < r.n && x == r.v[i++], "Stack iteration is bottom to top");
            CHECKM(i == r.n, "Stack iteration");
        }
    }
    leak.done();
    vx_reach("end");
}
HARNESS(vec_index) {
    Vec<u32> v;
    u32 a[4];
    u64 n = (u64)vx_choose("n", 5);
    for(u64 i = 0; i < n; i++) {
        a[i] = sym32();
        v.push(a[i]);
    }
    u64 i = vx_bits("index", 64);
    const Vec<u32>& cv = v;
    if(i < n) {
        CHECKM(v[i] == a[i] && cv[i] == a[i] && v.slice()[i] == a[i] && cv.slice()[i] == a[i], "indexed element");
        vx_reach("in");
    } else {
        vx_reach("out");
        switch(vx_choose("which", 4)) {
        case 0: MUST_DIE(v[i]); break;
        case 1: MUST_DIE(cv[i]); break;
        case 2: MUST_DIE(v.slice()[i]); break;
        case 3: MUST_DIE(cv.slice()[i]); break;
        }
    }
}
HARNESS(vec_empty_ends) {
    Vec<u32> v;
    const Vec<u32>& cv = v;
    switch(vx_choose("which", 7)) {
    case 0: MUST_DIE(v.front()); break;
    case 1: MUST_DIE(v.back()); break;
    case 2: MUST_DIE(cv.front()); break;
    case 3: MUST_DIE(cv.back()); break;
    case 4: MUST_DIE(v.slice().front()); break;
    case 5: MUST_DIE(v.slice().back()); break;
    case 6: MUST_DIE(v.pop()); break;
    }
}
HARNESS(slice_sub) {
    u32 a[4];
    for(u32& x : a) x = sym32();
    u64 n = (u64)vx_choose("n", 5);
    Slice<const u32> s{static_cast<const u32*>(a), n};
    CHECKM(s.length() == n && s.empty() == (n == 0) && s.bytes() == n * 4, "Slice length");
    u64 st = vx_bits("start", 64), len = vx_bits("length", 64);
    if(st <= n && len <= n - st) {
        auto t = s.sub(st, len);
        CHECKM(t.length() == len, "Slice::sub length");
        u64 j = vx_bits("j", 64);
        vx_assume(j < len);
        CHECKM(t[j] == a[st + j], "Slice::sub element");
        CHECKM(t.front() == a[st] && t.back() == a[st + len - 1], "Slice::sub ends");
        vx_reach("in");
    } else {
        vx_reach("out");
        MUST_DIE(s.sub(st, len));
    }
}
HARNESS(slice_bytes) {
    u32 a[3];
    for(u32& x : a) x = sym32();
    Slice<u32> s{a, 3};
    auto b = s.to_bytes();
    CHECKM(b.length() == 12, "to_bytes length");
    u64 i = vx_bits("i", 64);
    vx_assume(i < 12);
    CHECKM(b[i] == (u8)(a[i / 4] >> (8 * (i % 4))), "to_bytes content");
    Slice<const u32> c = s;
    CHECKM(c.data() == a && c.length() == 3, "Slice converts to Slice<const T>");
    u64 k = 0;
    for(u32 x : s) CHECKM(x == a[k++], "Slice iteration");
    CHECKM(k == 3, "Slice iteration");
    auto d = s.clone();
    CHECKM(d.data() == a && d.length() == 3, "Slice::clone views the same elements");
    vx_reach("end");
}
HARNESS(array_ops) {
    u32 a = sym32(), b = sym32(), c = sym32();
    Array<u32, 3> x{a, b, c};
    u32 r[3] = {a, b, c};
    u64 i = vx_bits("index", 64);
    const auto& cx = x;
    if(i >= 3) {
        vx_reach("out");
        if(vx_choose("const", 2)) MUST_DIE(cx[i]);
        else MUST_DIE(x[i]);
        return;
    }
    CHECKM(x[i] == r[i] && cx[i] == r[i], "Array element");
    u32 w = sym32();
    auto y = x.clone();
    auto z = x;
    x[i] = w;
    CHECKM(y[i] == r[i] && z[i] == r[i], "Array copies are independent");
    u64 j = vx_bits("j", 64);
    vx_assume(j < 3);
    CHECKM(x[j] == (i == j ? w : r[j]), "Array write touches one element");
    CHECKM(x.length() == 3 && x.slice().length() == 3 && cx.slice().length() == 3, "Array length");
    CHECKM(x.slice()[j] == x[j] && x.data() + 3 == x.end(), "Array slice");
    u64 k = 0;
    for(u32 e : cx) CHECKM(e == cx[k++], "Array iteration");
    CHECKM(k == 3, "Array iteration");
    vx_reach("end");
}
