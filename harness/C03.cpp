// vx: heap_sort jobs=8 time=400 time_t=840
// vx: heap_ops jobs=8 time=400 time_t=840
// bounds: heaps of 5 (thorough 6) arbitrary 32-bit keys pushed in any order (ties included) then drained; from empty, reserved and full-at-8 starts
// bounds: every history of 4-5 (thorough 5-6) operations out of 7 from empty and from a valid heap of 7 or 8 keys
// bounds: heaps of key/value records ordered by key only, so that ties are distinguishable
// outside: longer histories and larger heaps; allocation failure; keys whose order is not a strict weak order (NaN)
#include "model.h"
#include <rpp/heap.h>
#include <rpp/thread.h>

// multiset equality of two small arrays decided by counting
static void same_multiset(const u32* a, const u32* b, u64 n) {
    for(u64 i = 0; i < n; i++) {
        u32 ca = 0, cb = 0;
        for(u64 j = 0; j < n; j++) {
            ca += a[j] == a[i];
            cb += b[j] == a[i];
        }
        vx_check(ca == cb, "Heap contents are not the pushed multiset");
    }
}
static void check_heap(const Heap<u32>& h, const Seq<24>& r) {
    CHECKM(h.length() == r.n && h.empty() == (r.n == 0), "Heap length differs from the history");
    if(!r.n) return;
    u32 t = h.top();
    bool found = false;
    u64 k = 0;
    for(u32 x : h) {
        CHECKM(!(x < t), "Heap::top is not a minimum");
        k++;
    }
    CHECKM(k == r.n, "Heap iteration visits every element");
    for(u64 i = 0; i < r.n; i++) {
        found = found | (r.v[i] == t);
        CHECKM(!(r.v[i] < t), "Heap::top is not the minimum of what was pushed");
    }
    CHECKM(found, "Heap::top was never pushed");
}
static void remove_min(Seq<24>& r) {
    u64 m = 0;
    for(u64 i = 1; i < r.n; i++)
        if(r.v[i] < r.v[m]) m = i;
    r.erase(m);
}
HARNESS(heap_sort) {
    Leak leak;
    {
        u32 in[16], out[16];
        u64 n = 0;
        Heap<u32> h;
        switch(vx_choose("start", 3)) {
        case 0: break;
        case 1: h = Heap<u32>(3); break;
        case 2:
            for(u32 i = 0; i < 7; i++) {
                in[n] = i * 1000;
                h.push(rpp::move(in[n]));
                n++;
            }
            break;
        }
        u64 extra = n ? QT(3, 4) : QT(5, 6);
        for(u64 i = 0; i < extra; i++) {
            u32 x = in[n++] = sym32("key");
            h.push(rpp::move(x));
        }
        CHECKM(h.length() == n, "Heap length");
        for(u64 i = 0; i < n; i++) {
            out[i] = h.top();
            h.pop();
            CHECKM(h.length() == n - i - 1, "Heap length");
            if(i) CHECKM(!(out[i] < out[i - 1]), "Heap drains out of order");
        }
        CHECKM(h.empty(), "Heap drained");
        same_multiset(in, out, n);
    }
    leak.done();
    vx_reach("end");
}
static void ops(Heap<u32>& h, Seq<24>& r, int steps) {
    for(int k = 0; k < steps; k++) {
        switch(vx_choose("op", 7)) {
        case 0: {
            u32 x = sym32("key");
            r.push(x);
            h.push(rpp::move(x));
        } break;
        case 1: {
            u32 x = sym32("key");
            r.push(x);
            h.emplace(x);
        } break;
        case 2:
            if(r.n) {
                remove_min(r);
                h.pop();
            } else MUST_DIE(h.pop());
            break;
        case 3:
            h.clear();
            r.n = 0;
            break;
        case 4: {
            Heap<u32> c = h.clone();
            check_heap(c, r);
            u32 one = 1;
            c.push(rpp::move(one));
            check_heap(h, r);
        } break;
        case 5: {
            Heap<u32> m{rpp::move(h)};
            CHECKM(h.empty() && h.length() == 0, "moved-from Heap is empty");
            u32 one = 1;
            h.push(rpp::move(one));
            CHECKM(h.top() == 1, "moved-from Heap can be reused");
            h = rpp::move(m);
            CHECKM(m.empty(), "moved-from Heap is empty");
        } break;
        case 6: h.reserve(r.n + 1); break;
        }
        check_heap(h, r);
    }
}
HARNESS(heap_ops) {
    Leak leak;
    {
        Seq<24> r;
        Heap<u32> h;
        if(vx_choose("start", 2)) {
            u32 n = 7 + (u32)vx_choose("n", 2);
            for(u32 i = 0; i < n; i++) {
                u32 x = i * 10;
                r.push(x);
                h.push(rpp::move(x));
            }
            ops(h, r, QT(4, 5));
        } else ops(h, r, QT(5, 6));
    }
    leak.done();
    vx_reach("end");
}
HARNESS(heap_empty) {
    Heap<u32> h;
    if(vx_choose("used", 2)) {
        u32 x = sym32();
        h.push(rpp::move(x));
        h.pop();
    }
    const Heap<u32>& c = h;
    switch(vx_choose("which", 3)) {
    case 0: MUST_DIE(h.pop()); break;
    case 1: MUST_DIE(h.top()); break;
    case 2: MUST_DIE(c.top()); break;
    }
}
struct KV {
    u32 key, tag;
    bool operator<(const KV& o) const noexcept {
        return key < o.key;
    }
};
HARNESS(heap_ties) {
    KV in[5];
    Heap<KV> h;
    const u32 N = QT(5, 5);
    for(u32 i = 0; i < N; i++) {
        in[i] = KV{(u32)vx_bits("key", 8), i};
        KV x = in[i];
        h.push(rpp::move(x));
    }
    bool seen[5] = {};
    u32 prev = 0;
    for(u32 i = 0; i < N; i++) {
        KV t = h.top();
        CHECKM(t.tag < N && !seen[t.tag], "Heap yields a record twice or not at all");
        CHECKM(in[t.tag].key == t.key, "Heap tears a record apart");
        CHECKM(t.key >= prev, "Heap drains out of order");
        prev = t.key;
        seen[t.tag] = true;
        h.pop();
    }
    vx_reach("end");
}
