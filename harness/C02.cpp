// vx: queue_u32 jobs=8 time=400 time_t=840
// bounds: queues of 32-bit values (all values symbolic): every history of 3 (thorough 4) operations out of 12 from 7 starting shapes (empty, reserved, full at 8, wrapped at several offsets, full and wrapped)
// bounds: wrap: every write offset and fill of a queue of capacity 8 followed by growth, reserve, clone, erase of any element, index with any 64-bit index
// outside: longer histories; allocation failure; emplace/push(T&&) arguments that alias an element while the storage grows
#include "model.h"
#include <rpp/queue.h>

template<typename Q>
static void same(const Q& q, const Seq<40>& r) {
    CHECKM(q.length() == r.n && q.empty() == (r.n == 0), "Queue length differs from the history");
    u64 i = 0;
    for(const u32& x : q) {
        CHECKM(i < r.n && x == r.v[i], "Queue iteration is not first-in first-out");
        i++;
    }
    CHECKM(i == r.n, "Queue iteration ends early");
    for(i = 0; i < r.n; i++) CHECKM(q[i] == r.v[i], "Queue element differs from the history");
    if(r.n) {
        CHECKM(q.front() == r.v[0], "Queue::front is the oldest element");
        CHECKM(q.back() == r.v[r.n - 1], "Queue::back is the newest element");
    }
    if(r.n > 1) CHECKM(q.penultimate() == r.v[r.n - 2], "Queue::penultimate");
}
// a queue of capacity 8 whose oldest element sits at `at`, holding `n` elements
static void fill(Queue<u32>& q, Seq<40>& r, u64 at, u64 n, bool sym) {
    q.reserve(8);
    for(u64 i = 0; i < at; i++) q.push(0u);
    for(u64 i = 0; i < at; i++) q.pop();
    for(u64 i = 0; i < n; i++) {
        u32 x = sym ? sym32() : 100 + (u32)i;
        q.push(x);
        r.push(x);
    }
}
static void step(Queue<u32>& q, Seq<40>& r) {
    switch(vx_choose("op", 12)) {
    case 0: {
        const u32 x = sym32();
        u32& p = q.push(x);
        r.push(x);
        CHECKM(&p == &q.back(), "Queue::push returns the new element");
    } break;
    case 1: {
        u32 x = sym32(), y = x;
        q.push(rpp::move(y));
        r.push(x);
    } break;
    case 2: {
        u32 x = sym32();
        u32& p = q.emplace(x);
        r.push(x);
        CHECKM(&p == &q.back(), "Queue::emplace returns the new element");
    } break;
    case 3:
        if(r.n) {
            q.pop();
            r.pop_front();
        } else MUST_DIE(q.pop());
        break;
    case 4:
        q.clear();
        r.n = 0;
        break;
    case 5: q.reserve(10); break;
    case 6: q.reserve(3); break;
    case 7:
        if(r.n < 9) q.grow();
        break;
    case 8: {
        Queue<u32> c = q.clone();
        same(c, r);
        u32 x = sym32();
        c.push(x);
        same(q, r);
        q = rpp::move(c);
        r.push(x);
        CHECKM(c.length() == 0 && c.empty(), "moved-from Queue is empty");
    } break;
    case 9: {
        Queue<u32> m{rpp::move(q)};
        CHECKM(q.length() == 0 && q.empty(), "moved-from Queue is empty");
        same(m, r);
        q.push(9u);
        CHECKM(q.front() == 9u && q.length() == 1, "moved-from Queue can be reused");
        q = rpp::move(m);
    } break;
    case 10: {
        u32 x = r.n ? r.v[r.n / 2] : sym32();
        u64 k = 0;
        while(k < r.n && r.v[k] != x) k++;
        bool f = q.erase_first(x);
        CHECKM(f == (k < r.n), "Queue::erase_first reports whether it removed");
        if(k < r.n) r.erase(k);
    } break;
    case 11: {
        if(!r.n) break;
        u64 i = vx_bits("index", 64);
        vx_assume(i < r.n);
        u32 x = sym32();
        q[i] = x;
        r.v[i] = x;
    } break;
    }
}
HARNESS(queue_u32) {
    Leak leak;
    {
        Seq<40> r;
        Queue<u32> q;
        switch(vx_choose("start", 7)) {
        case 0: break;
        case 1: q = Queue<u32>(2); break;
        case 2: fill(q, r, 0, 8, false); break;
        case 3: fill(q, r, 5, 8, false); break;
        case 4: fill(q, r, 7, 2, false); break;
        case 5: fill(q, r, 6, 1, false); break;
        case 6: {
            u32 a = sym32(), b = sym32(), c = sym32(), x = a, y = b, z = c;
            q = Queue<u32>(rpp::move(x), rpp::move(y), rpp::move(z));
            r.push(a);
            r.push(b);
            r.push(c);
        } break;
        }
        same(q, r);
        for(int i = 0; i < QT(3, 4); i++) step(q, r);
        same(q, r);
    }
    leak.done();
    vx_reach("end");
}
HARNESS(queue_wrap) {
    Leak leak;
    {
        Seq<40> r;
        Queue<u32> q;
        u64 at = (u64)vx_choose("at", 8), n = (u64)vx_choose("n", 9);
        fill(q, r, at, n, true);
        switch(vx_choose("op", 6)) {
        case 0: q.grow(); break;
        case 1: q.reserve(9); break;
        case 2: {
            auto c = q.clone();
            same(c, r);
            u32 x = sym32();
            if(n) c[0] = x, c.pop();
            else c.push(x);
        } break;
        case 3: {
            u32 x = sym32();
            u64 k = 0;
            while(k < r.n && r.v[k] != x) k++;
            bool f = q.erase_first(x);
            CHECKM(f == (k < r.n), "Queue::erase_first reports whether it removed");
            if(k < r.n) r.erase(k);
        } break;
        case 4: {
            Queue<u32> m{rpp::move(q)};
            q = rpp::move(m);
        } break;
        case 5:
            for(u64 i = 0; i < n; i++) {
                CHECKM(q.front() == r.v[0], "Queue::front is the oldest element");
                q.pop();
                r.pop_front();
            }
            break;
        }
        same(q, r);
        u32 x = sym32();
        q.push(x);
        r.push(x);
        same(q, r);
    }
    leak.done();
    vx_reach("end");
}
HARNESS(queue_index) {
    Seq<40> r;
    Queue<u32> q;
    u64 at = (u64)vx_choose("at", 8), n = (u64)vx_choose("n", 9);
    fill(q, r, at, n, true);
    u64 i = vx_bits("index", 64);
    const auto& cq = q;
    if(i < n) {
        CHECKM(q[i] == r.v[i] && cq[i] == r.v[i], "Queue element");
        vx_reach("in");
    } else {
        vx_reach("out");
        if(vx_choose("const", 2)) MUST_DIE(cq[i]);
        else MUST_DIE(q[i]);
    }
}
HARNESS(queue_ends) {
    Queue<u32> q;
    Seq<40> r;
    fill(q, r, (u64)vx_choose("at", 8), 0, false);
    const auto& cq = q;
    switch(vx_choose("which", 7)) {
    case 0: MUST_DIE(q.front()); break;
    case 1: MUST_DIE(q.back()); break;
    case 2: MUST_DIE(cq.front()); break;
    case 3: MUST_DIE(cq.back()); break;
    case 4: MUST_DIE(q.pop()); break;
    case 5: q.push(1u); MUST_DIE(q.penultimate()); break;
    case 6: q.push(1u); MUST_DIE(cq.penultimate()); break;
    }
}
