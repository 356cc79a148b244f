// vx: * jobs=4 time=400 time_t=800 symmem=0
// bounds: queues of move-only and of self-referential copyable elements: every history of 3 (thorough 4) operations, and every write offset and fill of a capacity-8 queue followed by growth, reserve, clone, erase of any element, draining
#include "elems.h"

HARNESS(queue_move_only) {
    queue_history<Tok>(QT(3, 4));
    vx_reach("end");
}
HARNESS(queue_copyable) {
    queue_history<Cpy>(QT(3, 4));
    vx_reach("end");
}
template<typename T>
static void wrap() {
    Leak leak;
    {
        Seq<40> r;
        Queue<T> q;
        q.reserve(8);
        u64 at = (u64)vx_choose("at", 8), n = (u64)vx_choose("n", 9);
        for(u64 i = 0; i < at; i++) q.push(T(0u));
        for(u64 i = 0; i < at; i++) q.pop();
        for(u64 i = 0; i < n; i++) {
            q.push(T(100 + (u32)i));
            r.push(100 + (u32)i);
        }
        qsame<T>(q, r);
        switch(vx_choose("op", 6)) {
        case 0: q.grow(); break;
        case 1: q.reserve(9 + (u64)vx_choose("more", 2) * 24); break;
        case 2: {
            auto c = q.clone();
            qsame<T>(c, r);
            c.push(T(7u));
            if(n) c.pop();
            if(vx_choose("keep", 2)) {
                q = rpp::move(c);
                r.push(7u);
                if(n) r.pop_front();
            }
        } break;
        case 3: {
            u64 k = (u64)vx_choose("which", 9);
            bool f = q.erase_first(T(100 + (u32)k));
            CHECKM(f == (k < r.n), "Queue::erase_first reports whether it removed");
            if(k < r.n) r.erase(k);
        } break;
        case 4: {
            Queue<T> m{rpp::move(q)};
            q = rpp::move(m);
        } break;
        case 5: {
            u64 k = (u64)vx_choose("drain", 9);
            for(u64 i = 0; i < k && r.n; i++) {
                CHECKM(val(q.front()) == r.v[0], "Queue::front is the oldest element");
                q.pop();
                r.pop_front();
            }
        } break;
        }
        qsame<T>(q, r);
        q.push(T(1u));
        r.push(1u);
        q.emplace(2u);
        r.push(2u);
        qsame<T>(q, r);
    }
    leak.done();
}
HARNESS(wrap_move_only) {
    wrap<Tok>();
    all_ended();
    vx_reach("end");
}
HARNESS(wrap_copyable) {
    wrap<Cpy>();
    vx_reach("end");
}
