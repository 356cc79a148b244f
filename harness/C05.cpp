// vx: * jobs=8 time=400 time_t=800 symmem=0
// bounds: Vec, Stack, Queue, Heap, Map, Array holding move-only owning elements (ownership tokens) and self-referential copyable elements: every history of 2-3 operations from empty, partly filled, full and wrapped starts
// bounds: element ownership is tracked exactly: destroyed twice, used after its end, never constructed, relocated bitwise, or never destroyed are all assertions, next to the executor's own heap/lifetime checks
// outside: longer histories; elements whose move constructor is not equivalent to relocation; emplace/push(T&&) arguments aliasing an element during growth
#include "elems.h"

HARNESS(vec_tok) {
    vec_history<Tok, false>(QT(2, 3));
    all_ended();
    vx_reach("end");
}
HARNESS(vec_cpy) {
    vec_history<Cpy, true>(QT(2, 3));
    vx_reach("end");
}

HARNESS(queue_tok) {
    queue_history<Tok>(QT(3, 4));
    all_ended();
    vx_reach("end");
}
HARNESS(queue_cpy) {
    queue_history<Cpy>(QT(3, 4));
    vx_reach("end");
}
HARNESS(heap_tok) {
    heap_history<Tok>(QT(3, 4));
    all_ended();
    vx_reach("end");
}
HARNESS(heap_cpy) {
    heap_history<Cpy>(QT(3, 4));
    vx_reach("end");
}
HARNESS(map_tok) {
    map_history<Tok, Tok>(QT(2, 3));
    all_ended();
    vx_reach("end");
}
HARNESS(map_cpy) {
    map_history<Cpy, Cpy>(QT(2, 3));
    vx_reach("end");
}
HARNESS(map_mixed) {
    map_history<Cpy, Tok>(QT(1, 2));
    all_ended();
    vx_reach("end");
}
HARNESS(map_mixed2) {
    map_history<Tok, Cpy>(QT(1, 2));
    all_ended();
    vx_reach("end");
}
HARNESS(stack_tok) {
    Leak leak;
    {
        Seq<32> r;
        Stack<Tok> s;
        if(vx_choose("prefill", 2))
            for(u32 i = 0; i < 8; i++) s.push(Tok(i)), r.push(i);
        for(int k = 0; k < QT(4, 5); k++) {
            switch(vx_choose("op", 5)) {
            case 0: {
                u32 x = sym32();
                s.push(Tok(x));
                r.push(x);
            } break;
            case 1: {
                u32 x = sym32();
                s.emplace(x);
                r.push(x);
            } break;
            case 2:
                if(r.n) s.pop(), r.pop_back();
                break;
            case 3: s.clear(), r.n = 0; break;
            case 4: {
                Stack<Tok> c = s.clone();
                Stack<Tok> m{rpp::move(s)};
                s = rpp::move(c);
            } break;
            }
            CHECKM(s.length() == r.n, "Stack length");
            if(r.n) CHECKM(val(s.top()) == r.v[r.n - 1], "Stack::top");
        }
    }
    leak.done();
    all_ended();
    vx_reach("end");
}
HARNESS(array_elems) {
    {
        Array<Tok, 3> a{Tok(1), Tok(2), Tok(3)};
        Array<Tok, 3> b = a.clone();
        u32 made = Tok::next;
        a[0] = Tok(9);
        Array<Tok, 3> c{rpp::move(a)};
        CHECKM(val(c[0]) == 9 && val(c[1]) == 2 && val(c[2]) == 3, "moved Array keeps its elements");
        CHECKM(val(b[0]) == 1 && val(b[2]) == 3, "cloned Array keeps its elements");
        CHECKM(Tok::next == made + 1, "moving an Array copies its elements");
        b = rpp::move(c);
        CHECKM(val(b[0]) == 9, "move-assigned Array");
    }
    all_ended();
    {
        Array<Cpy, 2> a{Cpy(1), Cpy(2)};
        Array<Cpy, 2> b{a}, c = a.clone();
        a[0] = Cpy(5);
        CHECKM(val(b[0]) == 1 && val(c[1]) == 2 && val(a[0]) == 5, "Array copies are independent");
        b = a;
        CHECKM(val(b[0]) == 5 && val(b[1]) == 2, "Array copy assignment");
    }
    CHECKM(Cpy::live == 0, "an element was never destroyed");
    vx_reach("end");
}
// clones copy every element once, moves copy nothing
HARNESS(copy_counts) {
    {
        Vec<Tok> v(Tok(1), Tok(2), Tok(3));
        Queue<Tok> q;
        Heap<Tok> h;
        Map<Tok, Tok> m;
        for(u32 i = 0; i < 3; i++) {
            q.push(Tok(i));
            h.push(Tok(i));
            m.insert(Tok(i), Tok(i));
        }
        u32 at = Tok::next;
        auto v2 = v.clone();
        CHECKM(Tok::next == at + 3, "Vec::clone copies each element once");
        auto q2 = q.clone();
        CHECKM(Tok::next == at + 6, "Queue::clone copies each element once");
        auto h2 = h.clone();
        CHECKM(Tok::next == at + 9, "Heap::clone copies each element once");
        auto m2 = m.clone();
        CHECKM(Tok::next == at + 15, "Map::clone copies each key and value once");
        auto v3 = rpp::move(v2);
        auto q3 = rpp::move(q2);
        auto h3 = rpp::move(h2);
        auto m3 = rpp::move(m2);
        v = rpp::move(v3);
        q = rpp::move(q3);
        h = rpp::move(h3);
        m = rpp::move(m3);
        v.reserve(100);
        q.reserve(100);
        h.reserve(100);
        m.reserve(100);
        CHECKM(Tok::next == at + 15, "moving or growing a container copies elements");
        CHECKM(Tok::count == 15, "elements alive after moves");
    }
    all_ended();
    vx_reach("end");
}
// one move-only element type nested in another container
HARNESS(nested) {
    Leak leak;
    {
        Vec<Vec<Tok>> v;
        Map<u32, Vec<Tok>> m;
        Queue<Vec<Tok>> q;
        for(int i = 0; i < 3; i++) {
            switch(vx_choose("op", 5)) {
            case 0: {
                Vec<Tok> e;
                e.push(Tok(1));
                v.push(rpp::move(e));
            } break;
            case 1: {
                Vec<Tok> e;
                e.push(Tok(2));
                m.insert(1u, rpp::move(e));
            } break;
            case 2: m.get_or_insert(1u).push(Tok(3)); break;
            case 3:
                q.push(v.empty() ? Vec<Tok>() : v.back().clone());
                q.grow();
                break;
            case 4:
                v = v.clone();
                m = m.clone();
                q = q.clone();
                break;
            }
        }
        for(auto& e : v)
            for(auto& t : e) val(t);
        for(auto& e : q)
            for(auto& t : e) val(t);
        for(auto& p : m)
            for(auto& t : p.second) val(t);
    }
    leak.done();
    all_ended();
    vx_reach("end");
}
