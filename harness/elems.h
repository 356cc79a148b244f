// Containers of elements with ownership (Tok: move-only, Cpy: copyable, knows its own address)
#pragma once
#include "seqops.h"
#include <rpp/array.h>
#include <rpp/heap.h>
#include <rpp/map.h>
#include <rpp/queue.h>

namespace rpp::Hash {
template<>
struct Hash<Tok> {
    static u64 hash(const Tok& k) noexcept {
        Tok::check_id(k.id);
        return (u64)k.value << 61;
    }
};
template<>
struct Hash<Cpy> {
    static u64 hash(const Cpy& k) noexcept {
        return (u64)k.value << 61;
    }
};
} // namespace rpp::Hash
namespace rpp {
RPP_NAMED_RECORD(::Tok, "Tok", RPP_FIELD(id));
RPP_NAMED_RECORD(::Cpy, "Cpy", RPP_FIELD(value));
} // namespace rpp

static void all_ended() {
    CHECKM(Tok::count == 0, "an element was never destroyed");
}
template<typename T, typename Q>
static void qsame(const Q& q, const Seq<40>& r) {
    CHECKM(q.length() == r.n, "Queue length differs from the history");
    u64 i = 0;
    for(const T& x : q) {
        CHECKM(val(x) == r.v[i], "Queue iteration is not first-in first-out");
        i++;
    }
    if(r.n) {
        CHECKM(val(q.front()) == r.v[0], "Queue::front");
        CHECKM(val(q.back()) == r.v[r.n - 1], "Queue::back");
    }
}

template<typename T>
static void queue_history(int steps) {
    Leak leak;
    {
        Seq<40> r;
        Queue<T> q;
        u64 at = 0, n = 0;
        switch(vx_choose("start", 5)) {
        case 0: break;
        case 1: at = 0, n = 8; break;
        case 2: at = 5, n = 8; break;
        case 3: at = 6, n = 3; break;
        case 4: at = 7, n = 1; break;
        }
        if(n) {
            q.reserve(8);
            for(u64 i = 0; i < at; i++) q.push(T(0u));
            for(u64 i = 0; i < at; i++) q.pop();
            for(u64 i = 0; i < n; i++) {
                q.push(T((u32)i + 10));
                r.push((u32)i + 10);
            }
        }
        for(int k = 0; k < steps; k++) {
            switch(vx_choose("op", 9)) {
            case 0: {
                u32 x = sym32();
                q.push(T(x));
                r.push(x);
            } break;
            case 1: {
                u32 x = sym32();
                q.emplace(x);
                r.push(x);
            } break;
            case 2:
                if(r.n) q.pop(), r.pop_front();
                break;
            case 3:
                q.clear();
                r.n = 0;
                break;
            case 4: q.reserve(9); break;
            case 5:
                if(r.n < 9) q.grow();
                break;
            case 6: {
                Queue<T> c = q.clone();
                qsame<T>(c, r);
                qsame<T>(q, r);
                if(vx_choose("keep", 2)) q = rpp::move(c);
            } break;
            case 7: {
                Queue<T> m{rpp::move(q)};
                q.push(T(1u));
                q = rpp::move(m);
            } break;
            case 8: {
                u64 i = (u64)vx_choose("which", 4);
                u32 x = i < r.n ? r.v[i] : 999;
                T key(x);
                u64 j = 0;
                while(j < r.n && r.v[j] != x) j++;
                bool f = q.erase_first(key);
                CHECKM(f == (j < r.n), "Queue::erase_first reports whether it removed");
                if(j < r.n) r.erase(j);
            } break;
            }
            qsame<T>(q, r);
        }
    }
    leak.done();
}

template<typename T>
static void heap_history(int steps) {
    Leak leak;
    {
        Heap<T> h;
        u32 n = 0;
        if(vx_choose("start", 2)) {
            for(u32 i = 0; i < 7; i++) h.push(T((i * 5) % 7));
            n = 7;
        }
        for(int k = 0; k < steps; k++) {
            switch(vx_choose("op", 6)) {
            case 0:
                h.push(T(sym32()));
                n++;
                break;
            case 1:
                h.emplace(sym32());
                n++;
                break;
            case 2:
                if(n) h.pop(), n--;
                break;
            case 3: h.reserve(n + 2); break;
            case 4: {
                Heap<T> c = h.clone();
                CHECKM(c.length() == n, "Heap::clone length");
                for(const T& x : c) (void)val(x);
                if(vx_choose("keep", 2)) h = rpp::move(c);
            } break;
            case 5:
                if(vx_choose("clear", 2)) h.clear(), n = 0;
                else {
                    Heap<T> m{rpp::move(h)};
                    h.push(T(3u));
                    h = rpp::move(m);
                }
                break;
            }
            CHECKM(h.length() == n, "Heap length");
            u32 t = n ? val(h.top()) : 0;
            for(const T& x : h) CHECKM(t <= val(x), "Heap::top is a minimum");
        }
    }
    leak.done();
}

template<typename K, typename V>
static void map_history(int steps) {
    Leak leak;
    {
        Map<K, V> m;
        bool has[8] = {};
        u32 v[8] = {};
        u32 base[4] = {1, 2, 3, 9}; // 1 and 9 share their full hash
        if(vx_choose("start", 2)) {
            m = Map<K, V>(4);
            for(u32 i = 0; i < 3; i++) {
                u32 k = i == 2 ? 3 : i;
                m.insert(K(base[k]), V(50 + k));
                has[k] = true;
                v[k] = 50 + k;
            }
        }
        for(int s = 0; s < steps; s++) {
            u32 k = (u32)vx_choose("key", 4);
            switch(vx_choose("op", 9)) {
            case 0:
                v[k] = sym32();
                has[k] = true;
                m.insert(K(base[k]), V(v[k]));
                break;
            case 1:
                v[k] = sym32();
                has[k] = true;
                m.emplace(K(base[k]), v[k]);
                break;
            case 2:
                CHECKM(m.try_erase(K(base[k])) == has[k], "Map::try_erase");
                has[k] = false;
                break;
            case 3:
                if(!has[k]) v[k] = 0;
                has[k] = true;
                CHECKM(val(m.get_or_insert(K(base[k]))) == v[k], "Map::get_or_insert");
                break;
            case 4: {
                Map<K, V> c = m.clone();
                CHECKM(c.length() == m.length(), "Map::clone length");
                for(auto& p : c) val(p.first), val(p.second);
                if(vx_choose("keep", 2)) m = rpp::move(c);
            } break;
            case 5: {
                Map<K, V> o{rpp::move(m)};
                m.insert(K(base[k]), V(1u));
                m = rpp::move(o);
            } break;
            case 6: m.grow(); break;
            case 7:
                m.clear();
                for(bool& b : has) b = false;
                break;
            case 8: m.reserve(9); break;
            }
            u64 n = 0;
            for(u32 i = 0; i < 4; i++) {
                n += has[i];
                auto g = m.try_get(K(base[i]));
                CHECKM(g.ok() == has[i], "Map presence of a key");
                if(has[i]) CHECKM(val(**g) == v[i], "Map value");
            }
            u64 c = 0;
            const auto& cm = m;
            for(const auto& p : cm) val(p.first), val(p.second), c++;
            CHECKM(c == n && m.length() == n, "Map length");
        }
    }
    leak.done();
}
