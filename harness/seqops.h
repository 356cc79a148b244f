// Operation histories on Vec / Stack / Queue against a reference sequence.
#pragma once
#include "model.h"
#include <rpp/stack.h>

template<typename T>
T mk(u32 v) {
    return T(v);
}
template<typename T, typename V, u64 N>
void vec_same(const V& v, const Seq<N>& r) {
    CHECKM(v.length() == r.n, "Vec length differs from the history");
    CHECKM(v.empty() == (r.n == 0), "Vec::empty");
    CHECKM(v.length() <= v.capacity(), "Vec length exceeds its capacity");
    CHECKM(v.full() == (v.length() == v.capacity()), "Vec::full");
    CHECKM(v.bytes() == r.n * sizeof(T), "Vec::bytes");
    u64 i = 0;
    for(const T& x : v) {
        CHECKM(i < r.n && val(x) == r.v[i], "Vec iteration differs from the history");
        i++;
    }
    CHECKM(i == r.n, "Vec iteration ends early");
    for(i = 0; i < r.n; i++) CHECKM(val(v[i]) == r.v[i], "Vec element differs from the history");
    if(r.n) {
        CHECKM(val(v.front()) == r.v[0], "Vec::front");
        CHECKM(val(v.back()) == r.v[r.n - 1], "Vec::back");
    }
    auto s = v.slice();
    CHECKM(s.length() == r.n && (r.n == 0 || s.data() == v.data()), "Vec::slice");
}

// one step of a Vec history; copyable says whether T can be copied
template<typename T, bool copyable, u64 N>
void vec_step(Vec<T>& v, Seq<N>& r) {
    switch(vx_choose("op", 12)) {
    case 0: {
        u32 x = sym32();
        T& p = v.push(mk<T>(x));
        r.push(x);
        CHECKM(&p == &v[r.n - 1], "Vec::push returns the new element");
    } break;
    case 1: {
        u32 x = sym32();
        T& p = v.emplace(x);
        r.push(x);
        CHECKM(&p == &v[r.n - 1], "Vec::emplace returns the new element");
    } break;
    case 2:
        if(r.n) {
            v.pop();
            r.pop_back();
        } else MUST_DIE(v.pop());
        break;
    case 3:
        v.clear();
        r.n = 0;
        break;
    case 4: {
        u64 n = (u64)vx_choose("resize", 5);
        v.resize(n);
        while(r.n > n) r.pop_back();
        while(r.n < n) r.push(0);
    } break;
    case 5: {
        u64 n = (u64)vx_choose("extend", 3);
        v.extend(n);
        while(n--) r.push(0);
    } break;
    case 6: {
        u64 n = (u64)vx_choose("reserve", 6) * 2;
        u64 before = v.capacity();
        v.reserve(n);
        CHECKM(v.capacity() >= n && v.capacity() >= before, "Vec::reserve provides the capacity");
    } break;
    case 7: {
        Vec<T> c = v.clone();
        vec_same<T>(c, r);
        vec_same<T>(v, r);
        if(r.n) CHECKM(c.data() != v.data(), "Vec::clone shares storage");
        v = rpp::move(c);
        CHECKM(c.length() == 0 && c.capacity() == 0 && c.data() == null, "moved-from Vec is empty");
    } break;
    case 8: {
        Vec<T> o{rpp::move(v)};
        CHECKM(v.length() == 0 && v.capacity() == 0 && v.empty(), "moved-from Vec is empty");
        vec_same<T>(o, r);
        v.push(mk<T>(7));
        v = rpp::move(o);
    } break;
    case 9: {
        if(!r.n) break;
        u64 i = vx_bits("index", 64);
        vx_assume(i < r.n);
        u32 x = sym32();
        v[i] = mk<T>(x);
        r.v[i] = x;
    } break;
    case 10: {
        if(v.capacity() > 8) break;
        v.grow();
    } break;
    case 11:
        if constexpr(copyable) {
            u32 x = sym32();
            T t = mk<T>(x);
            v.push(t);
            CHECKM(val(t) == x, "Vec::push(const T&) changed its argument");
            r.push(x);
            v.push(v[0]); // an element of the container itself
            r.push(r.v[0]);
        } else {
            v.push(mk<T>(1));
            r.push(1);
        }
        break;
    }
}
template<typename T>
Vec<T> vec_start(Seq<48>& r, int kinds) {
    switch(vx_choose("start", kinds)) {
    case 0: return Vec<T>();
    case 1: return Vec<T>(2);
    case 2: {
        Vec<T> v;
        for(u32 i = 0; i < 8; i++) {
            u32 x = i == 7 ? sym32() : 100 + i;
            v.push(mk<T>(x));
            r.push(x);
        }
        return v;
    }
    case 3: {
        u32 a = sym32(), b = sym32(), c = sym32();
        Vec<T> v(mk<T>(a), mk<T>(b), mk<T>(c));
        r.push(a);
        r.push(b);
        r.push(c);
        return v;
    }
    case 4: {
        auto v = Vec<T>::make(2);
        r.push(0);
        r.push(0);
        return v;
    }
    default: return Vec<T>(1);
    }
}
template<typename T, bool copyable>
void vec_history(int steps) {
    Leak leak;
    {
        Seq<48> r;
        Vec<T> v = vec_start<T>(r, 6);
        vec_same<T>(v, r);
        for(int i = 0; i < steps; i++) vec_step<T, copyable>(v, r);
        vec_same<T>(v, r);
    }
    leak.done();
}
