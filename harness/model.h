// Reference models shared by the harnesses.
#pragma once
#include "vx.h"
#include <rpp/base.h>
using namespace rpp;

#if VX_THOROUGH
#define QT(q, t) (t)
#else
#define QT(q, t) (q)
#endif

// An element that owns a token. Every constructed value is a new token; moving transfers it;
// destroying a holder ends the token. Tokens ended twice, used after their end, or still live at the
// end of a harness are ownership violations.
struct Tok {
    static constexpr u32 MAX = 160;
    static inline u32 live[MAX] = {};
    static inline u32 next = 1;
    static inline u32 count = 0;
    u32 id = 0;
    u32 value = 0;

    static u32 fresh() {
        vx_check(next < MAX, "harness: too many tokens");
        live[next] = 1;
        count++;
        return next++;
    }
    Tok() noexcept : id(fresh()), value(0) {
    }
    Tok(u32 v) noexcept : id(fresh()), value(v) {
    }
    Tok(const Tok&) noexcept = delete;
    Tok& operator=(const Tok&) noexcept = delete;
    Tok(Tok&& o) noexcept : id(o.id), value(o.value) {
        check_id(id);
        o.id = 0;
        o.value = 0xDEAD;
    }
    Tok& operator=(Tok&& o) noexcept {
        if(this == &o) return *this;
        end();
        id = o.id;
        value = o.value;
        check_id(id);
        o.id = 0;
        o.value = 0xDEAD;
        return *this;
    }
    ~Tok() noexcept {
        end();
    }
    Tok clone() const noexcept {
        vx_check(id != 0, "clone of a moved-from or dead element");
        check_id(id);
        return Tok{value};
    }
    bool operator==(const Tok& o) const noexcept {
        return value == o.value;
    }
    bool operator<(const Tok& o) const noexcept {
        return value < o.value;
    }
    static void check_id(u32 i) {
        vx_check(i < MAX && (i == 0 || live[i] == 1), "element storage used that holds no live element");
    }
    void end() noexcept {
        if(!id) return;
        vx_check(id < MAX, "destructor runs on storage that never held an element");
        vx_check(live[id] == 1, "element destroyed twice");
        live[id] = 0;
        count--;
        id = 0;
    }
};
// an element with only move construction and comparison, copyable through the copy constructor
struct Cpy {
    static inline i64 live = 0;
    u32 value = 0;
    Cpy* self; // detects bitwise relocation
    Cpy() noexcept : self(this) {
        live++;
    }
    Cpy(u32 v) noexcept : value(v), self(this) {
        live++;
    }
    Cpy(const Cpy& o) noexcept : value(o.value), self(this) {
        vx_check(o.self == &o, "copy of storage that holds no live element");
        live++;
    }
    Cpy(Cpy&& o) noexcept : value(o.value), self(this) {
        vx_check(o.self == &o, "move of storage that holds no live element");
        o.value = 0xDEAD;
        live++;
    }
    Cpy& operator=(const Cpy& o) noexcept {
        value = o.value;
        return *this;
    }
    Cpy& operator=(Cpy&& o) noexcept {
        value = o.value;
        return *this;
    }
    ~Cpy() noexcept {
        vx_check(self == this, "destructor runs on storage that holds no live element");
        self = null;
        live--;
    }
    bool operator==(const Cpy& o) const noexcept {
        return value == o.value;
    }
    bool operator<(const Cpy& o) const noexcept {
        return value < o.value;
    }
};

inline u32 val(u32 v) {
    return v;
}
inline u32 val(const Tok& t) {
    vx_check(t.id != 0 && t.id < Tok::MAX && Tok::live[t.id] == 1, "container exposes storage that holds no live element");
    return t.value;
}
inline u32 val(const Cpy& t) {
    vx_check(t.self == &t, "container exposes storage that holds no live element");
    return t.value;
}

// a bounded sequence
template<u64 N>
struct Seq {
    u32 v[N] = {};
    u64 n = 0;
    void push(u32 x) {
        vx_check(n < N, "harness: reference sequence too small");
        v[n++] = x;
    }
    void pop_back() {
        n--;
    }
    void pop_front() {
        for(u64 i = 1; i < n; i++) v[i - 1] = v[i];
        n--;
    }
    void erase(u64 k) {
        for(u64 i = k + 1; i < n; i++) v[i - 1] = v[i];
        n--;
    }
};
inline u32 sym32(const char* n = "value") {
    return (u32)vx_bits(n, 32);
}
struct Leak {
    i64 before;
    Leak() {
        Mdefault::free(Mdefault::alloc(1)); // the allocation profiler creates its tables on first use
        before = vx_live_allocs();
    }
    void done() {
        vx_check(vx_live_allocs() == before, "heap memory is leaked (or freed too often) by the end of the history");
    }
};
