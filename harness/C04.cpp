// vx: * jobs=8 time=400 time_t=800 symmem=0
// bounds: maps from 3 keys to arbitrary 32-bit values: every history of 2 operations out of 9 (with every key) from empty, tiny, and prefilled maps, with the upper 2 (thorough 3) hash bits of two keys arbitrary, checked against a dictionary
// bounds: full 64-bit arbitrary hashes for 3 to 5 keys: replacement, collision/erase/reinsert at capacity 4 and 8, growth to every capacity up to 16, cloning
// bounds: every insertion order of 4 (thorough 5) keys with arbitrary hashes followed by growth, erasure and lookup of any key; every initial/reserved capacity 0..9
// outside: more keys or longer histories; keys whose equality or hash changes while stored; allocation failure
#include "model.h"
#include <rpp/map.h>

static u64 g_hash[8];
struct HK {
    u32 id;
    bool operator==(const HK& o) const noexcept {
        return id == o.id;
    }
};
namespace rpp::Hash {
template<>
struct Hash<HK> {
    static u64 hash(const HK& k) noexcept {
        return g_hash[k.id];
    }
};
} // namespace rpp::Hash
namespace rpp {
RPP_NAMED_RECORD(::HK, "HK", RPP_FIELD(id));
}

using M = Map<HK, u32>;
template<u32 K>
struct Dict {
    bool has[K] = {};
    u32 v[K] = {};
    u64 n() const {
        u64 c = 0;
        for(u32 i = 0; i < K; i++) c += has[i];
        return c;
    }
    void put(u32 k, u32 x) {
        has[k] = true;
        v[k] = x;
    }
};
static void sym_hashes(u32 n) {
    for(u32 i = 0; i < n; i++) g_hash[i] = vx_bits("hash", 64);
}
template<u32 K>
static void same(M& m, const Dict<K>& d) {
    CHECKM(m.length() == d.n() && m.empty() == (d.n() == 0), "Map length differs from the number of keys it holds");
    const M& c = m;
    for(u32 i = 0; i < K; i++) {
        auto g = m.try_get(HK{i});
        CHECKM(g.ok() == d.has[i], "Map presence of a key differs from the history");
        CHECKM(c.contains(HK{i}) == d.has[i], "Map::contains");
        if(d.has[i]) CHECKM(g.ok() && **g == d.v[i], "Map value differs from the history");
    }
    u32 seen[K] = {};
    for(const auto& p : c) {
        CHECKM(p.first.id < K && d.has[p.first.id] && p.second == d.v[p.first.id], "Map iteration yields a wrong pair");
        seen[p.first.id]++;
    }
    for(u32 i = 0; i < K; i++) CHECKM(seen[i] == (d.has[i] ? 1u : 0u), "Map iteration visits each key exactly once");
}
template<u32 K>
static void step(M& m, Dict<K>& d) {
    u32 k = (u32)vx_choose("key", (int)K);
    switch(vx_choose("op", 9)) {
    case 0: {
        u32 x = sym32();
        u32& r = m.insert(HK{k}, u32{x});
        d.put(k, x);
        CHECKM(r == x, "Map::insert returns the stored value");
    } break;
    case 1: {
        u32 x = sym32();
        u32& r = m.emplace(HK{k}, x);
        d.put(k, x);
        CHECKM(r == x, "Map::emplace returns the stored value");
    } break;
    case 2: {
        bool e = m.try_erase(HK{k});
        CHECKM(e == d.has[k], "Map::try_erase reports whether the key was there");
        d.has[k] = false;
    } break;
    case 3: {
        HK key{k};
        u32& r = m.get_or_insert(key);
        if(!d.has[k]) d.put(k, 0);
        CHECKM(r == d.v[k], "Map::get_or_insert returns the bound value");
        u32 x = sym32();
        r = x;
        d.v[k] = x;
    } break;
    case 4: {
        M c = m.clone();
        same(c, d);
        if(vx_choose("erase", 2)) {
            CHECKM(c.try_erase(HK{k}) == d.has[k], "Map::try_erase");
        } else {
            c.insert(HK{k}, 77u);
        }
        same(m, d);
    } break;
    case 5: {
        M o{rpp::move(m)};
        CHECKM(m.empty() && m.length() == 0 && !m.contains(HK{k}), "moved-from Map is empty");
        m.insert(HK{k}, 3u);
        CHECKM(m.length() == 1 && m.get(HK{k}) == 3u, "moved-from Map can be reused");
        m = rpp::move(o);
    } break;
    case 6:
        if(d.has[k]) {
            const M& c = m;
            CHECKM(c.get(HK{k}) == d.v[k] && m.get(HK{k}) == d.v[k], "Map::get");
            m.erase(HK{k});
            d.has[k] = false;
        } else {
            const M& c = m;
            switch(vx_choose("absent", 3)) {
            case 0: MUST_DIE(m.get(HK{k})); break;
            case 1: MUST_DIE(c.get(HK{k})); break;
            case 2: MUST_DIE(m.erase(HK{k})); break;
            }
        }
        break;
    case 7:
        switch(vx_choose("how", 4)) {
        case 0: m.grow(); break;
        case 1: m.reserve(5); break;
        case 2: m.reserve(9); break;
        case 3: m = m.clone(); break;
        }
        break;
    case 8:
        m.clear();
        for(u32 i = 0; i < K; i++) d.has[i] = false;
        break;
    }
}
HARNESS(map_history) {
    for(u32 i = 0; i < 2; i++) g_hash[i] = vx_bits("hash", QT(2, 3)) << QT(62, 61);
    g_hash[2] = (u64)1 << 62;
    Leak leak;
    {
        Dict<3> d;
        M m;
        switch(vx_choose("start", 3)) {
        case 0: break;
        case 1:
            m = M(4);
            m.insert(HK{0}, 10u);
            m.insert(HK{1}, 11u);
            d.put(0, 10);
            d.put(1, 11);
            break;
        case 2:
            m = M(4);
            for(u32 i = 0; i < 3; i++) {
                m.insert(HK{i}, 10u + i);
                d.put(i, 10u + i);
            }
            break;
        }
        for(int i = 0; i < 2; i++) step(m, d);
        same(m, d);
    }
    leak.done();
    vx_reach("end");
}
// collision, displacement and wrap-around patterns: arbitrary hashes decide every probe
HARNESS(map_collide) {
    const u32 K = QT(4, 5);
    sym_hashes(K);
    Dict<K> d;
    M m(vx_choose("capacity", 2) ? 8 : 4);
    for(u32 i = 0; i < K; i++) {
        u32 x = sym32();
        m.insert(HK{i}, u32{x});
        d.put(i, x);
    }
    same(m, d);
    u32 k = (u32)vx_choose("erase", (int)K);
    CHECKM(m.try_erase(HK{k}), "Map::try_erase finds a present key");
    CHECKM(!m.try_erase(HK{k}), "Map::try_erase of an erased key");
    d.has[k] = false;
    same(m, d);
    u32 x = sym32();
    m.insert(HK{k}, u32{x});
    d.put(k, x);
    same(m, d);
    vx_reach("end");
}
// replacing an existing key
HARNESS(map_replace) {
    sym_hashes(3);
    Dict<3> d;
    M m(4);
    for(u32 i = 0; i < 3; i++) {
        m.insert(HK{i}, 1u);
        d.put(i, 1);
    }
    u32 k = (u32)vx_choose("key", 3), x = sym32();
    if(vx_choose("emplace", 2)) m.emplace(HK{k}, x);
    else m.insert(HK{k}, u32{x});
    d.put(k, x);
    same(m, d);
    CHECKM(m.try_erase(HK{k}), "erase");
    d.has[k] = false;
    same(m, d);
    vx_reach("end");
}
// requested capacities
HARNESS(map_capacity) {
    sym_hashes(2);
    g_hash[2] = (u64)13 << 60;
    Dict<3> d;
    u64 cap = (u64)vx_choose("capacity", 10);
    M m;
    switch(vx_choose("how", 3)) {
    case 0: m = M(cap); break;
    case 1: m.reserve(cap); break;
    case 2: {
        M e;
        e.reserve(cap);
        m = e.clone();
    } break;
    }
    for(u32 i = 0; i < 3; i++) {
        m.insert(HK{i}, 5u + i);
        d.put(i, 5 + i);
        if(i == 1) m = m.clone();
    }
    same(m, d);
    vx_reach("end");
}
HARNESS(map_reserve_keep) { // growing to any requested capacity keeps every pair, and so does cloning afterwards
    sym_hashes(3);
    Dict<3> d;
    M m(4);
    for(u32 i = 0; i < 3; i++) {
        u32 x = sym32();
        m.insert(HK{i}, u32{x});
        d.put(i, x);
    }
    m.reserve(5 + (u64)vx_choose("capacity", 8));
    same(m, d);
    M c = m.clone();
    same(c, d);
    vx_reach("end");
}
// a table filled to its growth threshold with fixed hashes, then two keys with arbitrary hashes
HARNESS(map_dense) {
    for(u32 i = 0; i < 5; i++) g_hash[i] = (u64)(7 - (i & 1)) << 61;
    g_hash[5] = vx_bits("hash", 64);
    g_hash[6] = vx_bits("hash", 64);
    Dict<7> d;
    M m(8);
    for(u32 i = 0; i < 7; i++) {
        m.insert(HK{i}, 100 + i);
        d.put(i, 100 + i);
        if(i >= 4) same(m, d);
    }
    u32 k = (u32)vx_choose("erase", 7);
    m.erase(HK{k});
    d.has[k] = false;
    same(m, d);
    vx_reach("end");
}
HARNESS(map_string_keys) {
    Map<String_View, u32> m;
    const Map<String_View, u32>& c = m;
    switch(vx_choose("case", 5)) {
    case 0: MUST_DIE(m.get("absent"_v)); break;
    case 1: CHECKM(!c.contains("absent"_v) && !m.try_get("absent"_v).ok(), "lookup in an empty Map"); break;
    case 2: {
        u32 x = sym32(), y = sym32();
        m.insert("first"_v, u32{x});
        m.insert("second"_v, u32{y});
        CHECKM(m.get("first"_v) == x && m.get("second"_v) == y, "Map with text keys");
        CHECKM(!m.contains("third"_v) && c.contains("second"_v), "Map with text keys");
    } break;
    case 3: {
        Map<String<>, u32> s;
        u32 x = sym32();
        s.insert("key"_v.string(), u32{x});
        CHECKM(s.contains("key"_v) && s.get("key"_v) == x && **s.try_get("key"_v) == x, "text key found through a view");
        CHECKM(!s.contains("kez"_v), "different text key");
        s.erase("key"_v.string());
        CHECKM(s.empty(), "erased");
    } break;
    case 4: {
        u32 x = sym32();
        m.insert("a"_v, u32{x});
        MUST_DIE(m.get("b"_v));
    } break;
    }
}
