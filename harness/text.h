// Symbolic byte strings and reference text functions.
#pragma once
#include "model.h"

// a string of exactly n arbitrary bytes in storage of exactly n bytes, so that reading past it is an error
struct Text {
    Vec<u8> mem;
    u64 n;
    explicit Text(u64 len, const char* name = "byte") : mem(len), n(len) {
        for(u64 i = 0; i < n; i++) mem.push((u8)vx_bits(name, 8));
    }
    String_View view() const {
        return String_View{mem.data(), n};
    }
    u8 operator[](u64 i) const {
        return mem[i];
    }
};
template<int MAX>
inline Text any_text(const char* name = "byte") {
    return Text((u64)vx_choose("length", MAX + 1), name);
}
inline bool same_bytes(String_View v, const u8* p, u64 n) {
    if(v.length() != n) return false;
    bool eq = true;
    for(u64 i = 0; i < n; i++) eq = eq & (v.data()[i] == p[i]);
    return eq;
}
inline bool is_sub(String_View part, String_View whole, u64 from, u64 to) {
    if(part.length() != to - from) return false;
    return to == from || part.data() == whole.data() + from;
}
