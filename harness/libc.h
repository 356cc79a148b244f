// Stand-ins for the C library's text conversions, written from the C standard (C locale).
#pragma once
#include "text.h"
#include <stdarg.h>

static bool c_space(char c) {
    return c == ' ' || (c >= '\t' && c <= '\r');
}
// saturating, base 10 only
extern "C" long long vxe_strtoll(const char* s, char** end, int base) {
    vx_check(base == 10, "strtoll is called for decimal text");
    const char* p = s;
    while(c_space(*p)) p++;
    bool neg = false;
    if(*p == '-' || *p == '+') neg = *p++ == '-';
    if(!(*p >= '0' && *p <= '9')) {
        if(end) *end = const_cast<char*>(s);
        return 0;
    }
    constexpr long long MAX = 0x7fffffffffffffffll, MIN = -MAX - 1;
    unsigned long long v = 0;
    bool sat = false;
    int n = 0;
    for(; *p >= '0' && *p <= '9'; p++, n++) {
        unsigned d = (unsigned)(*p - '0');
        if(n >= 18) { // only here can it leave the range
            if(v > 922337203685477580ull || (v == 922337203685477580ull && d > (neg ? 8u : 7u))) sat = true;
        }
        v = v * 10 + d;
    }
    if(end) *end = const_cast<char*>(p);
    if(sat) return neg ? MIN : MAX;
    return (long long)(neg ? 0 - v : v);
}

// ---- vsnprintf ------------------------------------------------------------------------------
// Decimal text of a 64-bit magnitude. The digits are fresh values constrained to denote it.
struct Digits {
    char d[20];
    int n;
};
static unsigned long long c_known[4];
static Digits c_digits_of[4];
static int c_nknown;
static bool c_concrete; // every number printed is a concrete one
static Digits c_digits(unsigned long long m) {
    if(c_concrete) {
        Digits r;
        r.n = 1;
        for(unsigned long long v = m; v >= 10; v /= 10) r.n++;
        for(int i = r.n - 1; i >= 0; i--, m /= 10) r.d[i] = (char)('0' + m % 10);
        return r;
    }
    for(int i = 0; i < c_nknown; i++)
        if(vx_same(c_known[i], m)) return c_digits_of[i];
    Digits r;
    r.n = 1;
    unsigned long long p = 10;
    while(r.n < 20 && m >= p) {
        r.n++;
        if(r.n < 20) p *= 10;
    }
    if(r.n == 1) {
        r.d[0] = (char)('0' + m);
        return r;
    }
    unsigned long long sum = 0;
    for(int i = 0; i < r.n; i++) {
        u8 d = (u8)vx_bits("digit", 8);
        vx_assume((d >= (i ? '0' : '1')) & (d <= (r.n == 20 && i == 0 ? '1' : '9')));
        r.d[i] = (char)d;
        sum = sum * 10 + (unsigned long long)(d - '0');
    }
    vx_assume(sum == m);
    if(c_nknown < 4) {
        c_known[c_nknown] = m;
        c_digits_of[c_nknown++] = r;
    }
    return r;
}
// What the C library prints for a float is its business: the harness registers arbitrary texts.
struct Float_Text {
    unsigned long long bits;
    u8 text[4];
    u64 n;
};
static Float_Text c_floats[20];
static int c_nfloats;
inline double any_printed_float(const char* name, int max_len = 2) {
    Float_Text& t = c_floats[c_nfloats];
    float f;
    unsigned b = (unsigned)vx_bits(name, 32);
    vx_assume((b & 0x7f800000u) != 0x7f800000u); // finite
    __builtin_memcpy(&f, &b, 4);
    double d = f;
    __builtin_memcpy(&t.bits, &d, 8);
    for(int i = 0; i < c_nfloats; i++) vx_assume(c_floats[i].bits != t.bits);
    t.n = (u64)vx_choose("printed", max_len) + 1;
    for(u64 i = 0; i < t.n; i++) t.text[i] = (u8)vx_bits("print", 8);
    c_nfloats++;
    return d;
}
// Likewise for integers in harnesses that register one: any text, provided exactly this value is printed.
static bool c_opaque;
static unsigned long long c_int; // sign- or zero-extended
static u8 c_int_text[20];
static u64 c_int_n;
inline void any_printed_int(unsigned long long v) {
    c_opaque = true;
    c_int = v;
    constexpr u64 lengths[] = {1, 2, 5, 20};
    c_int_n = lengths[vx_choose("printed", 4)];
    for(u64 i = 0; i < c_int_n; i++) c_int_text[i] = (u8)vx_bits("print", 8);
}
struct Sink {
    char* out;
    unsigned long cap;
    unsigned long n;
    void put(char c) {
        if(n + 1 < cap) out[n] = c;
        n++;
    }
};
extern "C" int vxe_vsnprintf(char* out, unsigned long cap, const char* f, va_list ap) {
    Sink s{out, cap, 0};
    for(; *f; f++) {
        if(*f != '%') {
            s.put(*f);
            continue;
        }
        f++;
        if(*f == '%') {
            s.put('%');
            continue;
        }
        int l = 0, h = 0;
        while(*f == 'l') l++, f++;
        while(*f == 'h') h++, f++;
        if(*f == 'd' || *f == 'i') {
            long long v = l ? va_arg(ap, long long) : va_arg(ap, int);
            if(h == 1) v = (short)v;
            if(h == 2) v = (signed char)v;
            if(c_opaque) {
                vx_check((unsigned long long)v == c_int, "the value handed to the C library is the value to print");
                for(u64 i = 0; i < c_int_n; i++) s.put((char)c_int_text[i]);
                continue;
            }
            bool neg = v < 0;
            Digits d = c_digits(neg ? 0 - (unsigned long long)v : (unsigned long long)v);
            if(neg) s.put('-');
            for(int i = 0; i < d.n; i++) s.put(d.d[i]);
        } else if(*f == 'u') {
            unsigned long long v = l ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
            if(h == 1) v = (unsigned short)v;
            if(h == 2) v = (unsigned char)v;
            if(c_opaque) {
                vx_check(v == c_int, "the value handed to the C library is the value to print");
                for(u64 i = 0; i < c_int_n; i++) s.put((char)c_int_text[i]);
                continue;
            }
            Digits d = c_digits(v);
            for(int i = 0; i < d.n; i++) s.put(d.d[i]);
        } else if(*f == 'p' || *f == 'x') {
            unsigned long long v = *f == 'p' ? (unsigned long long)va_arg(ap, void*)
                                             : l ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
            if(*f == 'p') {
                s.put('0');
                s.put('x');
            }
            int k = 60;
            while(k > 0 && !((v >> k) & 15)) k -= 4;
            for(; k >= 0; k -= 4) s.put("0123456789abcdef"[(v >> k) & 15]);
        } else if(*f == 'f') {
            double v = va_arg(ap, double);
            unsigned long long b;
            __builtin_memcpy(&b, &v, 8);
            int k = 0;
            while(k < c_nfloats && c_floats[k].bits != b) k++;
            vx_check(k < c_nfloats, "the printed float is one of the given ones");
            for(u64 i = 0; i < c_floats[k].n; i++) s.put((char)c_floats[k].text[i]);
        } else if(*f == 's') {
            const char* p = va_arg(ap, const char*);
            while(*p) s.put(*p++);
        } else if(*f == 'c') {
            s.put((char)va_arg(ap, int));
        } else
            vx_fail("printf conversion outside the stand-in");
    }
    if(cap) out[s.n < cap ? s.n : cap - 1] = 0;
    return (int)s.n;
}

// ---- expected text --------------------------------------------------------------------------
struct Expect {
    u8 b[160];
    u64 n = 0;
    Expect& operator<<(const char* s) {
        while(*s) b[n++] = (u8)*s++;
        return *this;
    }
    Expect& operator<<(String_View v) {
        for(u64 i = 0; i < v.length(); i++) b[n++] = v[i];
        return *this;
    }
    Expect& ch(u8 c) {
        b[n++] = c;
        return *this;
    }
    Expect& num(u8 v) { // decimal of a byte, by division
        if(v >= 100) b[n++] = (u8)('0' + v / 100);
        if(v >= 10) b[n++] = (u8)('0' + v / 10 % 10);
        b[n++] = (u8)('0' + v % 10);
        return *this;
    }
    Expect& flt(int k) {
        for(u64 i = 0; i < c_floats[k].n; i++) b[n++] = c_floats[k].text[i];
        return *this;
    }
    bool is(String_View v) const {
        return same_bytes(v, b, n);
    }
};
