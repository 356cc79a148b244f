// vx: * jobs=4 time=400 time_t=800 symmem=0
// bounds: all byte strings (every byte value) of length 0..5 (thorough 0..7) in storage of exactly that length, for integer, float, word and enumerator parsing and white-space skipping; the texts around the limits of 64-bit integers with an arbitrary last digit and following byte
// outside: longer strings; the digits-to-float conversion itself (strtof is a stand-in returning an arbitrary float and any end position inside the terminated text)
#include "libc.h"
using namespace rpp::Format;
#define N QT(5, 7)

static const char* f_start;
static u64 f_used;
static float f_value;
static bool f_called;
extern "C" float vxe_strtof(const char* s, char** end) {
    f_called = true;
    f_start = s;
    u64 n = 0;
    while(s[n]) n++;
    f_used = (u64)vx_choose("used", (int)n + 1);
    unsigned bits = (unsigned)vx_bits("float", 32);
    __builtin_memcpy(&f_value, &bits, 4);
    *end = const_cast<char*>(s + f_used);
    return f_value;
}
static bool ws(u8 c) { // white space as the library defines it for words
    return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') | (c == '\v');
}
static bool digit(u8 c) {
    return c >= '0' && c <= '9';
}
static bool bits_eq(float a, float b) {
    unsigned x, y;
    __builtin_memcpy(&x, &a, 4);
    __builtin_memcpy(&y, &b, 4);
    return x == y;
}

HARNESS(integer) {
    Text t = any_text<N>();
    u64 i = 0;
    while(i < t.n && (ws(t[i]) || t[i] == '\f')) i++;
    bool neg = false;
    if(i < t.n && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    u64 d0 = i;
    i64 v = 0;
    while(i < t.n && digit(t[i])) v = v * 10 + (t[i++] - '0');
    Opt<Pair<i64, String_View>> r = parse_i64(t.view());
    CHECKM(r.ok() == (i > d0), "an integer is reported exactly when the text starts with one");
    if(r.ok()) {
        CHECKM(r->first == (neg ? -v : v), "the value of the digits");
        CHECKM(is_sub(r->second, t.view(), i, t.n), "the rest starts right after the last digit");
        if(neg) vx_reach("negative");
        if(i == t.n) vx_reach("to the end");
        else vx_reach("with a rest");
        if(i < t.n && t[i] == 0) vx_reach("ended by a zero byte");
    } else if(t.n) vx_reach("none");
}
// digits around the 64-bit limits
HARNESS(integer_limits) {
    bool neg = vx_choose("negative", 2);
    String_View head = neg ? "-922337203685477580"_v : "922337203685477580"_v;
    u64 n = head.length() + 2;
    Vec<u8> mem(n);
    for(u64 i = 0; i < head.length(); i++) mem.push(head[i]);
    u8 last = (u8)vx_bits("last", 8), after = (u8)vx_bits("after", 8);
    vx_assume(digit(last) && last <= (neg ? '8' : '7'));
    vx_assume(!digit(after));
    mem.push(last);
    mem.push(after);
    Opt<Pair<i64, String_View>> r = parse_i64(String_View{mem.data(), n});
    CHECKM(r.ok(), "an integer within range is reported");
    i64 want = neg ? i64(0ul - (9223372036854775800ul + (u64)(last - '0'))) : i64(9223372036854775800ul + (u64)(last - '0'));
    CHECKM(r->first == want, "the value of a 19-digit integer");
    CHECKM(r->second.length() == 1 && r->second.data() == mem.data() + n - 1, "the rest");
    vx_reach("limits");
}
HARNESS(floating) {
    Text t = any_text<QT(4, 5)>();
    u64 z = t.n; // the text as a C string ends at its first zero byte
    for(u64 i = t.n; i > 0; i--) z = t[i - 1] == 0 ? i - 1 : z;
    f_called = false;
    Opt<Pair<f32, String_View>> r = parse_f32(t.view());
    CHECKM(f_called, "the conversion is attempted");
    CHECKM(r.ok() == (f_used != 0), "a number is reported exactly when one was recognised");
    CHECKM(f_used <= z, "nothing after the text is considered");
    if(r.ok()) {
        CHECKM(bits_eq(r->first, f_value), "the converted value");
        CHECKM(is_sub(r->second, t.view(), f_used, t.n), "the rest starts right after the number");
        vx_reach("number");
    } else vx_reach("none");
}
HARNESS(skip) {
    Text t = any_text<N>();
    u64 i = 0;
    while(i < t.n && ws(t[i])) i++;
    String_View r = skip_whitespace(t.view());
    CHECKM(is_sub(r, t.view(), i, t.n), "exactly the leading white space is removed");
    if(i == t.n && i) vx_reach("all white space");
    if(i == 0 && t.n) vx_reach("nothing to skip");
}
HARNESS(word) {
    Text t = any_text<N>();
    u64 b = 0;
    while(b < t.n && ws(t[b])) b++;
    u64 e = b;
    while(e < t.n && !ws(t[e])) e++;
    auto r = parse_string(t.view());
    CHECKM(r.ok() == (e > b), "a word is reported exactly when there is one");
    if(r.ok()) {
        CHECKM(is_sub(r->first, t.view(), b, e), "the word is the maximal run without white space");
        // the one white-space byte that ended the word belongs to neither part
        if(e < t.n) CHECKM(is_sub(r->second, t.view(), e + 1, t.n), "the rest after the separator");
        else CHECKM(r->second.length() == 0, "no rest");
        if(e - b == 1) vx_reach("single byte word");
        if(e + 1 == t.n) vx_reach("trailing separator");
    }
}

enum class Colour : u8 { red, a, ab };
namespace rpp {
RPP_NAMED_ENUM(::Colour, "Colour", red, RPP_CASE(red), RPP_CASE(a), RPP_CASE(ab));
}
static bool is_word(const Text& t, u64 b, u64 e, String_View w) {
    return e - b == w.length() && same_bytes(w, t.mem.data() + b, e - b);
}
HARNESS(enumerator) {
    Text t = any_text<QT(4, 5)>();
    u64 b = 0;
    while(b < t.n && ws(t[b])) b++;
    u64 e = b;
    while(e < t.n && !ws(t[e])) e++;
    int want = is_word(t, b, e, "red"_v) ? 0 : is_word(t, b, e, "a"_v) ? 1 : is_word(t, b, e, "ab"_v) ? 2 : -1;
    auto r = parse_enum<Colour>(t.view());
    CHECKM(r.ok() == (want >= 0), "an enumerator is reported exactly when the first word names one");
    if(r.ok()) {
        CHECKM(int(r->first) == want, "the enumerator the word names");
        CHECKM(r->second.length() == (e < t.n ? t.n - e - 1 : 0), "the rest after the separator");
        if(want == 0) vx_reach("red");
        if(want == 1) vx_reach("a");
        if(want == 2) vx_reach("ab");
    }
}
