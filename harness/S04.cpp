// vx: * jobs=4 time=600 time_t=850 symmem=0
// bounds: all values of every integer width (the C library's conversion is a stand-in: any text, but handed exactly this value); both booleans; all characters; strings of 0..3 arbitrary bytes; containers of 0..2 arbitrary byte-valued elements (queues in wrapped storage, maps of 0..2 entries), options, pairs, tuples, variants, owners, nested records and enumerators; format strings of 0..4 (thorough 0..5) arbitrary bytes with 0..2 string arguments; concatenations of 0..3 strings of 0..2 bytes; type names of one type per naming rule
// outside: the digits the C library itself prints (floats and wide integers print as arbitrary registered text, integers up to 255 exactly); longer inputs
#include "libc.h"
#include <rpp/function.h>
#include <rpp/heap.h>
#include <rpp/queue.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
#include <rpp/vmath.h>

static void warm_region() { // scratch memory keeps its first chunk
    Region(R) {
        Vec<u8, Mregion<R>> v(1);
    }
}
template<typename... Ts>
static void expect(const Expect& e, String_View fmt, const Ts&... args) {
    warm_region();
    Leak leak;
    {
        String<> s = format<Mdefault>(fmt, args...);
        CHECKM(s.length() == e.n, "length of the formatted text");
        CHECKM(e.is(s.view()), "content of the formatted text");
        CHECKM(format_length(fmt, args...) == e.n, "length computed in advance");
    }
    leak.done();
}

template<typename T>
static void one_integer(T v) {
    any_printed_int((u64)(i64)v);
    if constexpr(T(-1) > T(0)) c_int = (u64)v;
    Expect e;
    for(u64 i = 0; i < c_int_n; i++) e.ch(c_int_text[i]);
    expect(e, "%"_v, v);
}
static void decimal(u8 v) { // the digits denote the value (small values print exactly in this model)
    expect(Expect{}.num(v), "%"_v, v);
    i32 n = -(i32)v;
    if(v) expect((Expect{} << "-").num(v), "%"_v, n);
}
HARNESS(integers) {
    switch(vx_choose("type", 9)) {
    case 8: decimal((u8)vx_bits("v", 8)); break;
    case 0: one_integer((i8)vx_bits("v", 8)); break;
    case 1: one_integer((u8)vx_bits("v", 8)); break;
    case 2: one_integer((i16)vx_bits("v", 16)); break;
    case 3: one_integer((u16)vx_bits("v", 16)); break;
    case 4: one_integer((i32)vx_bits("v", 32)); break;
    case 5: one_integer((u32)vx_bits("v", 32)); break;
    case 6: one_integer((i64)vx_bits("v", 64)); break;
    case 7: one_integer((u64)vx_bits("v", 64)); break;
    }
}
HARNESS(scalars) {
    bool b = vx_choose("bool", 2);
    expect(Expect{} << (b ? "true" : "false"), "%"_v, b);
    char c = (char)vx_bits("char", 8);
    expect(Expect{}.ch((u8)c), "%"_v, c);
    expect(Expect{} << "(null)", "%"_v, null);
    int* p = null;
    expect(Expect{} << "(null)", "<%>"_v.sub(1, 2), p);
    int x = 0;
    p = &x;
    String<> s = format<Mdefault>("%"_v, p);
    u64 v = 0;
    CHECKM(s.length() > 4 && s[0] == '(' && s[1] == '0' && s[2] == 'x' && s[s.length() - 1] == ')', "pointer text");
    for(u64 i = 3; i + 1 < s.length(); i++) {
        u8 d = s[i];
        CHECKM((d >= '0' && d <= '9') || (d >= 'a' && d <= 'f'), "pointer digits");
        v = v * 16 + (d <= '9' ? d - '0' : d - 'a' + 10u);
    }
    CHECKM(v == (u64)p, "pointer value");
    c_nfloats = 0;
    float f = (float)any_printed_float("float", 4);
    expect(Expect{}.flt(0), "%"_v, f);
    double d = f;
    expect(Expect{}.ch('|').flt(0).ch('|'), "|%|"_v, d);
}
HARNESS(strings) {
    Text t = any_text<3>();
    Expect e;
    e << t.view();
    expect(e, "%"_v, t.view());
    String<> s = t.view().string();
    expect(e, "%"_v, s);
    expect(Expect{} << "<" << t.view() << " %" << t.view() << ">", "<% %%%>"_v, s, t.view());
    u8 a[] = {0, 0, 0, 0};
    for(u64 i = 0; i < t.n; i++) {
        vx_assume(t[i] != 0);
        a[i] = t[i];
    }
    expect(e, "%"_v, String_View{(const char*)a});
}

template<typename C, typename F>
static void listed(const char* open, u64 n, const u8* v, const C& c, F more) {
    Expect e;
    e << open;
    for(u64 i = 0; i < n; i++) {
        if(i) e << ", ";
        e.num(v[i]);
    }
    e << "]";
    more(e);
    expect(e, "%"_v, c);
}
HARNESS(sequences) {
    u64 n = (u64)vx_choose("n", 3);
    u8 v[2];
    for(u64 i = 0; i < n; i++) v[i] = (u8)vx_bits("v", 8);
    auto none = [](Expect&) {};
    switch(vx_choose("kind", 5)) {
    case 0: {
        Vec<u8> c;
        for(u64 i = 0; i < n; i++) c.push(v[i]);
        listed("Vec[", n, v, c, none);
        listed("Slice[", n, v, c.slice(), none);
    } break;
    case 1: {
        Stack<u8> c;
        for(u64 i = 0; i < n; i++) c.push(v[i]);
        listed("Stack[", n, v, c, none);
    } break;
    case 2: {
        Queue<u8> c(2);
        u64 skip = (u64)vx_choose("skip", 2);
        for(u64 i = 0; i < skip; i++) {
            c.push(u8(0));
            c.pop();
        }
        for(u64 i = 0; i < n; i++) c.push(v[i]);
        listed("Queue[", n, v, c, none);
    } break;
    case 3: {
        Heap<u8> c;
        for(u64 i = 0; i < n; i++) c.push(u8(v[i]));
        u8 w[2] = {v[0], v[1]};
        if(n == 2 && v[1] < v[0]) w[0] = v[1], w[1] = v[0];
        listed("Heap[", n, w, c, none);
    } break;
    case 4: {
        if(n == 2) {
            Array<u8, 2> a{v[0], v[1]};
            listed("[", n, v, a, none);
            u8 raw[2] = {v[0], v[1]};
            listed("[", n, v, raw, none);
        }
        if(n == 1) {
            Array<u8, 1> a{v[0]};
            listed("[", n, v, a, none);
        }
    } break;
    }
}
HARNESS(maps) {
    u64 n = (u64)vx_choose("n", 3);
    u8 k[2], v[2];
    Map<u8, u8> m;
    for(u64 i = 0; i < n; i++) {
        k[i] = (u8)(i * 7 + 1);
        v[i] = (u8)vx_bits("v", 8);
        m.insert(u8(k[i]), u8(v[i]));
    }
    String<> s = format<Mdefault>("%"_v, m);
    CHECKM(format_length("%"_v, m) == s.length(), "length computed in advance");
    bool any = false;
    for(u64 first = 0; first < (n == 2 ? 2 : 1); first++) { // any order of the entries
        Expect e;
        e << "Map[";
        for(u64 i = 0; i < n; i++) {
            u64 x = (i + first) % n;
            if(i) e << ", ";
            (e << "{").num(k[x]) << " : ";
            e.num(v[x]) << "}";
        }
        e << "]";
        any |= e.is(s.view());
    }
    CHECKM(any, "the entries of a map");
}
struct Ints {
    u8 i;
    bool u;
};
struct Nest {
    Vec<u8> v;
    Ints in;
};
struct Nothing {};
enum class Colour : i8 { red = -3, green = 7 };
namespace rpp {
RPP_NAMED_RECORD(::Ints, "Ints", RPP_FIELD(i), RPP_FIELD(u));
RPP_NAMED_RECORD(::Nest, "Nest", RPP_FIELD(v), RPP_FIELD(in));
RPP_NAMED_RECORD(::Nothing, "Nothing");
RPP_NAMED_ENUM(::Colour, "Colour", red, RPP_CASE(red), RPP_CASE(green));
}
HARNESS(records) {
    Ints in{(u8)vx_bits("i", 8), (bool)vx_choose("u", 2)};
    const char* tf = in.u ? "true" : "false";
    expect((Expect{} << "Ints{i : ").num(in.i) << ", u : " << tf << "}", "%"_v, in);
    u64 n = (u64)vx_choose("n", 2);
    Nest ne{};
    ne.in = in;
    Expect e;
    e << "Nest{v : Vec[";
    for(u64 i = 0; i < n; i++) {
        ne.v.push((u8)vx_bits("v", 8));
        e.num(ne.v[i]);
    }
    (e << "], in : Ints{i : ").num(in.i) << ", u : " << tf << "}}";
    expect(e, "%"_v, ne);
    expect(Expect{} << "Nothing{}", "%"_v, Nothing{});
    Colour c = vx_choose("colour", 2) ? Colour::green : Colour::red;
    expect(Expect{} << (c == Colour::red ? "Colour::red" : "Colour::green"), "%"_v, c);
    i8 other = (i8)vx_bits("other", 8);
    vx_assume(other != -3 && other != 7);
    expect(Expect{} << "Colour::", "%"_v, (Colour)other);
    expect((Expect{} << "Atomic{value_ : ").num(in.i) << "}", "%"_v, Thread::Atomic{in.i});
}
HARNESS(owners) {
    u8 v = (u8)vx_bits("v", 8);
    bool has = vx_choose("has", 2);
    switch(vx_choose("kind", 6)) {
    case 0: {
        Opt<u8> o;
        if(has) o = Opt<u8>{v};
        if(has) expect((Expect{} << "Opt{").num(v) << "}", "%"_v, o);
        else expect(Expect{} << "Opt{None}", "%"_v, o);
    } break;
    case 1: {
        Box<u8> o;
        if(has) o = Box<u8>{v};
        if(has) expect((Expect{} << "Box{").num(v) << "}", "%"_v, o);
        else expect(Expect{} << "Box{null}", "%"_v, o);
    } break;
    case 2: {
        Rc<u8> o, p;
        if(has) o = Rc<u8>{v};
        bool two = vx_choose("two", 2);
        if(two) p = o.dup();
        if(has) expect((Expect{} << "Rc[" << (two ? "2" : "1") << "]{").num(v) << "}", "%"_v, o);
        else expect(Expect{} << "Rc{null}", "%"_v, o);
    } break;
    case 3: {
        Arc<u8> o, p;
        if(has) o = Arc<u8>{v};
        bool two = vx_choose("two", 2);
        if(two) p = o.dup();
        if(has) expect((Expect{} << "Arc[" << (two ? "2" : "1") << "]{").num(v) << "}", "%"_v, o);
        else expect(Expect{} << "Arc{null}", "%"_v, o);
    } break;
    case 4: {
        Ref<u8> o;
        if(has) o = Ref<u8>{v};
        if(has) expect((Expect{} << "Ref{").num(v) << "}", "%"_v, o);
        else expect(Expect{} << "Ref{null}", "%"_v, o);
    } break;
    case 5: {
        Storage<Ints> s;
        expect(Expect{} << "Storage<Ints>", "%"_v, s);
        expect(Expect{} << "Function{i32(u8, bool)}", "%"_v, Function<i32(u8, bool)>{[](u8, bool) { return 1; }});
        expect(Expect{} << "Function{void()}", "%"_v, Function<void()>{[]() {}});
    } break;
    }
}
HARNESS(products) {
    u8 a = (u8)vx_bits("a", 8), b = (u8)vx_bits("b", 8);
    bool c = vx_choose("c", 2);
    const char* tf = c ? "true" : "false";
    expect((Expect{} << "Pair{").num(a) << ", " << tf << "}", "%"_v, Pair<u8, bool>{a, c});
    expect(Expect{} << "Tuple{}", "%"_v, Tuple<>{});
    expect((Expect{} << "Tuple{").num(a) << "}", "%"_v, Tuple<u8>{a});
    expect(((Expect{} << "Tuple{").num(a) << ", " << tf << ", ").num(b) << "}", "%"_v, Tuple<u8, bool, u8>{a, c, b});
    using V = Variant<u8, bool>;
    if(c) expect(Expect{} << "Variant{true}", "%"_v, V{true});
    else expect((Expect{} << "Variant{").num(a) << "}", "%"_v, V{u8(a)});
    using W = Variant<Named<"One", u8>, Named<"Second", u8>>;
    if(c) expect((Expect{} << "Variant{One{").num(a) << "}}", "%"_v, W{Named<"One", u8>{a}});
    else expect((Expect{} << "Variant{Second{").num(a) << "}}", "%"_v, W{Named<"Second", u8>{a}});
}
HARNESS(vectors) {
    using namespace rpp::Math;
    c_nfloats = 0;
    float f[16];
    switch(vx_choose("kind", 4)) {
    case 0: {
        for(int i = 0; i < 3; i++) f[i] = (float)any_printed_float("f");
        expect((((Expect{} << "Vec3{").flt(0) << ", ").flt(1) << ", ").flt(2) << "}", "%"_v, Vec3{f[0], f[1], f[2]});
        expect(((Expect{} << "Vec2{").flt(0) << ", ").flt(1) << "}", "%"_v, Vec2{f[0], f[1]});
    } break;
    case 1: {
        u8 a = (u8)vx_bits("a", 8), b = (u8)vx_bits("b", 8);
        vx_assume(b != 0);
        expect(((Expect{} << "Vec2i{").num(a) << ", -").num(b) << "}", "%"_v, Vec2i{(i32)a, -(i32)b});
        expect((((Expect{} << "Vec3u{").num(a) << ", ").num(b) << ", ").num(a) << "}", "%"_v, Vec3u{(u32)a, (u32)b, (u32)a});
    } break;
    case 2: {
        for(int i = 0; i < 6; i++) f[i] = (float)any_printed_float("f", 1 + (i == 4));
        BBox bb;
        bb.min = Vec3{f[0], f[1], f[2]};
        bb.max = Vec3{f[3], f[4], f[5]};
        expect(((((((Expect{} << "BBox{{").flt(0) << ", ").flt(1) << ", ").flt(2) << "}, {").flt(3) << ", ").flt(4) << ", ").flt(5) << "}}", "%"_v, bb);
        Quat q;
        q.x = f[0], q.y = f[1], q.z = f[2], q.w = f[3];
        expect(((((Expect{} << "Quat{").flt(0) << ", ").flt(1) << ", ").flt(2) << ", ").flt(3) << "}", "%"_v, q);
    } break;
    case 3: {
        for(int i = 0; i < 16; i++) f[i] = (float)any_printed_float("f", 1 + (i == 7));
        Mat4 m;
        Expect e;
        e << "Mat4{";
        for(int i = 0; i < 4; i++) {
            if(i) e << ", ";
            e << "{";
            for(int j = 0; j < 4; j++) {
                m[(u64)i][(u64)j] = f[i * 4 + j];
                if(j) e << ", ";
                e.flt(i * 4 + j);
            }
            e << "}";
        }
        e << "}";
        expect(e, "%"_v, m);
    } break;
    }
}

// arbitrary format text, interpreted by definition
HARNESS(placeholders) {
    Text f = any_text<QT(4, 5)>("fmt");
    int nargs = vx_choose("args", 3);
    Text a0 = any_text<1>("a0"), a1 = any_text<2>("a1");
    Expect e;
    int used = 0;
    for(u64 i = 0; i < f.n; i++) {
        if(f[i] != '%') {
            e.ch(f[i]);
            continue;
        }
        if(i + 1 < f.n && f[i + 1] == '%') {
            e.ch('%');
            i++;
            continue;
        }
        if(used == 0) e << a0.view();
        if(used == 1) e << a1.view();
        used++;
    }
    if(used != nargs) {
        vx_reach("wrong number of placeholders");
        if(nargs == 0) MUST_DIE(format<Mdefault>(f.view()));
        if(nargs == 1) MUST_DIE(format<Mdefault>(f.view(), a0.view()));
        if(nargs == 2) MUST_DIE(format<Mdefault>(f.view(), a0.view(), a1.view()));
    }
    if(nargs == 0) expect(e, f.view());
    if(nargs == 1) expect(e, f.view(), a0.view());
    if(nargs == 2) expect(e, f.view(), a0.view(), a1.view());
}
HARNESS(concatenation) {
    Text sep = any_text<1>("sep"), a = any_text<2>("a"), b = any_text<1>("b"), c = any_text<2>("c");
    warm_region();
    Leak leak;
    {
        Expect e1, e2, e3;
        e1 << a.view();
        e2 << a.view() << sep.view() << b.view();
        e3 << a.view() << sep.view() << b.view() << sep.view() << c.view();
        CHECKM(concat<Mdefault>(sep.view()).length() == 0, "nothing to join");
        CHECKM(e1.is(concat<Mdefault>(sep.view(), a.view().string()).view()), "one string");
        CHECKM(e2.is(concat<Mdefault>(sep.view(), a.view().string(), b.view().string()).view()), "two strings");
        CHECKM(e3.is(concat<Mdefault>(sep.view(), a.view().string(), b.view().string(), c.view().string()).view()), "three strings");
    }
    leak.done();
}
template<typename T>
static void named(const char* want) {
    String<> s = format_typename<T>();
    CHECKM((Expect{} << want).is(s.view()), "type name");
}
HARNESS(typenames) {
    named<i32>("i32");
    named<const u8>("const u8");
    named<volatile bool&>("volatile bool&");
    named<const volatile f32&&>("const volatile f32&&");
    named<i64*>("i64*");
    named<u16[3]>("u16[3]");
    named<Opt<f64>>("Opt<f64>");
    named<Vec<Pair<i8, String_View>>>("Vec<Pair<i8, String_View>>");
    named<Map<u32, Vec<bool>>>("Map<u32, Vec<bool>>");
    named<Tuple<u8, u64, i16>>("Tuple<u8, u64, i16>");
    named<Tuple<>>("Tuple<>");
    named<Array<u8, 12>>("Array<u8, 12>");
    named<Function<i32(u8, bool)>>("Function<i32(u8, bool)>");
    named<Nest>("Nest");
    named<Colour>("Colour");
    named<Variant<u8, Opt<u8>>>("Variant<u8, Opt<u8>>");
}
