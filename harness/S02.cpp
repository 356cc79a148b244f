// vx: * jobs=4 time=400 time_t=800
// bounds: all byte strings of length 0..5 (thorough 0..7), every byte value
// outside: longer paths
#include "text.h"

static bool sep(u8 c) {
    return (c == '/') | (c == '\\');
}
// position after the last byte of a class, by definition
template<typename F>
static u64 after_last(const Text& t, F f) {
    u64 r = 0;
    for(u64 i = 0; i < t.n; i++) r = f(t[i]) ? i + 1 : r;
    return r;
}
HARNESS(paths) {
    Text t = any_text<QT(5, 7)>();
    String_View v = t.view();
    u64 s = after_last(t, sep), d = after_last(t, [](u8 c) { return sep(c) | (c == '.'); });
    String_View file = v.file_suffix();
    CHECKM(file.length() == t.n - s, "the file part is the text after the last separator");
    String_View dir = v.remove_file_suffix();
    CHECKM(dir.length() == s, "removing the file part leaves the text up to the last separator");
    String_View ext = v.file_extension();
    CHECKM(ext.length() == t.n - d, "the extension is the text after the last dot or separator");
    if(t.n) {
        CHECKM(file.data() == v.data() + s, "the file part lies at the end of the path");
        CHECKM(dir.length() == 0 || dir.data() == v.data(), "the directory part lies at the start of the path");
        CHECKM(ext.data() == v.data() + d, "the extension lies at the end of the path");
        if(s == 0) vx_reach("no separator");
        else if(s == t.n) vx_reach("trailing separator");
        else vx_reach("inner separator");
        if(s == 1) vx_reach("leading separator");
    } else vx_reach("empty");
}
