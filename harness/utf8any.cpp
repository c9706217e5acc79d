// UTF-8 interfaces on arbitrary bytes.  params: mode, n, 0: any bytes 1: pieces of a list 2: any scalar values and any malformed sequences, form or operation
// modes: 0 grapheme segmenter, 1 C API, 2 case conversion, 3 comparison, 4 normalization, 5 streaming normalizer
#include "utf.h"
#include "simd_pick.h"
#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/convert.h>
#include <libunicode/normalization.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <string>
using namespace unicode;
struct bytes { char* p; size_t n; };
// n arbitrary bytes, or n pieces: a scalar value or a byte (sequence) that is malformed, in a buffer of exactly that size
static bytes text(int n, int pieces)
{
    bytes t;
    if (pieces == 2)
    {
        char b[64]; t.n = 0;
        for (int i = 0; i < n; i++)
        {
            int const kind = (int) __vf_concretise(__vf_choose(1, 8));
            if (kind <= 4) { utf8_put(b + t.n, sym_scalar(kind), kind); t.n += (size_t) kind; continue; }
            if (kind == 5) { uint64_t const v = __vf_sym(0, 0x47); b[t.n++] = (char) __vf_ite(v < 0x40, 0x80 + v, 0xF8 + v - 0x40); continue; }
            b[t.n++] = (char) (kind == 6 ? __vf_sym(0xC0, 0xDF) : kind == 7 ? __vf_sym(0xE0, 0xEF) : __vf_sym(0xF0, 0xF7));
            for (int k = 6; k < kind; k++) b[t.n++] = (char) __vf_sym(0x80, 0xBF);
        }
        t.p = vf_buf<char>(t.n); for (size_t i = 0; i < t.n; i++) t.p[i] = b[i];
        return t;
    }
    if (!pieces) { t.n = (size_t) n; t.p = vf_buf<char>(t.n); for (int i = 0; i < n; i++) t.p[i] = (char) __vf_sym(0, 255); return t; }
    static char const* const piece[] = { "a", "K", "\xC3\x9F", "\xCC\x81", "\xC4\xB0", "\xE2\x80\x8D", "\xE1\x84\x80", "\xE1\x85\xA1", "\xF0\x9F\x87\xA6", "\x80", "\xC3", "\xE2\x80", "\xF0\x9F\x87", "\xFF" };
    int which[16]; t.n = 0;
    for (int i = 0; i < n; i++) { which[i] = (int) __vf_concretise(__vf_choose(0, 13)); t.n += strlen(piece[which[i]]); }
    t.p = vf_buf<char>(t.n); size_t at = 0;
    for (int i = 0; i < n; i++) for (char const* q = piece[which[i]]; *q; q++) t.p[at++] = *q;
    return t;
}
// the text with every malformed sequence replaced; open: the text ends inside a sequence
static std::u32string replaced(bytes t, bool& open)
{
    std::u32string s; utf8_decoder_state st;
    for (size_t i = 0; i < t.n; i++)
    {
        auto const r = from_utf8(st, (uint8_t) t.p[i]);
        if (std::holds_alternative<Success>(r)) s.push_back(std::get<Success>(r).value);
        else if (std::holds_alternative<Invalid>(r)) s.push_back(0xFFFD);
    }
    open = st.expectedLength != 0;
    return s;
}
static void same(std::string_view a, std::string_view b, char const* m)
{
    __vf_assert_eq(a.size(), b.size(), m);
    for (size_t i = 0; i < a.size() && i < b.size(); i++) { __vf_assert_eq((uint8_t) a[i], (uint8_t) b[i], m); __vf_out((uint8_t) a[i]); }
}
static void clusters(bytes t)
{
    bool open; std::u32string want = replaced(t, open);
    std::u32string got; size_t ends[80]; int n = 0;
    utf8_grapheme_segmenter s { std::string_view(t.p, t.n) };
    auto it = s.begin(); auto const end = s.end();
    while (it != end)
    {
        __vf_assert(n < 80 && got.size() <= want.size(), "more codepoints than the text has");
        if (!(n < 80 && got.size() <= want.size())) return;
        auto const& v = *it; __vf_assert(v.size() >= 1, "empty cluster");
        for (char32_t c: v) got.push_back(c);
        ends[n++] = got.size();
        ++it;
    }
    // a sequence cut off by the end counts as one malformed sequence (unless a malformed one in front of it has just been reported)
    if (open && got.size() != want.size()) want.push_back(0xFFFD);
    __vf_assert_eq(got.size(), want.size(), "number of codepoints");
    for (size_t i = 0; i < got.size() && i < want.size(); i++) { __vf_assert_eq(got[i], want[i], "codepoint"); __vf_out(got[i]); }
    if (got.size() != want.size()) return;
    // boundaries: those of the UTF-32 functions on the replaced text
    grapheme_segmenter_state st {}; int k = 0;
    for (size_t i = 0; i < want.size(); i++)
    {
        bool const b = i == 0 ? false : (bool) __vf_concretise(grapheme_process_breakable(want[i], st));
        if (i == 0 || b) grapheme_process_init(want[i], st);
        if (b) { __vf_assert(k < n && ends[k] == i, "boundary"); k++; }
    }
    __vf_assert(k + (want.size() ? 1 : 0) == (size_t) n, "number of clusters");
}
static void capi(bytes t)
{
    auto const u = convert_to<char32_t>(std::string_view(t.p, t.n));
    auto const p = (u32_char_t const*) u.data();
    __vf_assert_eq((uint64_t) u8_gc_count(t.p, t.n), (uint64_t) u32_gc_count(p, u.size()), "u8_gc_count");
    for (int m = 0; m < 2; m++)
    {
        int const w = u8_gc_width(t.p, t.n, m);
        __vf_assert_eq((uint64_t) w, (uint64_t) u32_gc_width(p, u.size(), m), "u8_gc_width"); __vf_out((uint64_t) w);
    }
}
static std::string mapped(std::string_view s, int op) { return op == 0 ? to_uppercase(s) : op == 1 ? to_lowercase(s) : op == 2 ? to_titlecase(s) : casefold(s); }
static std::u32string mapped(std::u32string_view s, int op) { return op == 0 ? to_uppercase(s) : op == 1 ? to_lowercase(s) : op == 2 ? to_titlecase(s) : casefold(s); }
static void cases(bytes t, int op)
{
    std::string_view const s(t.p, t.n);
    auto const u = convert_to<char32_t>(s);
    same(mapped(s, op), convert_to<char>(std::u32string_view(mapped(std::u32string_view(u), op))), "case conversion of UTF-8");
}
static void compare(bytes a, bytes b)
{
    std::string_view const s(a.p, a.n), t(b.p, b.n);
    auto const u = convert_to<char32_t>(s), v = convert_to<char32_t>(t);
    int const c = casefold_compare(s, t), d = casefold_compare(std::u32string_view(u), std::u32string_view(v));
    __vf_assert((c < 0) == (d < 0) && (c > 0) == (d > 0), "casefold_compare of UTF-8");
    __vf_assert_eq(casefold_equals(s, t), d == 0, "casefold_equals of UTF-8");
    __vf_out(c == 0);
}
static void normal(bytes t, Normalization_Form f)
{
    std::string_view const s(t.p, t.n);
    auto const u = convert_to<char32_t>(s);
    same(normalize(s, f), convert_to<char>(std::u32string_view(normalize(std::u32string_view(u), f))), "normalize of UTF-8");
    __vf_assert_eq((uint64_t) quick_check(s, f), (uint64_t) quick_check(std::u32string_view(u), f), "quick_check of UTF-8");
    __vf_assert_eq(is_normalized(s, f), is_normalized(std::u32string_view(u), f), "is_normalized of UTF-8");
    __vf_assert(is_canonically_equivalent(s, s), "is_canonically_equivalent of UTF-8");
}
static void stream(bytes t, Normalization_Form f)
{
    bool open; auto want = replaced(t, open); if (open) want.push_back(0xFFFD);
    utf8_normalizer z(f); std::string got;
    size_t const cut = (size_t) __vf_concretise(__vf_choose(0, t.n));
    got += z.feed(std::string_view(t.p, cut)); got += z.feed(std::string_view(t.p + cut, t.n - cut)); got += z.flush();
    same(got, convert_to<char>(std::u32string_view(normalize(std::u32string_view(want), f))), "utf8_normalizer");
}
void vf_main()
{
    int const mode = (int) __vf_param(0), n = (int) __vf_param(1), k = (int) __vf_param(3); int const pieces = (int) __vf_param(2);
    bytes const t = text(n, pieces);
    switch (mode)
    {
        case 0: clusters(t); break;
        case 1: capi(t); break;
        case 2: cases(t, k); break;
        case 3: compare(t, text(k, pieces)); break;
        case 4: normal(t, (Normalization_Form) k); break;
        case 5: stream(t, (Normalization_Form) k); break;
    }
}
