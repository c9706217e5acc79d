// Case mapping against the UCD.  params: mode, n, table of codepoints (0: any), #last codepoints concretised, second length, #ASCII characters behind each codepoint
// tables: 0..3 simple upper, lower, title, fold (difference); 4..7 full; 8 expansions; 9 properties; 10 wb
#include "vf.h"
#include "utf.h"
#include "simd_pick.h"
#define REFWB_TABLE 10
#include "ref_wb.h"
#include <libunicode/case_mapping.h>
using namespace unicode;
struct str { uint32_t c[420]; int n = 0; };
static void ref_map(str& o, uint32_t c, int kind)
{
    uint32_t const r = __vf_ref(4 + kind, c);
    int const len = (int) __vf_concretise(r & 31);
    if (len == 0) { o.c[o.n++] = c; return; }
    for (int k = 0; k < len; k++) o.c[o.n++] = __vf_ref(8, (r >> 5) + (uint32_t) k);
}
static void ref_text(str& o, char32_t const* t, int n, int kind)
{
    if (kind != 2) { for (int i = 0; i < n; i++) ref_map(o, t[i], kind); return; }
    bool want[140]; for (bool& w: want) w = false;
    refwb::boundaries(10, t, n, want);
    bool seen = false;
    for (int i = 0; i < n; i++)
    {
        if (i == 0 || __vf_concretise(want[i])) seen = false;
        if (!__vf_concretise(__vf_ref(9, t[i]) & 1)) { o.c[o.n++] = t[i]; continue; }
        ref_map(o, t[i], seen ? 1 : 2);
        seen = true;
    }
}
static void equal(std::u32string_view got, str const& want, char const* msg)
{
    __vf_assert_eq(got.size(), (uint64_t) want.n, msg);
    for (int i = 0; i < want.n; i++) { __vf_assert_eq(got[(size_t) i], want.c[i], msg); __vf_out(want.c[i]); }
}
static void equal8(std::string_view got, str const& w, char const* msg)
{
    size_t k = 0;
    for (int i = 0; i < w.n; i++)
    {
        uint32_t const c = w.c[i];
        int const len = (int) __vf_concretise(c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4);
        __vf_assert(k + (size_t) len <= got.size(), msg);
        char b[4]; utf8_put(b, c, len);
        for (int q = 0; q < len; q++) __vf_assert_eq((uint8_t) got[k + (size_t) q], (uint8_t) b[q], msg);
        k += (size_t) len;
    }
    __vf_assert_eq(got.size(), k, msg);
}
static std::string to8(char32_t const* t, int n)
{
    std::string s;
    for (int i = 0; i < n; i++)
    {
        uint32_t const c = t[i]; int const len = (int) __vf_concretise(c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4);
        char b[4]; utf8_put(b, c, len); s.append(b, (size_t) len);
    }
    return s;
}
static void result_is(case_mapping_result const& r, uint32_t c, int kind, char const* msg)
{
    uint32_t const w = __vf_ref(4 + kind, c); uint32_t const len = w & 31;
    __vf_assert_eq(r.length, len, msg);
    __vf_assert_eq(r.is_identity(), len == 0, msg);
    for (uint32_t k = 0; k < 3; k++)
    {
        uint32_t const x = __vf_ref(8, (w >> 5) + k);
        __vf_assert_eq(k < len ? (uint32_t) r.codepoints[k] : 0, k < len ? x : 0, msg);
    }
}
static void codepoint(uint32_t c)
{
    __vf_assert_eq(simple_uppercase(c), c + __vf_ref(0, c), "simple_uppercase");
    __vf_assert_eq(simple_lowercase(c), c + __vf_ref(1, c), "simple_lowercase");
    __vf_assert_eq(simple_titlecase(c), c + __vf_ref(2, c), "simple_titlecase");
    __vf_assert_eq(simple_casefold(c), c + __vf_ref(3, c), "simple_casefold");
    result_is(full_uppercase(c), c, 0, "full_uppercase");
    result_is(full_lowercase(c), c, 1, "full_lowercase");
    result_is(full_titlecase(c), c, 2, "full_titlecase");
    result_is(full_casefold(c), c, 3, "full_casefold");
    uint32_t const p = __vf_ref(9, c);
    __vf_assert_eq(is_cased(c), p & 1, "is_cased");
    __vf_assert_eq(is_case_ignorable(c), p >> 1 & 1, "is_case_ignorable");
    __vf_assert_eq(changes_when_uppercased(c), (__vf_ref(4, c) != 0) | (__vf_ref(0, c) != 0), "changes_when_uppercased");
    __vf_assert_eq(changes_when_lowercased(c), (__vf_ref(5, c) != 0) | (__vf_ref(1, c) != 0), "changes_when_lowercased");
    __vf_assert_eq(changes_when_titlecased(c), (__vf_ref(6, c) != 0) | (__vf_ref(2, c) != 0), "changes_when_titlecased");
    __vf_assert_eq(changes_when_casefolded(c), (__vf_ref(7, c) != 0) | (__vf_ref(3, c) != 0), "changes_when_casefolded");
    __vf_out(simple_casefold(c));
}
static int lexcmp(str const& a, str const& b)
{
    int r = 0;
    int const m = a.n < b.n ? a.n : b.n;
    for (int i = m; i-- > 0;) r = (int) __vf_ite(a.c[i] < b.c[i], (uint64_t) -1, __vf_ite(a.c[i] > b.c[i], 1, (uint64_t) (int64_t) r));
    bool eq = true; for (int i = 0; i < m; i++) eq = eq & (a.c[i] == b.c[i]);
    return (int) __vf_ite(eq, (uint64_t) (int64_t) (a.n < b.n ? -1 : a.n > b.n ? 1 : 0), (uint64_t) (int64_t) r);
}
static int sgn(int x) { return (x > 0) - (x < 0); }
extern "C" void vf_main()
{
    int const mode = (int) __vf_param(0), run = (int) __vf_param(5); int n = (int) __vf_param(1), m = (int) __vf_param(4); int const set = (int) __vf_param(2), fix = (int) __vf_param(3);
    if (mode == 0) { codepoint(vf_cp()); return; }
    if (mode == 1)
    {   // values that are no codepoints
        uint32_t const v = (uint32_t) __vf_sym(0, 0x6EFFFF) + (__vf_concretise(__vf_choose(0, 1)) ? 0x110000u : 0xFF910000u);
        __vf_assert_eq(simple_uppercase(v), v, "simple_uppercase above U+10FFFF"); __vf_assert_eq(simple_lowercase(v), v, "simple_lowercase above U+10FFFF");
        __vf_assert_eq(simple_titlecase(v), v, "simple_titlecase above U+10FFFF"); __vf_assert_eq(simple_casefold(v), v, "simple_casefold above U+10FFFF");
        __vf_assert(full_uppercase(v).is_identity() & full_lowercase(v).is_identity() & full_titlecase(v).is_identity() & full_casefold(v).is_identity(), "full mapping above U+10FFFF");
        __vf_assert(!is_cased(v) & !is_case_ignorable(v), "is_cased above U+10FFFF");
        return;
    }
    char32_t* t = vf_buf<char32_t>((size_t) (n + m));
    for (int i = 0; i < n + m; i++)
    {
        if (set) { uint64_t k = __vf_sym(1, __vf_ref(set, 0)); if (i >= n + m - fix) k = __vf_concretise(k); t[i] = __vf_ref(set, k); }
        else if (mode >= 6 && mode <= 11 && mode != 10) t[i] = sym_scalar((int) __vf_concretise(__vf_choose(1, 4)));
        else t[i] = vf_cp();
    }
    if (run)
    {
        static char const filler[] = "Az@[`{ Q'5.x";
        int const shift = mode == 10 || mode == 11 ? 0 : (int) __vf_concretise(__vf_choose(0, 11)); // any letter of the filler anywhere
        char32_t* const u = vf_buf<char32_t>((size_t) ((n + m) * (run + 1)));
        for (int i = 0, k = 0; i < n + m; i++) { u[k++] = t[i]; for (int j = 0; j < run; j++) u[k++] = (unsigned char) filler[(i * 5 + j + shift) % 12]; }
        t = u; n *= run + 1; m *= run + 1;
    }
    std::u32string_view const v { t, (size_t) n }, v2 { t + n, (size_t) m };
    if (mode >= 2 && mode <= 5)
    {   // UTF-32 upper, lower, title, fold
        str w; ref_text(w, t, n, mode - 2);
        auto const g = mode == 2 ? to_uppercase(v) : mode == 3 ? to_lowercase(v) : mode == 4 ? to_titlecase(v) : casefold(v);
        equal(g, w, mode == 2 ? "to_uppercase" : mode == 3 ? "to_lowercase" : mode == 4 ? "to_titlecase" : "casefold");
        return;
    }
    if (mode >= 6 && mode <= 9)
    {   // UTF-8
        str w; ref_text(w, t, n, mode - 6);
        auto const s = to8(t, n); std::string_view const u { s };
        auto const g = mode == 6 ? to_uppercase(u) : mode == 7 ? to_lowercase(u) : mode == 8 ? to_titlecase(u) : casefold(u);
        equal8(g, w, mode == 6 ? "to_uppercase of UTF-8" : mode == 7 ? "to_lowercase of UTF-8" : mode == 8 ? "to_titlecase of UTF-8" : "casefold of UTF-8");
        return;
    }
    if (mode == 10 || mode == 11)
    {   // comparison of the first n with the last m codepoints
        str a, b; ref_text(a, t, n, 3); ref_text(b, t + n, m, 3);
        int const want = lexcmp(a, b);
        int x, y; bool e, e2;
        if (mode == 10) { x = casefold_compare(v, v2); y = casefold_compare(v2, v); e = casefold_equals(v, v2); e2 = casefold_equals(v2, v); }
        else
        {
            auto const s = to8(t, n), s2 = to8(t + n, m);
            x = casefold_compare(std::string_view(s), std::string_view(s2)); y = casefold_compare(std::string_view(s2), std::string_view(s));
            e = casefold_equals(std::string_view(s), std::string_view(s2)); e2 = casefold_equals(std::string_view(s2), std::string_view(s));
        }
        __vf_assert_eq((uint32_t) sgn(x), (uint32_t) want, "casefold_compare differs from the order of the foldings");
        __vf_assert_eq((uint32_t) sgn(y), (uint32_t) -want, "casefold_compare is not antisymmetric");
        __vf_assert_eq(e, want == 0, "casefold_equals differs from equality of the foldings");
        __vf_assert_eq(e2, want == 0, "casefold_equals is not symmetric");
        __vf_out((uint32_t) sgn(x));
        return;
    }
    if (mode == 12)
    {   // idempotence
        auto const f = casefold(v); auto const g = casefold(std::u32string_view(f));
        __vf_assert_eq(g.size(), f.size(), "casefold is not idempotent");
        for (size_t i = 0; i < f.size(); i++) { __vf_assert_eq(g[i], f[i], "casefold is not idempotent"); __vf_out(f[i]); }
        __vf_assert(casefold_equals(v, std::u32string_view(f)), "a text does not equal its folding");
    }
}
