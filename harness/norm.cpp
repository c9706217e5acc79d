// Normalization against UAX #15.  params: mode, n, form
#include "ref_norm.h"
#include "utf.h"
#include "simd_pick.h"
#include <libunicode/normalization.h>
using namespace unicode;
static Normalization_Form const forms[4] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
// odd lengths go through the functions named after the form
template <typename S> static auto normalized(S s, int form, int n)
{
    if (n % 2 == 0) return normalize(s, forms[form & 3]);
    return form == 0 ? to_nfc(s) : form == 1 ? to_nfd(s) : form == 2 ? to_nfkc(s) : to_nfkd(s);
}
template <typename S> static bool is_form(S s, int form, int n)
{
    if (n % 2 == 0) return is_normalized(s, forms[form & 3]);
    return form == 0 ? is_nfc(s) : form == 1 ? is_nfd(s) : form == 2 ? is_nfkc(s) : is_nfkd(s);
}
static void equal(std::u32string_view got, refn::str const& want, char const* msg)
{
    __vf_assert_eq(got.size(), (uint64_t) want.n, msg);
    for (int i = 0; i < want.n; i++) { __vf_assert_eq(got[(size_t) i], want.c[i], msg); __vf_out(want.c[i]); }
}
static void same_utf8(std::string_view got, refn::str const& w, char const* msg)
{
    size_t k = 0;
    for (int i = 0; i < w.n; i++)
    {
        uint32_t const c = w.c[i];
        int const len = (int) __vf_concretise(c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4);
        __vf_assert(k + (size_t) len <= got.size(), msg);
        char b[4]; utf8_put(b, c, len);
        for (int q = 0; q < len; q++) __vf_assert_eq((uint8_t) got[k + (size_t) q], (uint8_t) b[q], msg);
        k += (size_t) len;
    }
    __vf_assert_eq(got.size(), k, msg);
}
static bool same(refn::str const& a, uint32_t const* t, int n)
{
    if (a.n != n) return false;
    bool eq = true;
    for (int i = 0; i < n; i++) eq = eq & (a.c[i] == t[i]);
    return eq;
}
// properties of one codepoint.  tables 7: exclusion(0) full exclusion(1) nfc(2,3) nfkc(4,5) nfd(6) nfkd(7) type(8..); 8 rawd 9 rawdx 10 rawk 11 rawkx
static uint32_t pick_at(int, int);
static void properties()
{
    uint32_t const c = vf_cp();
    uint32_t const r = __vf_ref(7, c);
    __vf_assert_eq(canonical_combining_class(c), refn::ccc(c), "canonical_combining_class");
    __vf_assert_eq(is_composition_exclusion(c), r & 1, "is_composition_exclusion");
    __vf_assert_eq(is_full_composition_exclusion(c), r >> 1 & 1, "is_full_composition_exclusion");
    auto const q = nfc_quick_check(c); auto const k = nfkc_quick_check(c);
    __vf_assert_eq((uint64_t) (q == NFC_Quick_Check::No) + 2 * (q == NFC_Quick_Check::Maybe), r >> 2 & 3, "nfc_quick_check");
    __vf_assert((q == NFC_Quick_Check::No) | (q == NFC_Quick_Check::Maybe) | (q == NFC_Quick_Check::Yes), "nfc_quick_check");
    __vf_assert_eq((uint64_t) (k == NFKC_Quick_Check::No) + 2 * (k == NFKC_Quick_Check::Maybe), r >> 4 & 3, "nfkc_quick_check");
    __vf_assert((k == NFKC_Quick_Check::No) | (k == NFKC_Quick_Check::Maybe) | (k == NFKC_Quick_Check::Yes), "nfkc_quick_check");
    __vf_assert_eq(nfd_quick_check(c), !(r >> 6 & 1), "nfd_quick_check");
    __vf_assert_eq(nfkd_quick_check(c), !(r >> 7 & 1), "nfkd_quick_check");
    static const Decomposition_Type types[18] = { Decomposition_Type::None, Decomposition_Type::Canonical, Decomposition_Type::Circle, Decomposition_Type::Compat, Decomposition_Type::Final, Decomposition_Type::Font,
        Decomposition_Type::Fraction, Decomposition_Type::Initial, Decomposition_Type::Isolated, Decomposition_Type::Medial, Decomposition_Type::Narrow, Decomposition_Type::Nobreak, Decomposition_Type::Small,
        Decomposition_Type::Square, Decomposition_Type::Sub, Decomposition_Type::Super, Decomposition_Type::Vertical, Decomposition_Type::Wide };
    auto const dt = decomposition_type(c);
    uint64_t no = 99;
    for (int i = 0; i < 18; i++) no = __vf_ite(dt == types[i], (uint64_t) i, no);
    __vf_assert_eq(no, r >> 8, "decomposition_type");
    __vf_assert_eq(is_hangul_syllable(c), (c >= 0xAC00) & (c <= 0xD7A3), "is_hangul_syllable");
    __vf_assert_eq(is_hangul_l_jamo(c), (c >= 0x1100) & (c <= 0x1112), "is_hangul_l_jamo");
    __vf_assert_eq(is_hangul_v_jamo(c), (c >= 0x1161) & (c <= 0x1175), "is_hangul_v_jamo");
    __vf_assert_eq(is_hangul_t_jamo(c), (c >= 0x11A8) & (c <= 0x11C2), "is_hangul_t_jamo");
}
static void decompositions(bool compat)
{
    uint32_t const c = vf_cp();
    auto const v = compat ? compatibility_decomposition(c) : canonical_decomposition(c);
    uint32_t const r = __vf_ref(compat ? 10 : 8, c);
    __vf_assert_eq(v.size(), r & 31, compat ? "compatibility_decomposition: length" : "canonical_decomposition: length");
    for (size_t i = 0; i < v.size(); i++) __vf_assert_eq(v[i], __vf_ref(compat ? 11 : 9, (r >> 5) + (uint32_t) i), compat ? "compatibility_decomposition" : "canonical_decomposition");
}
static void hangul()
{
    uint32_t const s = vf_cp();
    char32_t out[3] = { 1, 2, 3 };
    size_t const k = hangul_decompose(s, out);
    bool const syl = (s >= 0xAC00) & (s <= 0xD7A3);
    if (!syl) __vf_assert(k == 0 && out[0] == 1 && out[1] == 2 && out[2] == 3, "hangul_decompose: not a syllable");
    else
    {
        uint32_t const i = s - 0xAC00;
        __vf_assert_eq(k, (i % 28) ? 3 : 2, "hangul_decompose: length");
        __vf_assert_eq(out[0], 0x1100 + i / 588, "hangul_decompose: L");
        __vf_assert_eq(out[1], 0x1161 + i % 588 / 28, "hangul_decompose: V");
        if (k == 3) __vf_assert_eq(out[2], 0x11A7 + i % 28, "hangul_decompose: T");
        __vf_assert_eq(hangul_compose(out[0], out[1], k == 3 ? out[2] : 0), s, "hangul_compose(hangul_decompose)");
    }
}
static void hangul_pairs()
{
    uint32_t const l = vf_cp(), v = vf_cp(), t = vf_cp();
    bool const L = (l >= 0x1100) & (l <= 0x1112), V = (v >= 0x1161) & (v <= 0x1175), T = (t >= 0x11A8) & (t <= 0x11C2);
    __vf_concretise(L); __vf_concretise(V); __vf_concretise(T); __vf_concretise(t == 0);
    uint32_t const got = hangul_compose(l, v, t);
    if (!(L & V & (T | (t == 0)))) __vf_assert_eq(got, 0, "hangul_compose: not composable");
    else { uint32_t const lv = 0xAC00 + ((l - 0x1100) * 21 + (v - 0x1161)) * 28; __vf_assert_eq(got, t == 0 ? lv : lv + (t - 0x11A7), "hangul_compose"); }
}
// Any codepoint, or (param 3) any codepoint of a table that starts with its own length.
static uint32_t pick(int tab = (int) __vf_param(3))
{
    if (tab == 0) return vf_cp();
    return __vf_ref(tab, __vf_sym(1, __vf_ref(tab, 0)));
}
// position i of n: param(5) is the table of the positions behind the first, the last param(4) ones have one value on every path
static uint32_t pick_at(int i, int n)
{
    uint32_t c = i == 0 || __vf_param(5) == 0 ? pick() : pick((int) __vf_param(5));
    if (n - i <= (int) __vf_param(4)) c = (uint32_t) __vf_concretise(c);
    return c;
}
static sym_text picked_utf8(int n)
{
    sym_text u; u.n = n; u.size = 0; u.cp = vf_buf<uint32_t>((size_t) n + 1); u.off = vf_buf<size_t>((size_t) n + 1);
    for (int i = 0; i < n; i++) { uint32_t const c = u.cp[i] = pick_at(i, n); u.off[i] = u.size; u.size += (size_t) __vf_concretise(c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4); }
    u.off[n] = u.size; u.p = vf_buf<char>(u.size);
    for (int i = 0; i < n; i++) { __vf_assume((u.cp[i] < 0xD800) | (u.cp[i] > 0xDFFF)); utf8_put(u.p + u.off[i], u.cp[i], (int) (u.off[i + 1] - u.off[i])); }
    return u;
}
extern "C" void vf_main()
{
    int const mode = (int) __vf_param(0), n = (int) __vf_param(1), form = (int) __vf_param(2);
    auto const F = forms[form & 3];
    if (mode == 0) { properties(); return; }
    if (mode == 1) { decompositions(form != 0); return; }
    if (mode == 2) { hangul(); return; }
    if (mode == 3) { hangul_pairs(); return; }
    uint32_t* t = vf_buf<uint32_t>(n);
    if (mode == 10)
    {   // UTF-32 normalization; the last param(4) codepoints have one value on every path
        for (int i = 0; i < n; i++) t[i] = pick_at(i, n);
        refn::str w; refn::normalize(w, t, n, form);
        equal(normalized(std::u32string_view((char32_t const*) t, (size_t) n), form, n), w, "normalize(u32)");
    }
    else if (mode == 20)
    {   // long texts: n picked codepoints with param 6 marks of four classes behind each, in every interface
        int const run = (int) __vf_param(6), m = n * (run + 1);
        static uint32_t const marks[6] = { 0x301, 0x323, 0x300, 0x334, 0x316, 0x345 };
        t = vf_buf<uint32_t>((size_t) m);
        for (int i = 0, k = 0; i < n; i++) { t[k++] = pick_at(i, n); for (int j = 0; j < run; j++) t[k++] = marks[(i + j) % 6]; }
        std::u32string_view const s((char32_t const*) t, (size_t) m);
        refn::str w; refn::normalize(w, t, m, form);
        bool const is = same(w, t, m);
        equal(normalize(s, F), w, "normalize(long text)");
        auto const q = quick_check(s, F);
        if (q == Quick_Check_Result::Yes) __vf_assert(is, "quick_check says Yes, but normalizing changes the long text");
        else if (q == Quick_Check_Result::No) __vf_assert(!is, "quick_check says No, but normalizing does not change the long text");
        __vf_assert_eq(is_normalized(s, F), is, "is_normalized(long text)");
        normalizer z(F); std::u32string got;
        for (int i = 0; i < m; i++) { auto const v = z.feed(t[i]); got.append(v); }
        { auto const v = z.flush(); got.append(v); }
        equal(got, w, "streaming normalizer (long text)");
    }
    else if (mode == 15)
    {   // a possible first and a possible second part of a composition, between other marks: n = 2 adjacent, 3 with U+0323 or U+0334 between, 4 with a starter between
        t[0] = pick(14);
        t[n - 1] = (uint32_t) __vf_concretise(pick(15));
        if (n == 3) t[1] = (uint32_t) __vf_concretise(__vf_ite(__vf_choose(0, 1), 0x323, 0x334));
        if (n == 4) { t[1] = 0x334; t[2] = 0x200B; }
        refn::str w; refn::normalize(w, t, n, form);
        equal(normalize(std::u32string_view((char32_t const*) t, (size_t) n), F), w, "normalize(pair)");
    }
    else if (mode == 16)
    {   // the forms absorb each other, and equivalence is equality of decompositions; form selects the relation
        for (int i = 0; i < n; i++) t[i] = pick_at(i, n);
        std::u32string_view const s((char32_t const*) t, (size_t) n);
        static const int outer[6] = { 0, 1, 2, 2, 3, 3 }, inner[6] = { 1, 0, 0, 3, 0, 2 };
        auto const a = normalize(s, forms[inner[form]]);
        auto const b = normalize(std::u32string_view(a), forms[outer[form]]);
        refn::str w; refn::normalize(w, t, n, outer[form]);
        equal(b, w, "normalizing a normalized text gives another result than normalizing the text");
        if (inner[form] < 2) __vf_assert(is_canonically_equivalent(s, std::u32string_view(a)), "a text is not canonically equivalent to its normal form");
        __vf_assert(is_compatibility_equivalent(std::u32string_view(a), s), "a text is not compatibility equivalent to its normal form");
    }
    else if (mode == 19)
    {   // equivalence of two texts: n of the first, param 6 of the second
        int const m = (int) __vf_param(6);
        uint32_t* q = vf_buf<uint32_t>(m);
        for (int i = 0; i < n; i++) t[i] = pick_at(i, n);
        for (int i = 0; i < m; i++) q[i] = pick_at(i, m);
        std::u32string_view const a((char32_t const*) t, (size_t) n), b((char32_t const*) q, (size_t) m);
        refn::str x, y; refn::normalize(x, t, n, 2 * form + 1); refn::normalize(y, q, m, 2 * form + 1);
        bool eq = x.n == y.n;
        for (int i = 0; i < x.n && i < y.n; i++) eq = eq & (x.c[i] == y.c[i]);
        __vf_assert_eq(form ? is_compatibility_equivalent(a, b) : is_canonically_equivalent(a, b), eq, form ? "is_compatibility_equivalent" : "is_canonically_equivalent");
    }
    else if (mode == 17)
    {   // UTF-8 streaming: the bytes in two chunks cut anywhere, before that possibly a text that was cut off and flushed or reset
        sym_text const u = picked_utf8(n);
        size_t const total = u.size; char* const p = u.p; t = u.cp;
        size_t const cut = (size_t) __vf_concretise(__vf_choose(0, total));
        int const before = (int) __vf_concretise(__vf_choose(0, 3)); // nothing, prefix + flush, prefix + reset, text + flush
        refn::str w; refn::normalize(w, t, n, form);
        utf8_normalizer z(F);
        if (before) { auto const v = z.feed(std::string_view(p, before == 3 ? total : cut)); (void) v; }
        if (before == 2) z.reset();
        else if (before) { auto const v = z.flush(); (void) v; }
        std::string got;
        { auto const v = z.feed(std::string_view(p, cut)); got.append(v); }
        size_t const cut2 = before || n > 2 ? total : (size_t) __vf_concretise(__vf_choose(cut, total)); // a third chunk
        { auto const v = z.feed(std::string_view(p + cut, cut2 - cut)); got.append(v); }
        if (cut2 < total) { auto const v = z.feed(std::string_view(p + cut2, total - cut2)); got.append(v); }
        { auto const v = z.flush(); got.append(v); }
        same_utf8(got, w, "streaming UTF-8 normalizer");
        { auto const v = z.flush(); __vf_assert(v.empty(), "streaming UTF-8 normalizer: flush repeats text"); }
    }
    else if (mode == 11)
    {   // UTF-8 normalization
        sym_text u = __vf_param(3) ? picked_utf8(n) : sym_utf8(n);
        refn::str w; refn::normalize(w, u.cp, n, form);
        auto const got = normalized(std::string_view(u.p, u.size), form, n);
        same_utf8(got, w, "normalize(utf8)");
    }
    else if (mode == 12)
    {   // quick check and is_normalized
        for (int i = 0; i < n; i++) t[i] = pick_at(i, n);
        refn::str w; refn::normalize(w, t, n, form);
        bool const is = same(w, t, n);
        std::u32string_view const s((char32_t const*) t, (size_t) n);
        auto const q = quick_check(s, F);
        if (q == Quick_Check_Result::Yes) __vf_assert(is, "quick_check says Yes, but normalizing changes the text");
        else if (q == Quick_Check_Result::No) __vf_assert(!is, "quick_check says No, but normalizing changes nothing");
        else __vf_assert((q == Quick_Check_Result::Maybe) & (form == 0 || form == 2), "quick_check: Maybe for a decomposed form");
        __vf_assert_eq(is_form(s, form, n), is, "is_normalized");
        __vf_out((uint64_t) q);
    }
    else if (mode == 21)
    {   // quick check and is_normalized of UTF-8
        sym_text u = __vf_param(3) ? picked_utf8(n) : sym_utf8(n);
        refn::str w; refn::normalize(w, u.cp, n, form);
        bool const is = same(w, u.cp, n);
        std::string_view const s(u.p, u.size);
        auto const q = quick_check(s, F);
        if (q == Quick_Check_Result::Yes) __vf_assert(is, "quick_check(utf8) says Yes, but normalizing changes the text");
        else if (q == Quick_Check_Result::No) __vf_assert(!is, "quick_check(utf8) says No, but normalizing changes nothing");
        else __vf_assert((q == Quick_Check_Result::Maybe) & (form == 0 || form == 2), "quick_check(utf8): Maybe for a decomposed form");
        __vf_assert_eq(is_form(s, form, n), is, "is_normalized(utf8)");
        __vf_out((uint64_t) q);
    }
    else if (mode == 22)
    {   // equivalence of two UTF-8 texts: n of the first, param 6 of the second
        int const m = (int) __vf_param(6);
        sym_text const u = picked_utf8(n), v = picked_utf8(m);
        refn::str x, y; refn::normalize(x, u.cp, n, 2 * form + 1); refn::normalize(y, v.cp, m, 2 * form + 1);
        bool eq = x.n == y.n;
        for (int i = 0; i < x.n && i < y.n; i++) eq = eq & (x.c[i] == y.c[i]);
        std::string_view const a(u.p, u.size), b(v.p, v.size);
        __vf_assert_eq(form ? is_compatibility_equivalent(a, b) : is_canonically_equivalent(a, b), eq, form ? "is_compatibility_equivalent(utf8)" : "is_canonically_equivalent(utf8)");
    }
    else if (mode == 13)
    {   // stability
        for (int i = 0; i < n; i++) t[i] = pick_at(i, n);
        std::u32string_view const s((char32_t const*) t, (size_t) n);
        auto const a = normalize(s, F);
        __vf_assert(a.size() >= (size_t) (n > 0), "normalize: text lost");
        auto const b = normalize(std::u32string_view(a), F);
        __vf_assert_eq(a.size(), b.size(), "normalize is not idempotent");
        for (size_t i = 0; i < a.size(); i++) __vf_assert_eq(a[i], b[i], "normalize is not idempotent");
        __vf_assert(is_normalized(std::u32string_view(a), F), "normalized text is not recognised as normalized");
        __vf_assert(quick_check(std::u32string_view(a), F) != Quick_Check_Result::No, "quick_check rejects normalized text");
    }
    else if (mode == 14)
    {   // streaming, codepoint by codepoint
        for (int i = 0; i < n; i++) t[i] = pick_at(i, n);
        refn::str w; refn::normalize(w, t, n, form);
        normalizer z(F);
        for (int round = 0; round < 2; round++)
        {
            std::u32string got;
            for (int i = 0; i < n; i++) { auto const v = z.feed(t[i]); got.append(v); }
            auto const v = z.flush(); got.append(v);
            equal(got, w, round ? "streaming normalizer after flush" : "streaming normalizer");
            if (round == 0 && n) { auto const v = z.feed(t[0]); z.reset(); __vf_assert(v.empty(), "streaming normalizer: output without input"); }
        }
    }
}
