// UTF-8 / UTF-16 / UTF-32 conversions.  params: mode, n, alternating scalars (bytes, units) behind the first, [7] vector width
#include "utf.h"
#include "simd_pick.h"
#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <libunicode/utf8.h>
#include <string>
using namespace unicode;
using std::u32string_view; using std::u16string_view; using std::string_view;

static int rep() { return (int) __vf_param(2); }
static bool repeated(int i) { return i > 0 && i <= rep(); }
template <typename T, size_t N> static T one_of(T const (&list)[N]) { return rep() ? list[__vf_concretise(__vf_sym(0, N - 1))] : list[0]; }
// n symbolic scalars; n becomes the length with the alternating ones
static sym_text text(int& n)
{
    if (!rep()) return sym_utf8(n);
    static uint32_t const often[] = { 0x00, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF };
    uint32_t const xy[2] = { one_of(often), one_of(often) };
    sym_text t; n += rep(); t.n = n; t.size = 0; t.cp = vf_buf<uint32_t>((size_t) n + 1); t.off = vf_buf<size_t>((size_t) n + 1);
    for (int i = 0; i < n; i++)
    {
        int const len = repeated(i) ? utf8_len(xy[i & 1]) : (int) __vf_concretise(__vf_choose(1, 4));
        t.cp[i] = repeated(i) ? xy[i & 1] : sym_scalar(len); t.off[i] = t.size; t.size += (size_t) len;
    }
    t.off[n] = t.size; t.p = vf_buf<char>(t.size);
    for (int i = 0; i < n; i++) utf8_put(t.p + t.off[i], t.cp[i], (int) (t.off[i + 1] - t.off[i]));
    return t;
}
static void well_formed(int n)
{
    sym_text t = text(n);
    // encoders, one scalar at a time
    for (int i = 0; i < n; i++)
    {
        int const len = (int) (t.off[i + 1] - t.off[i]);
        uint8_t* b = vf_buf<uint8_t>(len); // exactly as large as the encoding
        __vf_assert_eq(to_utf8((char32_t) t.cp[i], b), len, "to_utf8: length");
        for (int k = 0; k < len; k++) __vf_assert_eq(b[k], (uint8_t) t.p[t.off[i] + k], "to_utf8: byte");
        char* e = vf_buf<char>(len);
        __vf_assert(encoder<char> {}((char32_t) t.cp[i], e) == e + len, "encoder<char>: length");
        if (!rep())
        {
            auto const one = to_utf8((char32_t) t.cp[i]), con = convert_to<char>((char32_t) t.cp[i]);
            __vf_assert_eq(one.size(), len, "to_utf8(codepoint): length"); __vf_assert_eq(con.size(), len, "convert_to<char>(codepoint): length");
            for (int k = 0; k < len; k++) { __vf_assert_eq((uint8_t) one[k], (uint8_t) t.p[t.off[i] + k], "to_utf8(codepoint): byte"); __vf_assert_eq((uint8_t) con[k], (uint8_t) t.p[t.off[i] + k], "convert_to<char>(codepoint): byte"); }
            auto const u = convert_to<char16_t>((char32_t) t.cp[i]);
            __vf_assert_eq(u.size(), len < 4 ? 1 : 2, "convert_to<char16_t>(codepoint): length");
            __vf_assert(len < 4 ? u[0] == t.cp[i] : (u[0] == 0xD800 + ((t.cp[i] - 0x10000) >> 10)) & (u[1] == 0xDC00 + ((t.cp[i] - 0x10000) & 0x3FF)), "convert_to<char16_t>(codepoint): unit");
            if (len < 4)
            {
                auto const back = convert_to<char32_t>((char16_t) t.cp[i]); auto const back8 = convert_to<char>((char16_t) t.cp[i]);
                __vf_assert_eq(back.size(), 1, "convert_to<char32_t>(UTF-16 unit): length"); __vf_assert_eq(back[0], t.cp[i], "convert_to<char32_t>(UTF-16 unit)");
                __vf_assert_eq(back8.size(), len, "convert_to<char>(UTF-16 unit): length");
            }
            if (len == 1)
            {
                auto const back = convert_to<char32_t>((char) t.cp[i]);
                __vf_assert_eq(back.size(), 1, "convert_to<char32_t>(byte): length"); __vf_assert_eq(back[0], t.cp[i], "convert_to<char32_t>(byte)");
            }
        }
        for (int k = 0; k < len; k++) __vf_assert_eq((uint8_t) e[k], (uint8_t) t.p[t.off[i] + k], "encoder<char>: byte");
    }
    // streaming decoders, state carried through the whole text
    utf8_decoder_state st, sti; decoder<char> dec; auto h = u8u32_stream_convert_create();
    for (int i = 0; i < n; i++)
        for (size_t k = t.off[i]; k < t.off[i + 1]; k++)
        {
            bool const last = k + 1 == t.off[i + 1];
            auto const r = from_utf8(st, (uint8_t) t.p[k]);
            __vf_assert_eq(from_utf8i(sti, (uint8_t) t.p[k]), last ? t.cp[i] : (uint32_t) -1, "from_utf8i");
            auto const d = dec((uint8_t) t.p[k]);
            u32_char_t o = 0x12345678; int const s = u8u32_stream_convert_run(h, t.p[k], &o);
            if (last)
            {
                __vf_assert(std::holds_alternative<Success>(r), "from_utf8: complete codepoint not reported");
                __vf_assert_eq(std::get<Success>(r).value, t.cp[i], "from_utf8: value");
                __vf_assert_eq(st.currentLength, t.off[i + 1] - t.off[i], "from_utf8: currentLength");
                __vf_assert(d.has_value(), "decoder<char>: complete codepoint not reported");
                __vf_assert_eq(*d, t.cp[i], "decoder<char>: value");
                __vf_assert_eq(s, 1, "u8u32_stream_convert_run: complete codepoint not reported");
                __vf_assert_eq(o, t.cp[i], "u8u32_stream_convert_run: value");
                __vf_out(o);
            }
            else
            {
                __vf_assert(std::holds_alternative<Incomplete>(r), "from_utf8: partial codepoint not Incomplete");
                __vf_assert(!d.has_value(), "decoder<char>: partial codepoint reported");
                __vf_assert(s == 0 && o == 0x12345678, "u8u32_stream_convert_run: partial codepoint reported");
            }
        }
    u8u32_stream_convert_destroy(&h);
    __vf_assert(h == nullptr, "u8u32_stream_convert_destroy");
    // one-shot decoders
    char const* it = t.p;
    for (int i = 0; i < n; i++)
    {
        size_t size = 99;
        auto const r = from_utf8(t.p + t.off[i], &size);
        __vf_assert(std::holds_alternative<Success>(r), "from_utf8(bytes, size): not Success");
        __vf_assert_eq(std::get<Success>(r).value, t.cp[i], "from_utf8(bytes, size): value");
        __vf_assert_eq(size, t.off[i + 1] - t.off[i], "from_utf8(bytes, size): size");
        auto const d = decoder<char> {}(it);
        __vf_assert(d.has_value(), "decoder<char>(iterator): no value");
        __vf_assert_eq(*d, t.cp[i], "decoder<char>(iterator): value");
        __vf_assert(it == t.p + t.off[i + 1], "decoder<char>(iterator): consumed bytes");
    }
}
static void strings(int n)
{
    sym_text t = text(n);
    string_view const u8(t.p, t.size);
    u32string_view const u32((char32_t const*) t.cp, (size_t) n);
    auto const eq32 = [&](std::u32string const& s, char const* m) {
        __vf_assert_eq(s.size(), (uint64_t) n, m);
        for (int i = 0; i < n; i++) __vf_assert_eq(s[(size_t) i], t.cp[i], m);
    };
    auto const eq8 = [&](std::string const& s, char const* m) {
        __vf_assert_eq(s.size(), t.size, m);
        for (size_t i = 0; i < t.size; i++) __vf_assert_eq((uint8_t) s[i], (uint8_t) t.p[i], m);
    };
    eq32(convert_to<char32_t>(u8), "convert_to<char32_t>(UTF-8)");
    eq32(from_utf8(u8), "from_utf8(string_view)");
    eq8(convert_to<char>(u32), "convert_to<char>(UTF-32)");
    eq8(to_utf8(u32), "to_utf8(u32string_view)"); eq8(to_utf8(std::u32string(u32)), "to_utf8(u32string)"); eq8(to_utf8(u32.data(), u32.size()), "to_utf8(codepoints, size)");
    auto const fw = from_utf8<wchar_t>(u8);
    __vf_assert_eq(fw.size(), (uint64_t) n, "from_utf8<wchar_t>");
    for (int i = 0; i < n; i++) __vf_assert_eq((uint32_t) fw[(size_t) i], t.cp[i], "from_utf8<wchar_t>");
    // UTF-16 reference
    size_t units = 0; char16_t* ref = vf_buf<char16_t>(2 * (size_t) n + 1);
    for (int i = 0; i < n; i++)
    {
        uint32_t const c = t.cp[i];
        if (t.off[i + 1] - t.off[i] < 4) ref[units++] = (char16_t) c;
        else { ref[units++] = (char16_t) (0xD800 + ((c - 0x10000) >> 10)); ref[units++] = (char16_t) (0xDC00 + ((c - 0x10000) & 0x3FF)); }
    }
    char16_t* exact = vf_buf<char16_t>(units);
    for (size_t i = 0; i < units; i++) exact[i] = ref[i];
    u16string_view const u16(exact, units);
    auto const eq16 = [&](std::u16string const& s, char const* m) {
        __vf_assert_eq(s.size(), units, m);
        for (size_t i = 0; i < units; i++) __vf_assert_eq(s[i], ref[i], m);
    };
    eq16(convert_to<char16_t>(u8), "convert_to<char16_t>(UTF-8)");
    eq16(convert_to<char16_t>(u32), "convert_to<char16_t>(UTF-32)");
    eq32(convert_to<char32_t>(u16), "convert_to<char32_t>(UTF-16)");
    eq8(convert_to<char>(u16), "convert_to<char>(UTF-16)");
    // the same encoding on both sides
    eq8(convert_to<char>(u8), "convert_to<char>(UTF-8)"); eq16(convert_to<char16_t>(u16), "convert_to<char16_t>(UTF-16)"); eq32(convert_to<char32_t>(u32), "convert_to<char32_t>(UTF-32)");
    auto const w = convert_to<wchar_t>(u8); // 32 bits wide here
    __vf_assert_eq(w.size(), (uint64_t) n, "convert_to<wchar_t>(UTF-8)");
    for (int i = 0; i < n; i++) __vf_assert_eq((uint32_t) w[(size_t) i], t.cp[i], "convert_to<wchar_t>(UTF-8)");
    eq8(convert_to<char>(std::wstring_view(w)), "convert_to<char>(wchar_t)");
    eq16(convert_to<char16_t>(std::wstring_view(w)), "convert_to<char16_t>(wchar_t)");
    for (size_t i = 0; i < units; i++) __vf_out(ref[i]);
}
static uint8_t any_byte() { return (uint8_t) __vf_sym(0, 255); }
static void arbitrary_bytes(int n)
{
    n += rep();
    static uint8_t const often[] = { 0x61, 0x80, 0xBF, 0xC3, 0xE4, 0xF0, 0xFF };
    uint8_t const xy[2] = { one_of(often), one_of(often) };
    char* p = vf_buf<char>((size_t) n); // exact size: reading past it is an error
    for (int i = 0; i < n; i++) p[i] = (char) (repeated(i) ? xy[i & 1] : any_byte());
    string_view const s(p, (size_t) n);
    auto const a = convert_to<char32_t>(s);
    __vf_assert(a.size() <= (size_t) n, "convert_to<char32_t>: more codepoints than bytes");
    std::u32string b; decoder<char> d;
    for (int i = 0; i < n; i++) if (auto const r = d((uint8_t) p[i])) b.push_back(*r);
    __vf_assert_eq(a.size(), b.size(), "convert_to<char32_t> differs from decoder<char>");
    for (size_t i = 0; i < a.size(); i++) { __vf_assert_eq(a[i], b[i], "convert_to<char32_t> differs from decoder<char>"); __vf_out(a[i]); }
    auto const c = convert_to<char16_t>(s);
    __vf_assert(c.size() <= (size_t) n, "convert_to<char16_t>: more units than bytes");
    std::u32string w; convert_to<char32_t>(s, std::back_inserter(w)); // the generic path
    __vf_assert_eq(w.size(), b.size(), "convert_to(OutputIterator) differs from decoder<char>");
    for (size_t i = 0; i < w.size(); i++) __vf_assert_eq(w[i], b[i], "convert_to(OutputIterator) differs from decoder<char>");
    auto const ws = convert_to<wchar_t>(s);
    __vf_assert_eq(ws.size(), b.size(), "convert_to<wchar_t> differs from decoder<char>");
}
// After any bytes, from_utf8 finds its feet at the next multi-byte codepoint, reporting at most one Invalid for what was open.
static void recovery(int n)
{
    utf8_decoder_state st;
    for (int i = 0; i < n; i++)
    {
        uint8_t const byte = any_byte();
        auto before = st; unsigned const asInt = from_utf8i(before, byte);
        auto const r = from_utf8(st, byte);
        __vf_assert_eq(asInt, std::holds_alternative<Success>(r) ? (uint32_t) std::get<Success>(r).value : std::holds_alternative<Invalid>(r) ? (uint32_t) -2 : (uint32_t) -1, "from_utf8i differs from from_utf8");
        bool const more = st.expectedLength != 0;
        __vf_assert(!more | ((st.currentLength < st.expectedLength) & (st.expectedLength <= 4) & (st.currentLength >= 1)), "decoder state out of range");
        if (std::holds_alternative<Success>(r)) __vf_assert(!more & (std::get<Success>(r).value <= 0x1FFFFF), "Success leaves the decoder inside a codepoint");
        if (std::holds_alternative<Incomplete>(r)) __vf_assert(more, "Incomplete although nothing is open");
    }
    bool const open = st.expectedLength != 0;
    int const len = (int) __vf_concretise(__vf_choose(2, 4));
    uint32_t const c = sym_scalar(len);
    char b[4]; utf8_put(b, c, len);
    for (int k = 0; k < len; k++)
    {
        auto const r = from_utf8(st, (uint8_t) b[k]);
        if (k == len - 1) { __vf_assert(std::holds_alternative<Success>(r), "no recovery at the next codepoint"); __vf_assert_eq(std::get<Success>(r).value, c, "codepoint behind malformed input decoded wrongly"); }
        else if (k == 0) __vf_assert(open ? std::holds_alternative<Invalid>(r) : std::holds_alternative<Incomplete>(r), "lead byte: open sequence not reported invalid exactly once");
        else __vf_assert(std::holds_alternative<Incomplete>(r), "continuation byte");
    }
}
static void arbitrary_utf16(int n)
{
    n += rep();
    static char16_t const often[] = { 0x61, 0x7FF, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000 };
    char16_t const xy[2] = { one_of(often), one_of(often) };
    char16_t* p = vf_buf<char16_t>((size_t) n);
    for (int i = 0; i < n; i++) p[i] = repeated(i) ? xy[i & 1] : (char16_t) __vf_sym(0, 0xFFFF);
    u16string_view const s(p, (size_t) n);
    auto const a = convert_to<char32_t>(s);
    __vf_assert(a.size() <= (size_t) n, "convert_to<char32_t>(UTF-16): more codepoints than units");
    for (size_t i = 0; i < a.size(); i++) { __vf_assert((a[i] < 0xD800) | ((a[i] > 0xDFFF) & (a[i] <= 0x10FFFF)), "convert_to<char32_t>(UTF-16): not a scalar value"); __vf_out(a[i]); }
    auto const b = convert_to<char>(s);
    __vf_assert(b.size() <= 3 * (size_t) n, "convert_to<char>(UTF-16): output too long");
}
static void arbitrary_utf32(int n)
{
    char32_t* p = vf_buf<char32_t>((size_t) n);
    for (int i = 0; i < n; i++) p[i] = vf_any32();
    u32string_view const s(p, (size_t) n);
    auto const a = convert_to<char16_t>(s);
    __vf_assert(a.size() <= 2 * (size_t) n, "convert_to<char16_t>(UTF-32): output too long");
    size_t want = 0;
    for (int i = 0; i < n; i++) want += p[i] < 0xD800 ? 1 : p[i] < 0xE000 ? 0 : p[i] < 0x10000 ? 1 : p[i] < 0x110000 ? 2 : 0;
    __vf_assert_eq(a.size(), want, "convert_to<char16_t>(UTF-32): ill-formed values must be dropped, others kept");
    auto const b = convert_to<char>(s);
    __vf_assert(b.size() <= 4 * (size_t) n && b.size() >= (size_t) n, "convert_to<char>(UTF-32): output length");
}
// u32u8_convert: writes the encoding if it fits, -1 otherwise, never behind dest+dlen
static void capi_convert(int n)
{
    sym_text t = text(n);
    size_t const cap = (size_t) __vf_concretise(rep() > 20 ? __vf_choose(t.size - 5, t.size + 2) : __vf_choose(0, t.size + 2));
    char* d = vf_buf<char>(cap);
    for (size_t i = 0; i < cap; i++) d[i] = '\xF9';
    int const r = u32u8_convert((u32_char_t const*) t.cp, (size_t) n, d, cap);
    if (t.size <= cap)
    {
        __vf_assert_eq((uint64_t) (int64_t) r, t.size, "u32u8_convert: fits, length");
        for (size_t i = 0; i < t.size; i++) __vf_assert_eq((uint8_t) d[i], (uint8_t) t.p[i], "u32u8_convert: byte");
        for (size_t i = t.size; i < cap; i++) __vf_assert_eq((uint8_t) d[i], 0xF9, "u32u8_convert: written behind the text");
    }
    else
    {
        __vf_assert_eq((uint64_t) (int64_t) r, (uint64_t) -1, "u32u8_convert: does not fit");
        size_t whole = 0; for (int i = 0; i < n; i++) if (t.off[i + 1] <= cap) whole = t.off[i + 1];
        for (size_t k = 0; k < whole; k++) __vf_assert_eq((uint8_t) d[k], (uint8_t) t.p[k], "u32u8_convert: converted prefix");
        for (size_t k = whole; k < cap; k++) __vf_assert_eq((uint8_t) d[k], 0xF9, "u32u8_convert: part of a codepoint written");
    }
    __vf_out((uint64_t) (int64_t) r);
}
// values that are no codepoints: nothing behind the capacity is written, whatever they are converted to
static void capi_convert_any(int n)
{
    u32_char_t* p = vf_buf<u32_char_t>((size_t) n);
    for (int i = 0; i < n; i++) p[i] = (u32_char_t) vf_any32();
    size_t const cap = (size_t) __vf_concretise(__vf_choose(0, 4 * (uint64_t) n + 1));
    char* d = vf_buf<char>(cap);
    int const r = u32u8_convert(p, (size_t) n, d, cap);
    __vf_assert((r == -1) | ((r >= 0) & ((size_t) r <= cap)), "u32u8_convert: result");
    __vf_out((uint64_t) (int64_t) r);
}
// Two streams fed in turns: each decodes its own bytes, output is written exactly when a codepoint is complete.
static void capi_stream(int n)
{
    struct ref { int need = 0, have = 0; uint32_t c = 0; } m[2];
    u8u32_stream_state_t h[2] = { u8u32_stream_convert_create(), u8u32_stream_convert_create() };
    for (int i = 0; i < n; i++)
    {
        int const k = i && n <= 3 ? (int) __vf_concretise(__vf_choose(0, 1)) : 0;
        uint8_t const b = any_byte(); ref& q = m[k];
        u32_char_t out = (u32_char_t) 0xABCDEF01;
        int const r = u8u32_stream_convert_run(h[k], (u8_char_t) b, &out);
        int done = 0;
        if (!q.need)
        {
            int const lead = __vf_concretise(b < 0x80) ? 1 : __vf_concretise((b & 0xE0) == 0xC0) ? 2 : __vf_concretise((b & 0xF0) == 0xE0) ? 3 : __vf_concretise((b & 0xF8) == 0xF0) ? 4 : 0;
            if (lead) { q.need = lead; q.have = 1; q.c = lead == 1 ? b : b & (0x7F >> lead); }
        }
        else { q.c = q.c << 6 | (b & 0x3F); q.have++; }
        if (q.need && q.have == q.need) { done = 1; q.need = 0; }
        __vf_assert_eq((uint64_t) r, (uint64_t) done, "u8u32_stream_convert_run: result");
        __vf_assert_eq((uint32_t) out, done ? q.c : 0xABCDEF01u, "u8u32_stream_convert_run: output");
        __vf_out((uint64_t) r);
    }
    u8u32_stream_convert_destroy(&h[0]); u8u32_stream_convert_destroy(&h[1]);
    __vf_assert((h[0] == nullptr) & (h[1] == nullptr), "u8u32_stream_convert_destroy leaves the handle");
}
extern "C" void vf_main()
{
    int const mode = (int) __vf_param(0), n = (int) __vf_param(1);
    switch (mode)
    {
        case 0: well_formed(n); break;
        case 1: strings(n); break;
        case 2: arbitrary_bytes(n); break;
        case 3: recovery(n); break;
        case 4: arbitrary_utf16(n); break;
        case 5: arbitrary_utf32(n); break;
        case 6: capi_convert(n); break;
        case 7: capi_convert_any(n); break;
        case 8: capi_stream(n); break;
    }
}
