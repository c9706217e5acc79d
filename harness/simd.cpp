// Vectorised code against its scalar meaning.  params: mode, width, lo, hi, [4] scan: limit near the length (mode 3: any limit); conversion: scalars beyond the first
#include "utf.h"
#include <libunicode/convert.h>
#include <libunicode/convert_simd_impl.h>
#include <libunicode/scan_simd_impl.h>
#include <libunicode/scan.h>
using namespace unicode;
static size_t to32(int w, char const* p, size_t n, char32_t* o)
{
    return w == 512 ? detail::convert_utf8_to_utf32_512(p, n, o) : w == 256 ? detail::convert_utf8_to_utf32_256(p, n, o) : detail::convert_utf8_to_utf32_simd<128>(p, n, o);
}
static size_t to16(int w, char const* p, size_t n, char16_t* o)
{
    return w == 512 ? detail::convert_utf8_to_utf16_512(p, n, o) : w == 256 ? detail::convert_utf8_to_utf16_256(p, n, o) : detail::convert_utf8_to_utf16_simd<128>(p, n, o);
}
static size_t ascii(int w, std::string_view t, size_t m)
{
    return w == 512 ? detail::scan_for_text_ascii_512(t, m) : w == 256 ? detail::scan_for_text_ascii_256(t, m) : detail::scan_for_text_ascii_simd<128>(t, m);
}
// symbolic ASCII with up to 'many' symbolic scalars of 2 to 4 bytes in it
static void convert(int w, int lo, int hi, bool wide, int many)
{
    size_t const total = (size_t) __vf_concretise(__vf_choose((uint64_t) lo, (uint64_t) hi));
    size_t at[3] = {}; int len[3] = {}; uint32_t c[3] = {}; int n = 0; size_t units = total;
    for (size_t from = 0; n < many; n++)
    {
        at[n] = (size_t) __vf_concretise(__vf_choose(from, total));
        if (at[n] == total) break;
        len[n] = (int) __vf_concretise(__vf_choose(2, 4));
        if (at[n] + (size_t) len[n] > total) return;
        from = at[n] + (size_t) len[n];
        units -= (size_t) len[n] - 1 - (!wide && len[n] == 4);
    }
    char* p = vf_buf<char>(total);
    int k = 0;
    for (size_t i = 0; i < total;)
        if (k < n && i == at[k]) { c[k] = sym_scalar(len[k]); utf8_put(p + i, c[k], len[k]); i += (size_t) len[k]; k++; }
        else p[i++] = (char) __vf_sym(0, 0x7F);
    // the buffer convert_to() provides: one element per byte
    if (wide)
    {
        char32_t* o = vf_buf<char32_t>(total);
        __vf_assert_eq(to32(w, p, total, o), units, "UTF-8 to UTF-32: count");
        k = 0;
        for (size_t i = 0, q = 0; i < total; q++)
            if (k < n && i == at[k]) { __vf_assert_eq(o[q], c[k], "UTF-8 to UTF-32: codepoint"); i += (size_t) len[k]; k++; }
            else { __vf_assert_eq(o[q], (uint8_t) p[i], "UTF-8 to UTF-32: ASCII"); i++; }
    }
    else
    {
        char16_t* o = vf_buf<char16_t>(total);
        __vf_assert_eq(to16(w, p, total, o), units, "UTF-8 to UTF-16: count");
        k = 0;
        for (size_t i = 0, q = 0; i < total; q++)
            if (k < n && i == at[k])
            {
                if (len[k] < 4) __vf_assert_eq(o[q], c[k], "UTF-8 to UTF-16: unit");
                else { __vf_assert_eq(o[q], (char16_t) (0xD800 + ((c[k] - 0x10000) >> 10)), "UTF-8 to UTF-16: high surrogate"); q++; __vf_assert_eq(o[q], (char16_t) (0xDC00 + ((c[k] - 0x10000) & 0x3FF)), "UTF-8 to UTF-16: low surrogate"); }
                i += (size_t) len[k]; k++;
            }
            else { __vf_assert_eq(o[q], (uint8_t) p[i], "UTF-8 to UTF-16: ASCII"); i++; }
    }
}
// every byte arbitrary: the scan returns the length of the longest text prefix within the limit
static void scan(int w, int lo, int hi, bool one)
{   // one: text but for one arbitrary byte
    size_t const n = (size_t) __vf_concretise(__vf_choose((uint64_t) lo, (uint64_t) hi));
    size_t const limit = (size_t) __vf_param(4) ? (size_t) __vf_concretise(__vf_choose(n > 3 && !one ? n - 3 : 0, n + 1)) : n + 1;
    char* p = vf_buf<char>(n);
    size_t const at = one ? (size_t) __vf_concretise(__vf_choose(0, n)) : n;
    for (size_t i = 0; i < n; i++) p[i] = (char) (one && i != at ? __vf_sym(0x20, 0x7F) : __vf_sym(0, 255));
    size_t want = 0, run = 1;
    for (size_t i = 0; i < n && i < limit; i++) { run &= (size_t) (((uint8_t) p[i] >= 0x20) & ((uint8_t) p[i] < 0x80)); want += run; }
    size_t const got = ascii(w, std::string_view(p, n), limit);
    __vf_assert_eq(got, want, "ASCII scan: length");
    __vf_out(got);
}
extern "C" void vf_main()
{
    int const mode = (int) __vf_param(0), w = (int) __vf_param(1), lo = (int) __vf_param(2), hi = (int) __vf_param(3);
    if (mode == 0) convert(w, lo, hi, true, 1 + (int) __vf_param(4));
    else if (mode == 1) convert(w, lo, hi, false, 1 + (int) __vf_param(4));
    else scan(w, lo, hi, mode == 3);
}
