// UTF-8 encoder of the harnesses (independent of the library) and symbolic well-formed text.
#pragma once
#include "vf.h"
static inline int utf8_len(uint32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
static inline void utf8_put(char* p, uint32_t c, int len)
{
    if (len == 1) { p[0] = (char) c; }
    else if (len == 2) { p[0] = (char) (0xC0 | (c >> 6)); p[1] = (char) (0x80 | (c & 63)); }
    else if (len == 3) { p[0] = (char) (0xE0 | (c >> 12)); p[1] = (char) (0x80 | ((c >> 6) & 63)); p[2] = (char) (0x80 | (c & 63)); }
    else { p[0] = (char) (0xF0 | (c >> 18)); p[1] = (char) (0x80 | ((c >> 12) & 63)); p[2] = (char) (0x80 | ((c >> 6) & 63)); p[3] = (char) (0x80 | (c & 63)); }
}
// A symbolic scalar value whose UTF-8 form has the given length (the length is concrete on a path).
static inline uint32_t sym_scalar(int len)
{
    static const uint32_t lo[5] = { 0, 0, 0x80, 0x800, 0x10000 }, hi[5] = { 0, 0x7F, 0x7FF, 0xFFFF, 0x10FFFF };
    uint32_t c = (uint32_t) __vf_sym(lo[len], hi[len]);
    if (len == 3) __vf_assume((c < 0xD800) | (c > 0xDFFF));
    return c;
}
// n symbolic scalars, UTF-8 encoded into an exactly sized buffer: every combination of lengths is a path.
struct sym_text { char* p; size_t size; uint32_t* cp; size_t* off; int n; };
static inline sym_text sym_utf8(int n, int minlen = 1, int maxlen = 4)
{
    sym_text t; t.n = n; t.size = 0;
    t.cp = vf_buf<uint32_t>(n + 1); t.off = vf_buf<size_t>(n + 1);
    int* len = vf_buf<int>(n + 1);
    for (int i = 0; i < n; i++) { len[i] = (int) __vf_concretise(__vf_choose(minlen, maxlen)); t.off[i] = t.size; t.size += len[i]; t.cp[i] = sym_scalar(len[i]); }
    t.off[n] = t.size;
    t.p = vf_buf<char>(t.size);
    for (int i = 0; i < n; i++) utf8_put(t.p + t.off[i], t.cp[i], len[i]);
    return t;
}
// A codepoint out of a table that starts with its own length (table 0: any codepoint).
static inline char32_t vf_pick(int table) { return table ? (char32_t) __vf_ref(table, __vf_sym(1, __vf_ref(table, 0))) : vf_cp(); }
// n picked codepoints; k != 0: with k or k + 1 codepoints x y x y ... of the list behind the first of them. n becomes the length.
template <size_t N> static inline char32_t* vf_long(int& n, int table, int k, char32_t const (&list)[N])
{
    int const m = k ? k + (int) __vf_concretise(__vf_choose(0, 1)) : 0;
    char32_t const x = k ? list[__vf_concretise(__vf_sym(0, N - 1))] : 0, y = k ? list[__vf_concretise(__vf_sym(0, N - 1))] : 0;
    char32_t* const b = vf_buf<char32_t>((size_t) (n + m));
    for (int i = 0; i < n + m; i++) b[i] = m && i > 0 && i <= m ? (i & 1 ? x : y) : vf_pick(table);
    n += m;
    return b;
}
// UTF-8 text of n such scalars (table 0: any)
static inline sym_text vf_encode(int n, char32_t const* from)
{
    sym_text t; t.n = n; t.size = 0;
    t.cp = vf_buf<uint32_t>(n + 1); t.off = vf_buf<size_t>(n + 1);
    for (int i = 0; i < n; i++) { uint32_t const c = t.cp[i] = (uint32_t) from[i]; t.off[i] = t.size; t.size += (size_t) __vf_concretise((uint64_t) (c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4)); }
    t.off[n] = t.size;
    t.p = vf_buf<char>(t.size);
    for (int i = 0; i < n; i++) utf8_put(t.p + t.off[i], t.cp[i], (int) (t.off[i + 1] - t.off[i]));
    return t;
}
static inline sym_text vf_utf8(int n, int table)
{
    if (!table) return sym_utf8(n);
    char32_t* const b = vf_buf<char32_t>((size_t) n);
    for (int i = 0; i < n; i++) b[i] = vf_pick(table);
    return vf_encode(n, b);
}
// 32-bit values on both sides of the Unicode range: 0..0x7FFFFF and 0xFF800000..0xFFFFFFFF
static inline char32_t vf_any32() { uint32_t v = (uint32_t) __vf_sym(0, 0x7FFFFF); return (char32_t) (__vf_concretise(__vf_choose(0, 1)) ? v : v + 0xFF800000u); }
