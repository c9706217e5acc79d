// The C API as a C program uses it.  params: mode, n
// modes: 0 macros on every 32-bit value, 1 functions on codepoints, 2 functions on UTF-8
#include "utf.h"
#include "simd_pick.h"
#include "cuser.h"
#include <libunicode/convert.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/width.h>
#include <string>
using namespace unicode;
static void macros()
{
    uint32_t const a = (uint32_t) __vf_raw(32), b = (uint32_t) __vf_raw(32), v = a ^ b;
    __vf_assert_eq((uint64_t) c_valid(a, b), (v < 0xD800) | ((v > 0xDFFF) & (v < 0x110000)), "u32_is_valid_codepoint");
    __vf_assert_eq(c_bits(a, b), v >> 21, "u32_unused_bit_mask");
    __vf_assert_eq(c_capacity(), 22, "u32_unused_bit_capacity");
    __vf_assert_eq(c_cleared(a, b), v & 0x1FFFFF, "u32_unused_bit_cleared");
    for (unsigned i = 0; i <= 10; i++)
        for (unsigned j = 0; j <= i && j < 2; j++)
        {
            uint32_t const bit = 1u << 21 << i;
            __vf_assert_eq((uint64_t) c_get(a, b, i - j, j), __vf_ite((v & bit) != 0, 2, 0), "u32_unused_bit_get");
            __vf_assert_eq(c_on(a, b, i - j, j), v | bit, "u32_unused_bit_on");
            __vf_assert_eq(c_off(a, b, i - j, j), v & ~bit, "u32_unused_bit_off");
        }
    __vf_assert(c_limit(0) == 0 && c_limit(1) == 0x10FFFF && c_limit(2) == 0x1FFFFF, "limits of codepoints");
    __vf_out(v >> 21);
}
static void clusters(std::u32string_view s, int& count, int& whole, int& base)
{
    count = whole = base = 0; if (s.empty()) return;
    grapheme_segmenter seg(s);
    for (;;)
    {
        auto const c = *seg;
        count++; whole += (int) grapheme_cluster_width(c); base += (int) width(c.front());
        if (!seg.codepointsAvailable()) break;
        ++seg;
    }
}
static void codepoints(int n)
{
    char32_t* t = vf_buf<char32_t>((size_t) n); uint32_t const* p = (uint32_t const*) t;
    for (int i = 0; i < n; i++) t[i] = vf_cp();
    int count, whole, base; clusters(std::u32string_view(t, (size_t) n), count, whole, base);
    __vf_assert_eq((uint64_t) c_count32(p, (size_t) n), (uint64_t) count, "u32_gc_count from C");
    __vf_assert_eq((uint64_t) c_width32(p, (size_t) n, 1), (uint64_t) whole, "u32_gc_width from C, whole clusters");
    __vf_assert_eq((uint64_t) c_width32(p, (size_t) n, 0), (uint64_t) base, "u32_gc_width from C, base codepoints");
    if (n == 2) __vf_assert_eq((uint64_t) c_together(p[0], p[1]), (uint64_t) (count == 1), "u32_grapheme_unbreakable from C");
    __vf_out((uint64_t) whole);
}
static void bytes(int n)
{
    sym_text t = sym_utf8(n);
    int count, whole, base; clusters(std::u32string_view((char32_t const*) t.cp, (size_t) n), count, whole, base);
    __vf_assert_eq((uint64_t) c_count8(t.p, t.size), (uint64_t) count, "u8_gc_count from C");
    __vf_assert_eq((uint64_t) c_width8(t.p, t.size, 1), (uint64_t) whole, "u8_gc_width from C, whole clusters");
    __vf_assert_eq((uint64_t) c_width8(t.p, t.size, 0), (uint64_t) base, "u8_gc_width from C, base codepoints");
    char* d = vf_buf<char>(t.size); uint32_t* back = vf_buf<uint32_t>((size_t) n);
    __vf_assert_eq((uint64_t) c_encode(t.cp, (size_t) n, d, t.size), t.size, "u32u8_convert from C");
    for (size_t i = 0; i < t.size; i++) __vf_assert_eq((uint8_t) d[i], (uint8_t) t.p[i], "u32u8_convert from C: byte");
    __vf_assert_eq(c_decode(d, t.size, back), (uint64_t) n, "u8u32 stream from C");
    for (int i = 0; i < n; i++) __vf_assert_eq(back[i], t.cp[i], "u8u32 stream from C: codepoint");
    __vf_out((uint64_t) whole);
}
void vf_main()
{
    int const n = (int) __vf_param(1);
    switch (__vf_param(0)) { case 0: macros(); break; case 1: codepoints(n); break; case 2: bytes(n); break; }
}
