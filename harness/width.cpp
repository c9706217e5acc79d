// Display widths.  params: mode, n, table of the codepoints (0: any), alternating codepoints behind the first      tables: gcb, w
#include "ref_gb.h"
#include "ref_width.h"
#include "utf.h"
#include "simd_pick.h"
#include <libunicode/capi.h>
#include <libunicode/width.h>
using namespace unicode;
extern "C" void vf_main()
{
    int const mode = (int) __vf_param(0), set = (int) __vf_param(2), rep = (int) __vf_param(3);
    int n = (int) __vf_param(1);
    static char32_t const often[] = { 0x61, 0xA9, 0xAD, 0x301, 0x903, 0x915, 0x94D, 0x200D, 0x4E00, 0xFE0E, 0xFE0F, 0x1F1E6, 0x1F3FB, 0x1F600 };
    char32_t* const b = rep ? vf_long(n, set, rep, often) : vf_buf<char32_t>((size_t) n);
    if (mode == 0)
    {
        char32_t const c = vf_cp();
        __vf_assert_eq(width(c), refw::look(1, c).w, "width(codepoint)");
        char32_t const d = c;
        __vf_assert_eq(grapheme_cluster_width(std::u32string_view(&d, 1)), refw::look(1, c).w, "grapheme_cluster_width(one codepoint)");
        __vf_out(width(c));
    }
    else if (mode == 4)
    {
        char32_t const c = vf_any32();
        __vf_assert(width(c) <= 2, "width out of range");
    }
    else if (mode == 1)
    {   // incremental and one-shot measurement of n codepoints
        if (!rep) for (int i = 0; i < n; i++) b[i] = vf_pick(set);
        grapheme_cluster_width_accumulator a; refw::meter m;
        for (int i = 0; i < n; i++)
        {
            a.push(b[i]); m.push(1, b[i]);
            __vf_assert_eq(a.width(), (uint32_t) m.width(), "grapheme_cluster_width_accumulator");
        }
        __vf_assert_eq(grapheme_cluster_width(std::u32string_view(b, (size_t) n)), (uint32_t) m.width(), "grapheme_cluster_width(u32)");
        a.reset();
        __vf_assert_eq(a.width(), 0, "grapheme_cluster_width_accumulator::reset");
        if (n) { a.push(b[0]); __vf_assert_eq(a.width(), refw::look(1, b[0]).w, "grapheme_cluster_width_accumulator after reset"); }
        __vf_out((uint32_t) m.width());
    }
    else if (mode == 5)
    {   // incremental measurement alone (longer)
        grapheme_cluster_width_accumulator a; refw::meter m;
        for (int i = 0; i < n; i++) { char32_t const c = rep ? b[i] : vf_cp(); a.push(c); m.push(1, c); }
        __vf_assert_eq(a.width(), (uint32_t) m.width(), "grapheme_cluster_width_accumulator");
        __vf_out((uint32_t) m.width());
    }
    else if (mode == 2)
    {
        bool* brk = vf_buf<bool>(n + 1); for (int i = 0; i <= n; i++) brk[i] = false;
        if (!rep) for (int i = 0; i < n; i++) b[i] = vf_pick(set);
        refgb::boundaries(0, b, n, brk);
        __vf_assert_eq((uint32_t) u32_gc_width((u32_char_t const*) b, (size_t) n, GC_WIDTH_MODE_MODIFIABLE), refw::text(1, b, n, brk, false), "u32_gc_width, whole clusters");
        __vf_assert_eq((uint32_t) u32_gc_width((u32_char_t const*) b, (size_t) n, GC_WIDTH_MODE_NON_MODIFIABLE), refw::text(1, b, n, brk, true), "u32_gc_width, base codepoints");
    }
    else if (mode == 3)
    {
        sym_text t = rep ? vf_encode(n, b) : vf_utf8(n, set);
        bool* brk = vf_buf<bool>(n + 1); for (int i = 0; i <= n; i++) brk[i] = false;
        refgb::boundaries(0, (char32_t const*) t.cp, n, brk);
        uint32_t const w = refw::text(1, (char32_t const*) t.cp, n, brk, false);
        __vf_assert_eq(grapheme_cluster_width(std::string_view(t.p, t.size)), w, "grapheme_cluster_width(UTF-8)");
        __vf_assert_eq((uint32_t) u8_gc_width(t.p, t.size, GC_WIDTH_MODE_MODIFIABLE), w, "u8_gc_width, whole clusters");
        __vf_assert_eq((uint32_t) u8_gc_width(t.p, t.size, GC_WIDTH_MODE_NON_MODIFIABLE), refw::text(1, (char32_t const*) t.cp, n, brk, true), "u8_gc_width, base codepoints");
        __vf_out(w);
    }
}
