// Extended grapheme cluster segmentation against UAX #29.  params: mode, n, table of the codepoints (0: any), alternating codepoints behind the first
#include "ref_gb.h"
#include "utf.h"
#include "simd_pick.h"
#include <libunicode/capi.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/utf8_grapheme_segmenter.h>
using namespace unicode;
// Each mode computes brk[] the way the library reports it and compares position by position.
extern "C" void vf_main()
{
    int const mode = (int) __vf_param(0), set = (int) __vf_param(2), rep = (int) __vf_param(3);
    int n = (int) __vf_param(1);
    static char32_t const often[] = { 0x0A, 0x61, 0x301, 0x600, 0x903, 0x915, 0x94D, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x200B, 0x200D, 0x1F1E6, 0x1F3FB, 0x1F600, 0xE0061 };
    char32_t* const b = rep ? vf_long(n, set, rep, often) : vf_buf<char32_t>((size_t) n);
    bool* want = vf_buf<bool>(n + 1);
    for (int i = 0; i <= n; i++) want[i] = false;
    if (mode == 0 || mode == 1 || mode == 3)
    {
        if (!rep) for (int i = 0; i < n; i++) b[i] = vf_pick(set);
        refgb::boundaries(0, b, n, want);
        if (mode == 0)
        {   // stateful functions, state kept across clusters
            grapheme_segmenter_state st;
            grapheme_process_init(b[0], st);
            for (int i = 1; i < n; i++)
            {
                bool const brk = grapheme_process_breakable(b[i], st);
                __vf_assert_eq(brk, want[i], "grapheme_process_breakable differs from UAX #29");
                __vf_out(brk);
            }
        }
        else if (mode == 1)
        {   // grapheme_segmenter: tiles the text, each cluster ends exactly at the boundaries
            grapheme_segmenter s { std::u32string_view(b, (size_t) n) };
            size_t pos = 0;
            for (int k = 0; k <= n; k++)
            {
                auto const v = *s;
                __vf_assert(v.data() == b + pos, "grapheme_segmenter: cluster does not start where the previous one ended");
                __vf_assert(v.size() >= 1 && v.size() <= (size_t) n - pos, "grapheme_segmenter: cluster is empty or leaves the text");
                for (size_t i = pos + 1; i < pos + v.size(); i++) __vf_assert(!want[i], "grapheme_segmenter: missing boundary");
                pos += v.size();
                __vf_out(v.size());
                if (pos == (size_t) n) { __vf_assert(!s.codepointsAvailable(), "grapheme_segmenter: text left behind its end"); return; }
                __vf_assert(want[pos], "grapheme_segmenter: extra boundary");
                __vf_assert(s.codepointsAvailable(), "grapheme_segmenter: text lost");
                ++s;
            }
            __vf_assert(false, "grapheme_segmenter: does not terminate");
        }
        else
        {   // C API
            uint64_t clusters = n ? 1 : 0;
            for (int i = 1; i < n; i++) clusters += want[i];
            __vf_assert_eq((uint64_t) u32_gc_count((u32_char_t const*) b, (size_t) n), clusters, "u32_gc_count");
            if (n == 2) __vf_assert_eq(u32_grapheme_unbreakable(b[0], b[1]) != 0, !want[1], "u32_grapheme_unbreakable");
        }
    }
    else if (mode == 2)
    {   // utf8_grapheme_segmenter on well-formed UTF-8
        sym_text t = rep ? vf_encode(n, b) : vf_utf8(n, set);
        refgb::boundaries(0, (char32_t const*) t.cp, n, want);
        utf8_grapheme_segmenter s { std::string_view(t.p, t.size) };
        auto it = s.begin(), end = s.end();
        size_t pos = 0;
        for (int k = 0; k <= n; k++)
        {
            if (it == end) { __vf_assert_eq(pos, (uint64_t) n, "utf8_grapheme_segmenter: text lost"); return; }
            auto const& v = *it;
            __vf_assert(v.size() >= 1 && v.size() <= (size_t) n - pos, "utf8_grapheme_segmenter: cluster is empty or leaves the text");
            // iterators are equal when they stand at the same cluster
            __vf_assert(it == utf8_grapheme_segmenter::iterator(t.p + t.off[pos], t.p + t.size), "utf8_grapheme_segmenter: cluster start");
            if (pos) __vf_assert(it != s.begin(), "utf8_grapheme_segmenter: at the first cluster again");
            for (size_t i = 0; i < v.size(); i++)
            {
                __vf_assert_eq(v[i], t.cp[pos + i], "utf8_grapheme_segmenter: codepoint changed");
                if (i) __vf_assert(!want[pos + i], "utf8_grapheme_segmenter: missing boundary");
            }
            pos += v.size();
            __vf_out(v.size());
            if (pos < (size_t) n) __vf_assert(want[pos], "utf8_grapheme_segmenter: extra boundary");
            if (k & 1) ++it;
            else
            {   // the old position stays what it was
                auto const size = v.size(); auto const first = v[0];
                auto const old = it++;
                __vf_assert(old != it && old.value().size() == size && old.value()[0] == first, "utf8_grapheme_segmenter: post-increment");
            }
        }
        __vf_assert(it == end, "utf8_grapheme_segmenter: does not terminate");
    }
    else if (mode == 4)
    {   // u8_gc_count on well-formed UTF-8
        sym_text t = rep ? vf_encode(n, b) : vf_utf8(n, set);
        refgb::boundaries(0, (char32_t const*) t.cp, n, want);
        uint64_t clusters = n ? 1 : 0;
        for (int i = 1; i < n; i++) clusters += want[i];
        __vf_assert_eq((uint64_t) u8_gc_count(t.p, t.size), clusters, "u8_gc_count");
    }
    else if (mode == 6)
    {   // a state that has already been used: init on it starts afresh (state after any other text of 3 codepoints)
        char32_t x[3]; for (auto& v: x) v = vf_cp();
        for (int i = 0; i < n; i++) b[i] = vf_cp();
        refgb::boundaries(0, b, n, want);
        grapheme_segmenter_state st;
        grapheme_process_init(x[0], st); grapheme_process_breakable(x[1], st); grapheme_process_breakable(x[2], st);
        grapheme_process_init(b[0], st);
        for (int i = 1; i < n; i++) __vf_assert_eq(grapheme_process_breakable(b[i], st), want[i], "grapheme_process_init on a used state");
    }
    else if (mode == 5)
    {   // values beyond Unicode too: memory-safe, terminates, tiles
        for (int i = 0; i < n; i++) b[i] = vf_any32();
        int const c = u32_gc_count((u32_char_t const*) b, (size_t) n);
        __vf_assert(c >= (n ? 1 : 0) && c <= n, "u32_gc_count out of range");
        grapheme_segmenter s { std::u32string_view(b, (size_t) n) };
        size_t pos = (*s).size();
        while (s.codepointsAvailable()) { ++s; __vf_assert((*s).data() == b + pos && (*s).size() >= 1, "grapheme_segmenter tiling"); pos += (*s).size(); }
        __vf_assert_eq(pos, (uint64_t) n, "grapheme_segmenter tiling");
    }
}
