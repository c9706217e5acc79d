// Word segmentation against UAX #29.  params: mode, n, table of the codepoints (0: any), alternating codepoints behind the first
#include "ref_wb.h"
#include "utf.h"
#include "simd_pick.h"
#include <libunicode/word_segmenter.h>
using namespace unicode;
extern "C" void vf_main()
{
    int const mode = (int) __vf_param(0), set = (int) __vf_param(2), rep = (int) __vf_param(3);
    int n = (int) __vf_param(1);
    static char32_t const often[] = { 0x0A, 0x20, 0x22, 0x27, 0x2C, 0x31, 0x3A, 0x5F, 0x61, 0xAD, 0x301, 0x5D0, 0x200D, 0x30A2, 0x1F1E6, 0x1F600 };
    char32_t* const b = rep ? vf_long(n, set, rep, often) : vf_buf<char32_t>((size_t) n);
    bool* want = vf_buf<bool>(n + 1);
    for (int i = 0; i <= n; i++) want[i] = false;
    if (!rep) for (int i = 0; i < n; i++) b[i] = mode == 2 ? ((char32_t) __vf_concretise(__vf_choose(0, 1)) ? (char32_t) __vf_sym(0, 0x7FFFFF) : (char32_t) (__vf_sym(0, 0x7FFFFF) + 0xFF800000u)) : vf_pick(set);
    if (mode != 2) refwb::boundaries(0, b, n, want);
    if (mode == 0)
    {   // incremental functions; mode 0 keeps the state, as the state machine is documented
        word_segmenter_state st;
        word_process_init(b[0], st);
        for (int i = 1; i < n; i++)
        {
            bool const brk = word_process_breakable(b[i], b + i + 1, (size_t) (n - i - 1), st);
            __vf_assert_eq(brk, want[i], "word_process_breakable differs from UAX #29");
            __vf_out(brk);
        }
        return;
    }
    if (mode == 3)
    {   // a state that has already been used: init on it starts afresh (state after any other text of 3 codepoints)
        char32_t x[3]; for (auto& v: x) v = vf_cp();
        word_segmenter_state st;
        word_process_init(x[0], st);
        word_process_breakable(x[1], x + 2, 1, st); word_process_breakable(x[2], x + 3, 0, st);
        word_process_init(b[0], st);
        for (int i = 1; i < n; i++) __vf_assert_eq(word_process_breakable(b[i], b + i + 1, (size_t) (n - i - 1), st), want[i], "word_process_init on a used state");
        return;
    }
    word_segmenter s { std::u32string_view(b, (size_t) n) };
    if (n == 0) { __vf_assert(s.empty() && !s.codepointsAvailable(), "word_segmenter: empty text"); return; }
    size_t pos = 0;
    for (int k = 0; k <= n; k++)
    {
        auto const v = *s;
        __vf_assert(v.data() == b + pos, "word_segmenter: word does not start where the previous one ended");
        __vf_assert(v.size() >= 1 && v.size() <= (size_t) n - pos && v.size() == s.size(), "word_segmenter: word is empty or leaves the text");
        if (mode == 1) for (size_t i = pos + 1; i < pos + v.size(); i++) __vf_assert(!want[i], "word_segmenter: missing boundary");
        pos += v.size();
        __vf_out(v.size());
        if (pos == (size_t) n) { __vf_assert(!s.codepointsAvailable() && !s, "word_segmenter: text left behind its end"); return; }
        if (mode == 1) __vf_assert(want[pos], "word_segmenter: extra boundary");
        __vf_assert(s.codepointsAvailable(), "word_segmenter: text lost");
        ++s;
    }
    __vf_assert(false, "word_segmenter: does not terminate");
}
