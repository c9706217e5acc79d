// Reference for UAX #29 word boundaries, written from the rules alone (tables: WordBreakProperty.txt, emoji-data.txt).
#pragma once
#include "vf.h"
namespace refwb
{
enum { Other, CR, LF, Newline, Extend, ZWJ, Format, RI, Katakana, Hebrew, ALetter, SQ, DQ, MidNumLet, MidLetter, MidNum, Numeric, ExtendNumLet, WSegSpace };
static inline bool ah(uint32_t g) { return (g == ALetter) | (g == Hebrew); }
static inline bool midq(uint32_t g) { return (g == MidNumLet) | (g == SQ); }
static inline bool nl(uint32_t g) { return (g == CR) | (g == LF) | (g == Newline); }
static inline bool skip(uint32_t g) { return (g == Extend) | (g == ZWJ) | (g == Format); }
static inline void boundaries(int tab, char32_t const* s, int n, bool* brk)
{
    uint32_t* g = vf_buf<uint32_t>(n + 1); uint32_t* nx = vf_buf<uint32_t>(n + 1); bool* ep = vf_buf<bool>(n + 1);
    for (int i = 0; i < n; i++) { uint32_t const r = __vf_ref(tab, s[i]); g[i] = r & 0xFF; ep[i] = (r >> 16) & 1; }
    uint32_t after = 0xFF; // class of the next codepoint that WB4 does not skip
    for (int i = n - 1; i >= 0; i--) { nx[i] = after; after = (uint32_t) __vf_ite(skip(g[i]), after, g[i]); }
    uint32_t A = 0xFF, AA = 0xFF; bool odd = false;
    for (int i = 0; i < n; i++)
    {
        uint32_t const B = g[i], p = i ? g[i - 1] : 0xFF;
        bool const cutA = (i == 0) | nl(p);
        if (i)
        {
            bool const wb3 = (p == CR) & (B == LF);
            bool const wb3c = (p == ZWJ) & ep[i];
            bool const wb3d = (p == WSegSpace) & (B == WSegSpace);
            bool const wb5 = ah(A) & ah(B);
            bool const wb6 = ah(A) & ((B == MidLetter) | midq(B)) & ah(nx[i]);
            bool const wb7 = ah(AA) & ((A == MidLetter) | midq(A)) & ah(B);
            bool const wb7a = (A == Hebrew) & (B == SQ);
            bool const wb7b = (A == Hebrew) & (B == DQ) & (nx[i] == Hebrew);
            bool const wb7c = (AA == Hebrew) & (A == DQ) & (B == Hebrew);
            bool const wb8 = (A == Numeric) & (B == Numeric);
            bool const wb9 = ah(A) & (B == Numeric);
            bool const wb10 = (A == Numeric) & ah(B);
            bool const wb11 = (AA == Numeric) & ((A == MidNum) | midq(A)) & (B == Numeric);
            bool const wb12 = (A == Numeric) & ((B == MidNum) | midq(B)) & (nx[i] == Numeric);
            bool const wb13 = (A == Katakana) & (B == Katakana);
            bool const wb13a = (ah(A) | (A == Numeric) | (A == Katakana) | (A == ExtendNumLet)) & (B == ExtendNumLet);
            bool const wb13b = (A == ExtendNumLet) & (ah(B) | (B == Numeric) | (B == Katakana));
            bool const wb15 = odd & (A == RI) & (B == RI);
            bool const join = wb3 | (!cutA & !nl(B) & (wb3c | wb3d | skip(B) | wb5 | wb6 | wb7 | wb7a | wb7b | wb7c | wb8 | wb9 | wb10 | wb11 | wb12 | wb13 | wb13a | wb13b | wb15));
            brk[i] = !join;
        }
        bool const ignored = skip(B) & !cutA; // WB4
        uint32_t const eff = (uint32_t) __vf_ite(skip(B), Other, B);
        AA = (uint32_t) __vf_ite(ignored, AA, A);
        odd = (ignored & odd) | (!ignored & (B == RI) & !odd);
        A = (uint32_t) __vf_ite(ignored, A, eff);
    }
}
} // namespace refwb
