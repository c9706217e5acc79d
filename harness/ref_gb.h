// Reference for UAX #29 extended grapheme cluster boundaries, written from the rules alone
// (tables: GraphemeBreakProperty.txt, emoji-data.txt, DerivedCoreProperties.txt InCB).
// Branch-free, so that one symbolic run covers every sequence.
#pragma once
#include "vf.h"
namespace refgb
{
enum { Other, CR, LF, Control, Extend, ZWJ, RI, Prepend, SpacingMark, L, V, T, LV, LVT };
// brk[i] (0 < i < n): a boundary lies between s[i-1] and s[i]. tab: index of the "gcb" reference table.
static inline void boundaries(int tab, char32_t const* s, int n, bool* brk)
{
    bool e = false;        // s[..i-1] ends in ExtPict Extend*
    bool ez = false;       // s[..i-1] ends in ExtPict Extend* ZWJ
    bool riOdd = false;    // s[..i-1] ends in an odd number of RI
    bool c1 = false;       // s[..i-1] ends in Consonant [Extend Linker]*  without a linker
    bool c2 = false;       // ... with at least one linker
    uint32_t pg = 0;
    for (int i = 0; i < n; i++)
    {
        uint32_t const r = __vf_ref(tab, s[i]);
        uint32_t const g = r & 0xFF;
        uint32_t const incb = (r >> 8) & 0xFF; // 1 consonant, 2 extend, 3 linker
        bool const ep = (r >> 16) & 1;
        if (i)
        {
            bool const ctlA = (pg == CR) | (pg == LF) | (pg == Control);
            bool const ctlB = (g == CR) | (g == LF) | (g == Control);
            bool const gb3 = (pg == CR) & (g == LF);
            bool const gb6 = (pg == L) & ((g == L) | (g == V) | (g == LV) | (g == LVT));
            bool const gb7 = ((pg == LV) | (pg == V)) & ((g == V) | (g == T));
            bool const gb8 = ((pg == LVT) | (pg == T)) & (g == T);
            bool const gb9 = (g == Extend) | (g == ZWJ) | (g == SpacingMark);
            bool const gb9b = (pg == Prepend);
            bool const gb9c = c2 & (incb == 1);
            bool const gb11 = ez & ep;
            bool const gb12 = riOdd & (g == RI);
            bool const join = gb3 | (!ctlA & !ctlB & (gb6 | gb7 | gb8 | gb9 | gb9b | gb9c | gb11 | gb12));
            brk[i] = !join;
        }
        bool const ne = ep | (e & (g == Extend));
        ez = e & (g == ZWJ);
        e = ne;
        riOdd = (g == RI) & !riOdd;
        bool const n2 = (c1 & (incb == 3)) | (c2 & ((incb == 2) | (incb == 3)));
        bool const n1 = (incb == 1) | (c1 & (incb == 2));
        c1 = n1; c2 = n2;
        pg = g;
    }
}
} // namespace refgb
