// Reference for the display width of grapheme clusters: wcwidth's rules as width.h documents them, on the table
// "w" computed from the UCD files. Branch-free.
#pragma once
#include "vf.h"
namespace refw
{
static inline uint64_t ite(bool c, uint64_t a, uint64_t b) { return __vf_ite(c, a, b); }
struct info { uint32_t w; bool zwjset, ri, virama, mc, varbase; };
static inline info look(int tab, uint32_t c)
{
    uint32_t const r = __vf_ref(tab, c);
    return { r & 3, (r >> 8 & 1) != 0, (r >> 9 & 1) != 0, (r >> 10 & 1) != 0, (r >> 11 & 1) != 0, (r >> 12 & 1) != 0 };
}
struct meter
{
    int total = 0, cur = 0;       // closed and open columns
    bool lastSet = false;         // emoji or regional indicator measured last (modifiers are absorbed by it)
    bool lastVar = false;         // ... has an emoji variation sequence
    bool lastNarrow = false;      // ... is one column wide itself
    int lastW = 0;                // its recorded width
    bool open = false;            // may still be re-presented by VS15, VS16 or a spacing mark
    bool virama = false, swallow = false, riOdd = false;
    void push(int tab, uint32_t c)
    {
        info const p = look(tab, c);
        bool const second = p.ri & riOdd;
        riOdd = p.ri & !riOdd;
        bool const a1 = swallow;                                  // eaten by the joiner before it
        bool const zwj = !a1 & (c == 0x200D);
        bool const vs16 = !a1 & (c == 0xFE0F) & open;
        bool const vs15 = !a1 & (c == 0xFE0E) & open;
        bool const flag2 = !a1 & second;
        bool const tone = !a1 & (c >= 0x1F3FB) & (c <= 0x1F3FF) & lastSet;
        bool const rest = !(a1 | zwj | vs16 | vs15 | flag2 | tone);
        bool const measured = rest & (p.w != 0);
        bool const vir = rest & (p.w == 0) & p.virama;
        bool const mc = rest & (p.w == 0) & !p.virama & p.mc & open;
        bool const join = zwj & !virama;
        // columns
        total = (int) ite(vs15 & lastVar & (lastW == 2), (uint32_t) (total - 1), (uint32_t) ite(measured & !virama, (uint32_t) (total + cur), (uint32_t) total));
        int const w = (int) p.w;
        cur = (int) ite(vs16 & lastVar & lastNarrow, 2, ite(mc, 2, ite(measured, ite(virama, 2, (uint32_t) w), (uint32_t) cur)));
        // what was measured last
        lastW = (int) ite(join, 0, ite(measured, (uint32_t) w, (uint32_t) lastW));
        lastVar = ite(measured | flag2, p.varbase, lastVar) != 0;
        lastNarrow = ite(measured | flag2, p.w == 1, lastNarrow) != 0;
        lastSet = ite(measured | flag2, p.zwjset, lastSet) != 0;
        open = (open & !vs16 & !mc) | measured;
        virama = ite(rest, vir, virama) != 0;
        swallow = join;
    }
    int width() const { int const t = total + cur; return (int) ite(t > 0, (uint32_t) t, 0); }
    // c: this = other
    void assign(bool c, meter const& o)
    {
        total = (int) ite(c, (uint32_t) o.total, (uint32_t) total); cur = (int) ite(c, (uint32_t) o.cur, (uint32_t) cur); lastW = (int) ite(c, (uint32_t) o.lastW, (uint32_t) lastW);
        lastSet = ite(c, o.lastSet, lastSet) != 0; lastVar = ite(c, o.lastVar, lastVar) != 0; lastNarrow = ite(c, o.lastNarrow, lastNarrow) != 0;
        open = ite(c, o.open, open) != 0; virama = ite(c, o.virama, virama) != 0; swallow = ite(c, o.swallow, swallow) != 0; riOdd = ite(c, o.riOdd, riOdd) != 0;
    }
};
// sum of the widths of all clusters of s, boundaries given; base: only the first codepoint of each counts
static inline uint32_t text(int tab, char32_t const* s, int n, bool const* brk, bool base)
{
    uint32_t sum = 0; meter m;
    for (int i = 0; i < n; i++)
    {
        bool const start = i == 0 ? true : brk[i];
        if (base) { sum += (uint32_t) ite(start, look(tab, s[i]).w, 0); continue; }
        sum += (uint32_t) ite(start, (uint32_t) m.width(), 0);
        m.assign(start, meter {});
        m.push(tab, s[i]);
    }
    return base ? sum : sum + (uint32_t) m.width();
}
} // namespace refw
