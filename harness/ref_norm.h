// Reference for UAX #15, written from the definitions: full decomposition tables computed from UnicodeData.txt,
// canonical ordering, canonical composition with Full_Composition_Exclusion.
// tables: 0 ccc, 1 nfd, 2 nfdx, 3 nfkd, 4 nfkdx, 5 comp (class of a first/second part), 6 compm (matrix)
#pragma once
#include "vf.h"
namespace refn
{
struct str { uint32_t c[320]; uint32_t ccc[320]; int n = 0; void push(uint32_t x, uint32_t k) { c[n] = x; ccc[n] = k; n++; } };
static inline uint32_t ccc(uint32_t c) { return __vf_ref(0, c); }
static inline void decompose(str& o, uint32_t c, bool compat)
{
    uint32_t const r = __vf_ref(compat ? 3 : 1, c);
    int const len = (int) __vf_concretise(r & 31);
    if (len == 0) { o.push(c, ccc(c)); return; }
    for (int k = 0; k < len; k++) { uint32_t const x = __vf_ref(compat ? 4 : 2, (r >> 5) + (uint32_t) k); o.push(x & 0xFFFFFF, x >> 24); }
}
static inline void order(str& s)
{
    for (int i = 1; i < s.n; i++)
        for (int j = i; j > 0 && s.ccc[j] != 0 && s.ccc[j - 1] > s.ccc[j]; j--)
        {
            uint32_t t = s.c[j]; s.c[j] = s.c[j - 1]; s.c[j - 1] = t;
            t = s.ccc[j]; s.ccc[j] = s.ccc[j - 1]; s.ccc[j - 1] = t;
        }
}
// primary composite of a and b, or 0
static inline uint32_t pair(uint32_t a, uint32_t b)
{
    if (a >= 0x1100 && a <= 0x1112 && b >= 0x1161 && b <= 0x1175) return 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
    if (b >= 0x11A8 && b <= 0x11C2 && a >= 0xAC00 && a <= 0xD7A3) { if ((a - 0xAC00) % 28 == 0) return a + (b - 0x11A7); return 0; }
    uint32_t const fa = __vf_ref(5, a) & 0xFFFF, fb = __vf_ref(5, b) >> 16;
    if (fa == 0 || fb == 0) return 0;
    return __vf_ref(6, (uint64_t) fa * 256 + fb);
}
static inline void compose(str& s)
{
    str o; int starter = -1;
    for (int i = 0; i < s.n; i++)
    {
        // blocked (D115): something between the starter and this character is a starter or has a class not below this one's
        bool const blocked = starter < 0 || (o.n - 1 > starter && (o.ccc[o.n - 1] == 0 || o.ccc[o.n - 1] >= s.ccc[i]));
        if (!blocked)
        {
            uint32_t const p = pair(o.c[starter], s.c[i]);
            if (p != 0) { o.c[starter] = p; continue; }
        }
        if (s.ccc[i] == 0) starter = o.n;
        o.push(s.c[i], s.ccc[i]);
    }
    s.n = o.n;
    for (int i = 0; i < o.n; i++) { s.c[i] = o.c[i]; s.ccc[i] = o.ccc[i]; }
}
// form: 0 NFC, 1 NFD, 2 NFKC, 3 NFKD
static inline void normalize(str& o, uint32_t const* t, int n, int form)
{
    for (int i = 0; i < n; i++) decompose(o, t[i], form >= 2);
    order(o);
    if (form == 0 || form == 2) compose(o);
}
} // namespace refn
