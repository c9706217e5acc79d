// Script runs, emoji presentation runs and their combination.
// params: mode, n, table of codepoints (0: any), #last codepoints concretised, positions (bit mask) of codepoints that are any in spite of the table, alternating codepoints behind the first
// modes: 0 script_segmenter, 1 emoji_segmenter, 2 run_segmenter
// tables: 0 uscript 1,2,3 set of scripts (64 each) 4 emoji segmentation category; 5.. tables of codepoints
#include "vf.h"
#include "simd_pick.h"
#include "utf.h"
#include "ref_enum.h"
#include <libunicode/emoji_segmenter.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/script_segmenter.h>
using namespace unicode;
static int const NSCRIPT = (int) (sizeof(refenum::script) / sizeof(*refenum::script));
struct scripts { uint64_t w[3]; bool real, any; };
// scripts a codepoint may belong to; 'real': its own script is not Common or Inherited; 'any': it has at least one script
static scripts of(uint32_t c)
{
    scripts s; s.w[0] = s.w[1] = s.w[2] = 0;
    for (int k = 0; k < 3; k++) s.w[k] = (uint64_t) __vf_ref(1 + k, 2 * (uint64_t) c) | (uint64_t) __vf_ref(1 + k, 2 * (uint64_t) c + 1) << 32;
    Script const sc = refenum::script[__vf_ref(0, c)];
    s.real = (sc != Script::Common) & (sc != Script::Inherited);
    s.any = (s.w[0] | s.w[1] | s.w[2]) != 0;
    return s;
}
static int name_of(Script s) { for (int k = 0; k < NSCRIPT; k++) if (refenum::script[k] == s) return k; return -1; }

enum { MOST = 330 };
struct runs { size_t end[MOST]; int prop[MOST]; int n = 0; };
static void script_runs(char32_t const* t, size_t n, runs& r, bool opt)
{   // opt: through the interface that returns the run
    script_segmenter seg;
    if (opt && n <= 8)
    {   // the text given as a NUL-terminated string
        bool nul = false; for (size_t i = 0; i < n; i++) nul |= t[i] == 0;
        if (!__vf_concretise(nul)) { char32_t* z = vf_buf<char32_t>(n + 1); for (size_t i = 0; i < n; i++) z[i] = t[i]; z[n] = 0; seg = script_segmenter(z); }
        else seg = script_segmenter(std::u32string_view(t, n));
    }
    else if (n % 3 == 1) seg = script_segmenter(std::u32string_view(t, n));
    else seg = script_segmenter(t, n);
    size_t size = 0; Script sc {};
    for (;;)
    {
        if (opt) { auto const p = seg.consume(); if (!p) break; size = p->size; sc = p->script; }
        else if (!seg.consume(out(size), out(sc))) break;
        __vf_assert(r.n < (int) n, "more script runs than codepoints");
        if (r.n >= (int) n) return;
        r.end[r.n] = (size_t) __vf_concretise(size); r.prop[r.n] = (int) __vf_concretise((uint64_t) sc); r.n++;
    }
}
static void check_scripts(char32_t const* t, size_t n, runs const& r)
{
    size_t start = 0;
    for (int q = 0; q < r.n; q++)
    {
        size_t const end = r.end[q];
        __vf_assert(end > start && end <= n, "script run ends do not increase");
        if (!(end > start && end <= n)) return;
        int const k = name_of((Script) r.prop[q]);
        __vf_assert(k >= 0, "reported script is none of the UCD's");
        if (k < 0) return;
        bool anyReal = false, listed = false; uint64_t common[3] = { ~0ull, ~0ull, ~0ull };
        for (size_t i = start; i < end; i++)
        {
            scripts const s = of(t[i]);
            __vf_assert(!s.real | (s.w[k / 64] >> (k % 64) & 1), "a character of the run does not belong to the reported script");
            anyReal |= s.real; listed |= s.w[k / 64] >> (k % 64) & 1;
            for (int x = 0; x < 3; x++) common[x] &= __vf_ite(s.any, s.w[x], ~0ull);
        }
        __vf_assert(listed | !anyReal & ((Script) r.prop[q] == Script::Common | (Script) r.prop[q] == Script::Inherited), "no character of the run belongs to the reported script");
        if (end < n)
        {
            scripts const s = of(t[end]);
            __vf_assert(!s.any | (((common[0] & s.w[0]) | (common[1] & s.w[1]) | (common[2] & s.w[2])) == 0), "a run ends although all its characters and the next one share a script");
            __vf_assert(s.any, "a run ends before a character without a script of its own");
        }
        start = end;
    }
    __vf_assert_eq(start, n, "script runs do not end at the end of the text");
}
enum { INV = 0, ETEXT = 2, EEMOJI, MBASE, MOD, VSB, RI, KCB, CEK, CECB, ZWJ, VS15, VS16, TAGB, TAGS, TAGT };
static bool any_emoji(int c) { return (c == 1) | (c == ETEXT) | (c == EEMOJI) | (c == KCB) | (c == MBASE) | (c == TAGB); }
#define IS(i, v) ((i) < n && __vf_concretise(cat[i] == (v)))
#define ANY(i) ((i) < n && __vf_concretise(any_emoji(cat[i])))
// longest sequence with emoji presentation that starts at i (0: none), by the grammar of UTS #51 (ED-9a .. ED-16, flags, tags, keycaps, zwj sequences)
static size_t emoji_at(int const* cat, size_t i, size_t n)
{
    if (IS(i, RI)) return IS(i + 1, RI) ? 2 : 0;
    if (!ANY(i)) return 0;
    size_t best = IS(i, EEMOJI) || IS(i, TAGB) || IS(i, MBASE) ? 1 : 0;
    if (IS(i + 1, VS16)) best = 2;
    if (IS(i + 1, CECB)) best = 2;
    if (IS(i, MBASE) && IS(i + 1, MOD)) best = 2;
    if (IS(i, KCB) && IS(i + 1, VS16) && IS(i + 2, CEK)) best = 3;
    if (IS(i, TAGB) && IS(i + 1, TAGS))
    {
        size_t k = i + 2;
        while (IS(k, TAGS)) k++;
        if (IS(k, TAGT)) return k + 1 - i;
    }
    size_t k = i; bool joined = false;
    for (;;)
    {
        size_t len = 1;
        if (IS(k + 1, VS16)) len = 2;
        else if (IS(k, MBASE) && IS(k + 1, MOD)) len = 2;
        k += len;
        if (joined && k - i > best) best = k - i;
        if (!(IS(k, ZWJ) && ANY(k + 1))) break;
        joined = true; k++;
    }
    return best;
}
static void ref_emoji(char32_t const* t, size_t n, runs& r)
{
    int cat[MOST];
    for (size_t i = 0; i < n; i++) cat[i] = (int) __vf_ref(4, t[i]);
    size_t i = 0; int last = -1;
    while (i < n)
    {
        bool const text15 = ANY(i) && IS(i + 1, VS15);
        size_t const e = text15 ? 0 : emoji_at(cat, i, n);
        int const p = e ? 1 : 0;
        size_t const len = e ? e : text15 ? 2 : 1;
        if (p != last) { r.n++; r.prop[r.n - 1] = p; last = p; }
        i += len; r.end[r.n - 1] = i;
    }
}
static void emoji_runs(char32_t const* t, size_t n, runs& r)
{
    emoji_segmenter seg;
    if (n & 1) seg = emoji_segmenter(std::u32string_view(t, n)); else seg = emoji_segmenter(t, n);
    __vf_assert((seg.buffer() == t) & (seg.size() == n), "buffer, size");
    size_t size = 0; PresentationStyle ps {};
    while (seg.consume(out(size), out(ps)))
    {
        __vf_assert(r.n < (int) n, "more presentation runs than codepoints");
        if (r.n >= (int) n) return;
        r.end[r.n] = (size_t) __vf_concretise(size); r.prop[r.n] = (int) __vf_concretise(ps == PresentationStyle::Emoji); r.n++;
        __vf_assert_eq(seg.currentCursorEnd(), r.end[r.n - 1], "currentCursorEnd");
        __vf_assert_eq(seg.currentCursorBegin(), r.n > 1 ? r.end[r.n - 2] : 0, "currentCursorBegin");
        __vf_assert_eq(seg.isEmoji(), r.prop[r.n - 1], "isEmoji");
        __vf_assert_eq(seg.isText(), !r.prop[r.n - 1], "isText");
        auto const s = seg.substr();
        __vf_assert(s.data() == t + seg.currentCursorBegin() && s.size() == seg.currentCursorEnd() - seg.currentCursorBegin(), "substr");
        __vf_assert((*seg).data() == s.data() && (*seg).size() == s.size(), "operator*");
    }
    __vf_assert(!seg.consume(out(size), out(ps)), "a run behind the end of the text");
}
void vf_main()
{
    int const mode = (int) __vf_param(0), rep = (int) __vf_param(5); size_t n = (size_t) __vf_param(1); int const set = (int) __vf_param(2), fix = (int) __vf_param(3); uint64_t const mask = (uint64_t) __vf_param(4);
    static char32_t const often[] = { 0x20, 0x61, 0x301, 0x3B1, 0x627, 0x64B, 0x660, 0x951, 0x3001, 0x30FC, 0xFFFF }, often1[] = { 0x31, 0x61, 0x200D, 0x20E3, 0xFE0E, 0xFE0F, 0x1F1E6, 0x1F3F4, 0x1F3FB, 0x1F468, 0xE0061, 0xE007F }, often2[] = { 0x20, 0x61, 0x301, 0x3B1, 0xFE0F, 0x1F468, 0x1F1E6 };
    int len = (int) n;
    char32_t* const t = !rep ? vf_buf<char32_t>(n) : mode == 0 ? vf_long(len, set, rep, often) : mode == 1 ? vf_long(len, set, rep, often1) : vf_long(len, set, rep, often2);
    if (rep) n = (size_t) len;
    else for (size_t i = 0; i < n; i++)
    {
        if (set && !(mask >> i & 1)) { uint64_t k = __vf_sym(1, __vf_ref(set, 0)); if (i + (size_t) fix >= n) k = __vf_concretise(k); t[i] = __vf_ref(set, k); }
        else t[i] = vf_cp();
    }
    if (mode == 0) { runs r; script_runs(t, n, r, n & 1); check_scripts(t, n, r); for (int q = 0; q < r.n; q++) { __vf_out(r.end[q]); __vf_out((uint64_t) r.prop[q]); } }
    if (mode == 1)
    {
        runs w, g; ref_emoji(t, n, w); emoji_runs(t, n, g);
        __vf_assert_eq((uint64_t) g.n, (uint64_t) w.n, "number of presentation runs");
        for (int q = 0; q < g.n && q < w.n; q++)
        {
            __vf_assert_eq(g.end[q], w.end[q], "end of a presentation run");
            __vf_assert_eq((uint64_t) g.prop[q], (uint64_t) w.prop[q], "presentation of a run");
            __vf_out(g.end[q]); __vf_out((uint64_t) g.prop[q]);
        }
    }
    if (mode == 2)
    {
        runs s, e; script_runs(t, n, s, true); emoji_runs(t, n, e);
        run_segmenter const two[2] = { run_segmenter(t, n), run_segmenter(std::u32string_view(t, n)) }; run_segmenter seg = two[n & 1]; run_segmenter::range r {};
        int a = 0, b = 0; size_t start = 0;
        while (start < n)
        {
            __vf_assert(a < s.n && b < e.n, "runs do not cover the text");
            if (!(a < s.n && b < e.n)) return;
            size_t const end = s.end[a] < e.end[b] ? s.end[a] : e.end[b];
            __vf_assert(!seg.finished(), "finished before the end");
            bool const ok = seg.consume(out(r));
            __vf_assert(ok, "a combined run is missing");
            if (!ok) return;
            __vf_assert_eq(r.start, start, "start of a combined run"); __vf_assert_eq(r.end, end, "end of a combined run");
            __vf_assert_eq((uint64_t) std::get<Script>(r.properties), (uint64_t) s.prop[a], "script of a combined run");
            __vf_assert_eq(std::get<PresentationStyle>(r.properties) == PresentationStyle::Emoji, (uint64_t) e.prop[b], "presentation of a combined run");
            __vf_out(end);
            if (end == s.end[a]) a++;
            if (end == e.end[b]) b++;
            start = end;
        }
        __vf_assert(seg.finished(), "not finished at the end");
        __vf_assert(!seg.consume(out(r)), "a combined run behind the end of the text");
    }
}
