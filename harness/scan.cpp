// Terminal text scan.  params: mode, n, table of tokens (0: n arbitrary bytes, without complete 4-byte sequences; 1: n arbitrary scalar values), length of a run of plain ASCII in front, 1: events only, alternating pieces behind the first, [7] vector width
// modes: 0 one call, any column limit, against the reference, and the receiver's events; 1 two calls, the text cut at any byte; 2 a limited call, resumed without limit; 3 three calls, the text cut at any two bytes
// tables: 0 gcb, 1 w, 2.. tokens (param: index): codepoints, or raw bytes (0x200000 + byte)
#include "ref_gb.h"
#include "ref_width.h"
#include "utf.h"
#include "simd_pick.h"
#include <libunicode/scan.h>
using namespace unicode;
enum kind { ASCII, CP, BAD, CTRL };
enum { MOST = 330 };   // units
struct unit { size_t from, to; kind k; uint32_t cp; };
static bool yes(bool b) { return __vf_concretise(b) != 0; }
struct reference
{
    unit u[MOST]; int n = 0;        // complete units
    size_t tail = 0;              // where an incomplete sequence at the end begins (or the size)
    uint64_t w[MOST + 1] = {};          // w[k]: columns of the first k units
    uint64_t open[MOST + 1] = {};       // width of the cluster the first k units end in
    int begin[MOST + 1] = {};           // unit that cluster begins with
};
static void add(reference& r, size_t from, size_t to, kind k, uint32_t cp) { r.u[r.n++] = unit { from, to, k, cp }; }
// decoding as utf8.h documents it: a lead byte, then any bytes that are no lead bytes; ASCII and controls end a sequence as well
static void tokenise(reference& r, char const* t, size_t n)
{
    size_t from = 0; int need = 0, have = 0; uint32_t cp = 0;
    for (size_t i = 0; i < n; i++)
    {
        uint8_t const b = (uint8_t) t[i];
        bool const plain = yes(b < 0x80);
        if (plain && need) { add(r, from, i, BAD, 0); need = 0; }
        if (plain) { add(r, i, i + 1, yes(b < 0x20) ? CTRL : ASCII, b); continue; }
        int const lead = yes((b & 0xE0) == 0xC0) ? 2 : yes((b & 0xF0) == 0xE0) ? 3 : yes((b & 0xF8) == 0xF0) ? 4 : 0;
        if (lead)
        {
            if (need) add(r, from, i, BAD, 0);
            from = i; need = lead; have = 1; cp = b & (lead == 2 ? 0x1F : lead == 3 ? 0x0F : 0x07);
            continue;
        }
        if (!need) { add(r, i, i + 1, yes((b >= 0x80) & (b <= 0x9F)) ? CTRL : BAD, b); continue; }
        cp = cp << 6 | (b & 0x3F);
        if (++have == need) { add(r, from, i + 1, CP, cp); need = 0; }
    }
    r.tail = need ? from : n;
}
static void measure(reference& r)
{
    refw::meter m; uint64_t closed = 0; int seg = 0; bool fresh = true; char32_t s[MOST + 1]; int len = 0; bool brk[MOST + 2];
    for (int k = 0; k < r.n; k++)
    {
        unit const& u = r.u[k];
        if (u.k == BAD || u.k == CTRL)
        {
            closed += (uint64_t) m.width() + (u.k == BAD); m = refw::meter {}; len = 0;
            r.w[k + 1] = closed; r.open[k + 1] = 0; r.begin[k + 1] = k + 1; continue;
        }
        if (u.k == ASCII) len = 0;
        s[len++] = (char32_t) u.cp;
        for (int i = 0; i <= len; i++) brk[i] = false;
        refgb::boundaries(0, s, len, brk);
        bool const start = len == 1 || yes(brk[len - 1]);
        if (start) { closed += (uint64_t) m.width(); m = refw::meter {}; }
        bool const del = u.k == ASCII && yes(u.cp == 0x7F);
        if (del) closed += 1; else m.push(1, u.cp);
        r.w[k + 1] = closed + (uint64_t) m.width(); r.open[k + 1] = (uint64_t) m.width(); r.begin[k + 1] = start ? k : r.begin[k];
    }
}
struct event { int kind; size_t from, size; uint64_t width; };
struct recorder final: grapheme_cluster_receiver
{
    char const* base; event e[MOST]; int n = 0;
    void put(int k, size_t from, size_t size, uint64_t w) noexcept { __vf_assert(n < MOST, "more events than bytes"); if (n < MOST) e[n++] = event { k, from, size, w }; }
    void receiveAsciiSequence(std::string_view s) noexcept override { put(0, (size_t) (s.data() - base), s.size(), s.size()); }
    void receiveGraphemeCluster(std::string_view s, size_t w) noexcept override { put(1, (size_t) (s.data() - base), s.size(), w); }
    void receiveInvalidGraphemeCluster() noexcept override { put(2, 0, 0, 1); }
};
// the events of the first e units: ASCII runs, the non-ASCII part of each cluster with the width of the whole cluster, and one notice per invalid sequence
static int expected(reference const& r, int e, event* x)
{
    int n = 0;
    for (int k = 0; k < e;)
    {
        int j = k;
        if (r.u[k].k == ASCII)
        {
            while (j < e && r.u[j].k == ASCII) j++;
            x[n++] = event { 0, r.u[k].from, (size_t) (j - k), (uint64_t) (j - k) };
        }
        else if (r.u[k].k == BAD) { x[n++] = event { 2, 0, 0, 1 }; j++; }
        else
        {   // units of the cluster k belongs to
            j = k + 1;
            while (j < e && r.u[j].k == CP && r.begin[j + 1] == r.begin[k + 1]) j++;
            x[n++] = event { 1, r.u[k].from, r.u[j - 1].to - r.u[k].from, r.open[j] };
        }
        k = j;
    }
    return n;
}
static void check_events(reference const& r, int e, recorder const& g)
{
    event x[MOST]; int const n = expected(r, e, x);
    __vf_assert_eq((uint64_t) g.n, (uint64_t) n, "number of events delivered");
    for (int k = 0; k < n && k < g.n; k++)
    {
        __vf_assert_eq((uint64_t) g.e[k].kind, (uint64_t) x[k].kind, "kind of an event");
        __vf_assert_eq(g.e[k].from, x[k].from, "start of a delivered range");
        __vf_assert_eq(g.e[k].size, x[k].size, "size of a delivered range");
        __vf_assert_eq(g.e[k].width, x[k].width, "width delivered");
    }
}
// why scanning may stop after k units
static bool may_stop(reference const& r, int k, uint64_t limit)
{
    if (k == r.n || r.u[k].k == CTRL || r.w[k] == limit) return true;
    if (r.w[k + 1] > limit) return true;
    for (int j = k + 1; j < r.n && r.u[j].k == CP && r.begin[j + 1] == r.begin[k + 1]; j++)
        if (yes(r.w[j + 1] > limit)) return true;
    return false;
}
static int units_before(reference const& r, size_t end) { int k = 0; while (k < r.n && r.u[k].to <= end) k++; return k; }
static void check_position(reference const& r, size_t end, size_t next, scan_state const& s, size_t size)
{
    int const k = units_before(r, end);
    __vf_assert_eq(end, k ? r.u[k - 1].to : 0, "result ends inside a codepoint");
    __vf_assert(next >= end && next <= size, "resume position outside the rest of the text");
    if (s.utf8.expectedLength == 0) __vf_assert_eq(next, end, "bytes skipped without being reported");
    else
    {
        __vf_assert_eq(next, size, "decoding state open in front of the end");
        __vf_assert_eq(end, r.tail, "decoding state open although the text ends with a complete codepoint");
        __vf_assert_eq(s.utf8.currentLength, next - end, "length of the open codepoint");
    }
}
// a number up to max (the lowest is min), or one of those next to 0, half of max and max if there are many
static uint64_t pick_upto(uint64_t min, uint64_t max, bool few)
{
    if (!few) return __vf_concretise(__vf_choose(min, max));
    uint64_t const v = __vf_concretise(__vf_choose(0, 12));
    uint64_t const x = v < 4 ? min + v : v < 8 ? max / 2 - 6 + v : max - 12 + v;
    return x > max ? max : x < min ? min : x;
}
void vf_main()
{
    int const mode = (int) __vf_param(0), tab = (int) __vf_param(2), rep = (int) __vf_param(5); int n = (int) __vf_param(1), run = (int) __vf_param(3);
    char* t; size_t size = (size_t) run;
    if (!tab) { size += (size_t) n; t = vf_buf<char>(size); for (int i = 0; i < n; i++) { uint64_t const b = __vf_sym(0, 255); if (i + 4 <= n) __vf_assume((b < 0xF0) | (b > 0xF7)); t[run + i] = (char) b; } }
    else if (tab == 1) { sym_text x = sym_utf8(n); size = x.size; t = x.p; run = 0; }
    else
    {
        static uint32_t const often[] = { 0x61, 0x2000E4, 0x301, 0x200D, 0x4E00, 0x1F1E6, 0x1F468 };
        uint32_t const xy[2] = { often[rep ? __vf_concretise(__vf_sym(0, 6)) : 0], often[rep ? __vf_concretise(__vf_sym(0, 6)) : 0] };
        n += rep;
        uint32_t* c = vf_buf<uint32_t>((size_t) n); int* len = vf_buf<int>((size_t) n);
        for (int i = 0; i < n; i++)
        {
            c[i] = i > 0 && i <= rep ? xy[i & 1] : __vf_ref(tab, __vf_concretise(__vf_sym(1, __vf_ref(tab, 0)))); len[i] = c[i] >= 0x200000 ? 1 : utf8_len(c[i]);
            size += (size_t) len[i];
        }
        t = vf_buf<char>(size); size_t p = (size_t) run;
        for (int i = 0; i < n; i++) { if (c[i] >= 0x200000) t[p] = (char) (c[i] & 0xFF); else utf8_put(t + p, c[i], len[i]); p += (size_t) len[i]; }
    }
    for (int i = 0; i < run; i++) t[i] = 'x';
    reference r; tokenise(r, t, size);
    for (int k = 0; k < r.n; k++) if (r.u[k].k == CP) __vf_assume(r.u[k].cp <= 0x10FFFF);
    measure(r);
    for (int k = 0; k <= r.n; k++) { r.w[k] = __vf_concretise(r.w[k]); r.open[k] = __vf_concretise(r.open[k]); }
    int stop = 0; while (stop < r.n && r.u[stop].k != CTRL) stop++;   // units in front of the first control
    recorder rec; rec.base = t;
    scan_state s {};
    if (mode == 0)
    {
        uint64_t const widest = rep ? r.w[r.n] + 2 : (uint64_t) size + 1;
        uint64_t limit = pick_upto(run ? (uint64_t) run - 1 : 0, widest, rep); if (limit == widest) limit = 1000;
        scan_result const a = scan_text(s, std::string_view(t, size), (size_t) limit, rec);
        __vf_assert_eq((size_t) (a.start - t), 0, "start of the result");
        size_t const end = (size_t) (a.end - t), next = (size_t) (s.next - t);
        int const k = units_before(r, end);
        if (__vf_param(4) == 0)
        {
            check_position(r, end, next, s, size);
            __vf_assert(k <= stop, "a control was scanned");
            __vf_assert(a.count <= limit, "more columns than the limit");
            __vf_assert_eq(a.count, r.w[k], "columns reported for the bytes consumed");
            __vf_assert(limit == 0 || may_stop(r, k, limit), "stopped although the next cluster fits");
        }
        else
        {
            __vf_assert(end == (k ? r.u[k - 1].to : 0), "consumed bytes end inside a codepoint");
            check_events(r, k, rec);
            scan_state z {};
            scan_result const b = scan_text(z, std::string_view(t, size), (size_t) limit);
            __vf_assert(b.count == a.count && b.start == a.start && b.end == a.end && z.next == s.next, "result depends on the receiver");
            uint64_t sum = 0; for (int q = 0; q < rec.n; q++) sum += rec.e[q].width;
            uint64_t joined = 0; for (int q = 0; q < k; q++) if (r.u[q].k == ASCII && q + 1 < k && r.u[q + 1].k == CP && r.begin[q + 2] == q) joined++;
            __vf_assert_eq(sum, a.count + joined, "widths delivered and columns reported");
        }
        __vf_out(a.count); __vf_out(end); __vf_out(next);
    }
    else
    {
        // the first call gets a prefix, or a limit
        size_t cut = mode != 2 ? (size_t) pick_upto(run ? (uint64_t) run - 1 : 0, size, rep) : size;
        size_t const limit = mode != 2 ? 1000 : (size_t) pick_upto(run ? (uint64_t) run : 1, rep ? (size_t) r.w[r.n] + 1 : size, rep);
        scan_result const a = scan_text(s, std::string_view(t, cut), limit, rec);
        size_t const end1 = (size_t) (a.end - t), next1 = s.next ? (size_t) (s.next - t) : 0;
        __vf_assert((next1 <= cut && end1 <= next1), "positions after the first call");
        int const k = units_before(r, end1);
        uint64_t between = 0; size_t from = next1;
        if (mode == 3)
        {   // one more cut behind the first
            size_t const cut2 = (size_t) __vf_concretise(__vf_choose(cut, size));
            between = scan_text(s, std::string_view(t + next1, cut2 - next1), 1000, rec).count;
            from = (size_t) (s.next - t);
            __vf_assert(from >= next1 && from <= cut2, "positions after the second call");
        }
        if (mode == 1) { reference p; tokenise(p, t, cut); if (s.next) check_position(p, end1, next1, s, cut); }
        scan_result const b = scan_text(s, std::string_view(t + from, size - from), 1000, rec);
        size_t const end2 = (size_t) (b.end - t), next2 = (size_t) (s.next - t);
        if (mode != 3) __vf_assert_eq((size_t) (b.start - t), end1, "the second call does not continue where the first ended");
        scan_state z {};
        scan_result const w = scan_text(z, std::string_view(t, size), 1000);
        int const all = units_before(r, (size_t) (w.end - t));
        // the columns an earlier call reported cannot be taken back when a variation selector narrows the cluster
        uint64_t wide = r.open[k]; int j = k; while (j < all && r.u[j].k == CP && r.begin[j + 1] == r.begin[k]) j++;
        uint64_t const lost = k && r.u[k - 1].k != BAD && r.open[j] < wide ? wide - r.open[j] : 0;
        bool narrows = false; // no cluster gets narrower: nothing an earlier call reported would have to be taken back
        for (int q = 1; q <= all; q++) if (q > 1 && r.begin[q] == r.begin[q - 1] && r.open[q] < r.open[q - 1]) narrows = true;
        if (mode != 3) __vf_assert_eq(a.count + b.count, w.count + lost, "columns of two calls and of one");
        else if (!narrows) __vf_assert_eq(a.count + between + b.count, w.count, "columns of three calls and of one");
        __vf_assert_eq(end2, (size_t) (w.end - t), "end after two calls and after one");
        __vf_assert_eq(next2, (size_t) (z.next - t), "resume position after two calls and after one");
        __vf_assert_eq(s.utf8.expectedLength, z.utf8.expectedLength, "decoding state after two calls and after one");
        __vf_assert(!z.utf8.expectedLength | ((s.utf8.character == z.utf8.character) & (s.utf8.currentLength == z.utf8.currentLength)), "open codepoint after two calls and after one");
        __vf_assert_eq(s.lastCodepointHint, z.lastCodepointHint, "last codepoint after two calls and after one");
        __vf_assert_eq(s.reportedClusterWidth, z.reportedClusterWidth, "reported width after two calls and after one");
        __vf_assert_eq((uint64_t) s.clusterWidth.width(), (uint64_t) z.clusterWidth.width(), "cluster width after two calls and after one");
        if (z.lastCodepointHint)
        {   // what is open goes on the same way
            for (char32_t c: { U'\u0301', U'\u0903', U'\u0915', U'\u200D', U'\uFE0F', U'\uFE0E', U'\U0001F3FB', U'\U0001F600', U'\U0001F1E6', U'\u1160' })
            {
                auto p = s.graphemeState, q = z.graphemeState; auto v = s.clusterWidth, x = z.clusterWidth; v.push(c); x.push(c);
                __vf_assert_eq(grapheme_process_breakable(c, p), grapheme_process_breakable(c, q), "next boundary after two calls and after one");
                __vf_assert_eq((uint64_t) v.width(), (uint64_t) x.width(), "next width after two calls and after one");
            }
        }
        __vf_out(a.count); __vf_out(b.count);
    }
}
