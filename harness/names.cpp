// Text of property values: stream output and std::format.   params: 0 enumerators, 1 numbers that are no values
// <format> and the stream inserters are replaced by stand-ins that record the text handed to them.
#include <iterator>
#include <array>
#include <cassert>
#include <cstdint>
#include <iostream>
#include <limits>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "vf.h"
#include "simd_pick.h"
static char text[256]; static size_t len; static int pieces;
static void put(char const* s, size_t n)
{
    __vf_assert(len + n <= sizeof text, "text too long");
    for (size_t i = 0; i < n; i++) text[len + i] = s[i];
    len += n; pieces++;
}
static uint64_t number; static bool haveNumber;
namespace std
{
struct vf_ostream
{
    vf_ostream& operator<<(std::string_view s) { put(s.data(), s.size()); return *this; }
    vf_ostream& operator<<(char const* s) { size_t n = 0; while (s[n]) n++; put(s, n); return *this; }
    vf_ostream& operator<<(char c) { put(&c, 1); return *this; }
    template <typename T> requires std::is_integral_v<T> vf_ostream& operator<<(T v) { number = (uint64_t) v; haveNumber = true; put("#", 1); return *this; }
};
} // namespace std
// stand-in for <format>
#define _GLIBCXX_FORMAT 1
namespace std
{
template <typename T, typename C = char> struct formatter;
template <> struct formatter<string_view, char> { auto format(string_view n, auto& ctx) const { put(n.data(), n.size()); return ctx; } };
} // namespace std
#define ostream vf_ostream
#include <libunicode/emoji_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>
#include "ref_name.h"
static std::vf_ostream& out() { static std::vf_ostream o; return o; }
static void is(char const* want, char const* msg)
{
    size_t n = 0; while (want[n]) n++;
    n = (size_t) __vf_concretise(n);
    __vf_assert_eq(len, n, msg);
    for (size_t i = 0; i < n; i++) __vf_assert_eq((uint8_t) text[i], (uint8_t) want[i], msg);
    __vf_assert_eq((uint64_t) pieces, 1, msg);
}
template <typename E, size_t N> VF_NOINLINE static void value(E const (&v)[N], char const* const (&n)[N], char const* m1, char const* m2)
{
    size_t const k = (size_t) __vf_sym(0, N - 1);
    E const e = v[k]; char const* const want = n[k];
    len = 0; pieces = 0;
    out() << e;
    is(want, m1);
    len = 0; pieces = 0;
    int ctx = 0; std::formatter<E> f; (void) f.format(e, ctx);
    is(want, m2);
    if constexpr (std::is_same_v<E, unicode::EastAsianWidth>)
    {
        std::string const s = to_string(e);
        len = 0; pieces = 0; put(s.data(), (size_t) __vf_concretise(s.size()));
        is(want, "to_string of EastAsianWidth");
    }
    __vf_out(len);
}
// a number that is no value of the enumeration
template <typename E, size_t N> VF_NOINLINE static void other(E const (&v)[N], char const* m)
{
    uint64_t const x = __vf_sym(0, sizeof(E) == 1 ? 0xFF : 0xFFFF);
    bool known = false; for (size_t k = 0; k < N; k++) known = known | ((uint64_t) v[k] == x);
    __vf_assume(!known);
    len = 0; pieces = 0; haveNumber = false;
    out() << (E) x;
    __vf_assert(haveNumber && number == x && len == 3 && text[0] == '(' && text[1] == '#' && text[2] == ')', m);
}
void vf_main()
{
    int which = (int) __vf_concretise(__vf_choose(0, 63)), at = 0;
#define X(E) if (which == at++) { if (__vf_param(0) == 0) value(v_##E, n_##E, "stream output of " #E, "std::format of " #E); else if constexpr (sizeof(unicode::E) < 4 && !std::is_same_v<unicode::E, unicode::EmojiSegmentationCategory>) other(v_##E, "stream output of a number that is no " #E); return; }
    VF_ENUMS(X)
    __vf_assume(false);
}
