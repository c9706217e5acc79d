// Property lookups against the UCD.  params: mode, variant
// modes: 0 range-table queries of one codepoint, 1 script extensions, 2 values beyond U+10FFFF, 3 make_age,
//        7 names of codepoints from part 1 to part 2 (hexadecimal), 8 names of values beyond U+10FFFF; 4 multistage record of one codepoint, 5 record of values beyond U+10FFFF, 6 contains(General_Category) and its wrappers
// tables: 0 gc 1 script 2 block 3 gcb 4 eaw 5 core 6 plane 7 age 8 wb 9 emoji 10 mirror 11 scx 12 scxx 13 esc 14 width 15 name 16 name characters
#include "vf.h"
#include "simd_pick.h"
#include "utf.h"
#include "ref_enum.h"
using namespace unicode;
#define U(x) ((uint64_t) (uint32_t) (x))
static uint32_t beyond32(int part) { return part == 0 ? (uint32_t) __vf_sym(0x110000, 0x7FFFFF) : (uint32_t) __vf_sym(0, 0x7FFFFF) + 0xFF800000u; }
static void ranges(uint32_t c, int part)
{
    if (part == 0)
    {
        __vf_assert_eq(U(general_category::get(c)), U(refenum::gc[__vf_ref(0, c)]), "general_category::get");
        __vf_assert_eq(U(script(c)), U(refenum::script[__vf_ref(1, c)]), "script");
        __vf_assert_eq(U(block(c)), U(refenum::block[__vf_ref(2, c)]), "block");
        __vf_assert_eq(U(grapheme_cluster_break(c)), U(refenum::gcb[__vf_ref(3, c)]), "grapheme_cluster_break");
        __vf_assert_eq(U(east_asian_width(c)), U(refenum::eaw[__vf_ref(4, c)]), "east_asian_width");
        __vf_assert_eq(U(plane(c)), U(refenum::plane[__vf_ref(6, c)]), "plane");
    }
    if (part == 1)
    {
        uint32_t const e = __vf_ref(9, c);
        __vf_assert_eq(is_emoji(c), e & 1, "is_emoji");
        __vf_assert_eq(is_emoji_presentation(c), e >> 1 & 1, "is_emoji_presentation");
        __vf_assert_eq(is_emoji_component(c), e >> 2 & 1, "is_emoji_component");
        __vf_assert_eq(is_emoji_modifier(c), e >> 3 & 1, "is_emoji_modifier");
        __vf_assert_eq(is_emoji_modifier_base(c), e >> 4 & 1, "is_emoji_modifier_base");
        __vf_assert_eq(is_extended_pictographic(c), e >> 5 & 1, "is_extended_pictographic");
        __vf_assert_eq(is_mirrored(c), e >> 9 & 1, "is_mirrored");
        __vf_assert_eq(U(bidi_mirroring_glyph(c)), U(c + __vf_ref(10, c)), "bidi_mirroring_glyph");
        uint32_t const core = __vf_ref(5, c);
        for (int k = 0; k < (int) (sizeof(refenum::core) / sizeof(*refenum::core)); k++)
            __vf_assert_eq(contains(refenum::core[k], c), core >> k & 1, "contains(Core_Property)");
    }
    if (part == 2)
    {
        General_Category const g = refenum::gc[__vf_ref(0, c)];
        for (int k = 0; k < (int) (sizeof(refenum::gc) / sizeof(*refenum::gc)); k++)
            __vf_assert_eq(contains(refenum::gc[k], c), U(g) == U(refenum::gc[k]), "contains(General_Category)");
#define W(f, G) __vf_assert_eq(general_category::f(c), U(g) == U(General_Category::G), #f)
        W(is_close_punctuation, Close_Punctuation); W(is_connector_punctuation, Connector_Punctuation); W(is_control, Control); W(is_currency_symbol, Currency_Symbol); W(is_dash_punctuation, Dash_Punctuation);
        W(is_decimal_number, Decimal_Number); W(is_enclosing_mark, Enclosing_Mark); W(is_final_punctuation, Final_Punctuation); W(is_format, Format); W(is_initial_punctuation, Initial_Punctuation);
        W(is_letter_number, Letter_Number); W(is_line_separator, Line_Separator); W(is_lowercase_letter, Lowercase_Letter); W(is_math_symbol, Math_Symbol); W(is_modifier_letter, Modifier_Letter);
        W(is_modifier_symbol, Modifier_Symbol); W(is_nonspacing_mark, Nonspacing_Mark); W(is_open_punctuation, Open_Punctuation); W(is_other_letter, Other_Letter); W(is_other_number, Other_Number);
        W(is_other_punctuation, Other_Punctuation); W(is_other_symbol, Other_Symbol); W(is_paragraph_separator, Paragraph_Separator); W(is_private_use, Private_Use); W(is_space_separator, Space_Separator);
        W(is_spacing_mark, Spacing_Mark); W(is_surrogate, Surrogate); W(is_titlecase_letter, Titlecase_Letter); W(is_unassigned, Unassigned); W(is_uppercase_letter, Uppercase_Letter);
#undef W
    }
}
static void extensions(uint32_t c)
{
    uint32_t const r = (uint32_t) __vf_concretise(__vf_ref(11, c));
    auto const got = script_extensions(c);
    __vf_assert_eq(got.has_value(), r != 0, "script_extensions: listed");
    if (!__vf_concretise(got.has_value())) return;
    size_t const n = (size_t) __vf_concretise(got->size());
    __vf_assert_eq(n, r & 31, "script_extensions: number");
    for (uint32_t k = 0; k < (r & 31); k++)
    {
        uint64_t const want = U(refenum::script[__vf_ref(12, (r >> 5) + k)]);
        uint64_t found = 0;
        for (size_t i = 0; i < n; i++) found |= U((*got)[i]) == want;
        __vf_assert(found, "script_extensions: script missing");
    }
}
static void beyond(uint32_t c)
{
    __vf_assert_eq(U(general_category::get(c)), U(General_Category::Unspecified), "general_category::get");
    __vf_assert_eq(U(script(c)), U(Script::Unknown), "script");
    __vf_assert_eq(U(block(c)), U(Block::Unspecified), "block");
    __vf_assert_eq(U(grapheme_cluster_break(c)), U(Grapheme_Cluster_Break::Undefined), "grapheme_cluster_break");
    __vf_assert_eq(U(east_asian_width(c)), U(EastAsianWidth::Unspecified), "east_asian_width");
    __vf_assert_eq(U(plane(c)), U(Plane::Unassigned), "plane");
    __vf_assert(!(is_emoji(c) | is_emoji_presentation(c) | is_emoji_component(c) | is_emoji_modifier(c) | is_emoji_modifier_base(c) | is_extended_pictographic(c) | is_mirrored(c)), "emoji property beyond U+10FFFF");
    __vf_assert_eq(U(bidi_mirroring_glyph(c)), U(c), "bidi_mirroring_glyph");
    for (Core_Property const p: refenum::core) __vf_assert(!contains(p, c), "core property beyond U+10FFFF");
    for (General_Category const g: refenum::gc) __vf_assert(!contains(g, c), "general category beyond U+10FFFF");
    __vf_assert(!script_extensions(c).has_value(), "script extensions beyond U+10FFFF");
}
static void age_name(int n)
{
    char* const s = vf_buf<char>((size_t) n);
    for (int i = 0; i < n; i++) s[i] = (char) __vf_sym(0, 255);
    auto const got = make_age(std::string_view(s, (size_t) n));
    bool const some = __vf_concretise(got.has_value());
    int k = 0; bool listed = false;
    for (char const* a: refenum::age_name)
    {
        k++;
        if (strlen(a) != (size_t) n) continue;
        uint64_t eq = 1;
        for (int i = 0; i < n; i++) eq &= (uint8_t) s[i] == (uint8_t) a[i];
        if (!__vf_concretise(eq)) continue;
        listed = true;
        __vf_assert(some && *got == refenum::age[k], "make_age");
    }
    __vf_assert_eq(some, listed, "make_age answers a name that is no version");
}
static void record(uint32_t c, codepoint_properties const& p)
{
    uint32_t const e = __vf_ref(9, c);
    __vf_assert_eq(p.char_width, __vf_ref(14, c) & 3, "char_width");
    __vf_assert_eq(U(p.script), U(refenum::script[__vf_ref(1, c)]), "record: script");
    uint32_t const g = __vf_ref(3, c);
    __vf_assert_eq(U(p.grapheme_cluster_break), U(refenum::gcb[g + (g == 0)]), "record: grapheme_cluster_break");
    __vf_assert_eq(U(p.east_asian_width), U(refenum::eaw2[__vf_ref(4, c)]), "record: east_asian_width");
    __vf_assert_eq(U(p.general_category), U(refenum::gc[__vf_ref(0, c)]), "record: general_category");
    __vf_assert_eq(U((uint8_t) p.emoji_segmentation_category), U((uint8_t) refenum::esc[__vf_ref(13, c)]), "record: emoji_segmentation_category");
    __vf_assert_eq(U(p.age), U(refenum::age[__vf_ref(7, c)]), "record: age");
    __vf_assert_eq(U(p.indic_conjunct_break), U(refenum::incb[e >> 10 & 3]), "record: indic_conjunct_break");
    __vf_assert_eq(U(p.word_break), U(refenum::wb[__vf_ref(8, c)]), "record: word_break");
    __vf_assert_eq(p.is_emoji(), e & 1, "record: is_emoji");
    __vf_assert_eq(p.is_emoji_presentation(), e >> 1 & 1, "record: is_emoji_presentation");
    __vf_assert_eq(p.is_emoji_component(), e >> 2 & 1, "record: is_emoji_component");
    __vf_assert_eq(p.is_emoji_modifier(), e >> 3 & 1, "record: is_emoji_modifier");
    __vf_assert_eq(p.is_emoji_modifier_base(), e >> 4 & 1, "record: is_emoji_modifier_base");
    __vf_assert_eq(p.is_extended_pictographic(), e >> 5 & 1, "record: is_extended_pictographic");
    __vf_assert_eq(p.is_core_grapheme_extend(), e >> 6 & 1, "record: is_core_grapheme_extend");
    __vf_assert_eq(p.is_virama(), e >> 7 & 1, "record: is_virama");
    __vf_assert_eq(p.is_emoji_variation_base(), e >> 8 & 1, "record: is_emoji_variation_base");
}
static void name(uint32_t c, std::string_view n)
{
    uint32_t const r = __vf_ref(15, c), len = r & 127;
    __vf_assert_eq(n.size(), len, "name: length");
    for (uint32_t k = 0; k < 127; k++)
    {
        if (!__vf_concretise(k < len)) return;
        __vf_assert_eq((uint8_t) n[k], __vf_ref(16, (r >> 7) + k), "name: character");
    }
}
void vf_main()
{
    int const mode = (int) __vf_param(0), part = (int) __vf_param(1);
    if (mode == 3) { age_name(part); __vf_reach(3); return; }
    if (mode == 2 || mode == 5)
    {
        uint32_t const c = beyond32((int) part);
        if (mode == 2) { beyond(c); __vf_out(c); return; }
        codepoint_properties const p = codepoint_properties::get(c);
        record(0, p);
        return;
    }
    if (mode == 7)
    {
        uint32_t const c = (uint32_t) __vf_sym(__vf_param(1), __vf_param(2));
        name(c, codepoint_properties::name(c));
        __vf_out(c); return;
    }
    if (mode == 8)
    {
        uint32_t const c = beyond32((int) part);
        name(0, codepoint_properties::name(c));
        return;
    }
    uint32_t const c = vf_cp();
    if (mode == 0) ranges(c, part);
    if (mode == 1) extensions(c);
    if (mode == 4) record(c, codepoint_properties::get(c));
    __vf_out(c);
}
