// Generated by lib/ucdref.py (python3 lib/ucdref.py enums): positions in the reference tables -> enumerators of the library, by name.
#pragma once
#include <libunicode/codepoint_properties.h>
#include <libunicode/ucd.h>
namespace refenum
{
static constexpr unicode::General_Category gc[] = { unicode::General_Category::Unspecified, unicode::General_Category::Close_Punctuation, unicode::General_Category::Connector_Punctuation, unicode::General_Category::Control, unicode::General_Category::Currency_Symbol, unicode::General_Category::Dash_Punctuation, unicode::General_Category::Decimal_Number, unicode::General_Category::Enclosing_Mark, unicode::General_Category::Final_Punctuation, unicode::General_Category::Format, unicode::General_Category::Initial_Punctuation, unicode::General_Category::Letter_Number, unicode::General_Category::Line_Separator, unicode::General_Category::Lowercase_Letter, unicode::General_Category::Math_Symbol, unicode::General_Category::Modifier_Letter, unicode::General_Category::Modifier_Symbol, unicode::General_Category::Nonspacing_Mark, unicode::General_Category::Open_Punctuation, unicode::General_Category::Other_Letter, unicode::General_Category::Other_Number, unicode::General_Category::Other_Punctuation, unicode::General_Category::Other_Symbol, unicode::General_Category::Paragraph_Separator, unicode::General_Category::Private_Use, unicode::General_Category::Space_Separator, unicode::General_Category::Spacing_Mark, unicode::General_Category::Surrogate, unicode::General_Category::Titlecase_Letter, unicode::General_Category::Unassigned, unicode::General_Category::Uppercase_Letter };
static constexpr unicode::Script script[] = { unicode::Script::Unknown, unicode::Script::Adlam, unicode::Script::Ahom, unicode::Script::Anatolian_Hieroglyphs, unicode::Script::Arabic, unicode::Script::Armenian, unicode::Script::Avestan, unicode::Script::Balinese, unicode::Script::Bamum, unicode::Script::Bassa_Vah, unicode::Script::Batak, unicode::Script::Bengali, unicode::Script::Bhaiksuki, unicode::Script::Bopomofo, unicode::Script::Brahmi, unicode::Script::Braille, unicode::Script::Buginese, unicode::Script::Buhid, unicode::Script::Canadian_Aboriginal, unicode::Script::Carian, unicode::Script::Caucasian_Albanian, unicode::Script::Chakma, unicode::Script::Cham, unicode::Script::Cherokee, unicode::Script::Chorasmian, unicode::Script::Common, unicode::Script::Coptic, unicode::Script::Cuneiform, unicode::Script::Cypriot, unicode::Script::Cypro_Minoan, unicode::Script::Cyrillic, unicode::Script::Deseret, unicode::Script::Devanagari, unicode::Script::Dives_Akuru, unicode::Script::Dogra, unicode::Script::Duployan, unicode::Script::Egyptian_Hieroglyphs, unicode::Script::Elbasan, unicode::Script::Elymaic, unicode::Script::Ethiopic, unicode::Script::Georgian, unicode::Script::Glagolitic, unicode::Script::Gothic, unicode::Script::Grantha, unicode::Script::Greek, unicode::Script::Gujarati, unicode::Script::Gunjala_Gondi, unicode::Script::Gurmukhi, unicode::Script::Han, unicode::Script::Hangul, unicode::Script::Hanifi_Rohingya, unicode::Script::Hanunoo, unicode::Script::Hatran, unicode::Script::Hebrew, unicode::Script::Hiragana, unicode::Script::Imperial_Aramaic, unicode::Script::Inherited, unicode::Script::Inscriptional_Pahlavi, unicode::Script::Inscriptional_Parthian, unicode::Script::Javanese, unicode::Script::Kaithi, unicode::Script::Kannada, unicode::Script::Katakana, unicode::Script::Kawi, unicode::Script::Kayah_Li, unicode::Script::Kharoshthi, unicode::Script::Khitan_Small_Script, unicode::Script::Khmer, unicode::Script::Khojki, unicode::Script::Khudawadi, unicode::Script::Lao, unicode::Script::Latin, unicode::Script::Lepcha, unicode::Script::Limbu, unicode::Script::Linear_A, unicode::Script::Linear_B, unicode::Script::Lisu, unicode::Script::Lycian, unicode::Script::Lydian, unicode::Script::Mahajani, unicode::Script::Makasar, unicode::Script::Malayalam, unicode::Script::Mandaic, unicode::Script::Manichaean, unicode::Script::Marchen, unicode::Script::Masaram_Gondi, unicode::Script::Medefaidrin, unicode::Script::Meetei_Mayek, unicode::Script::Mende_Kikakui, unicode::Script::Meroitic_Cursive, unicode::Script::Meroitic_Hieroglyphs, unicode::Script::Miao, unicode::Script::Modi, unicode::Script::Mongolian, unicode::Script::Mro, unicode::Script::Multani, unicode::Script::Myanmar, unicode::Script::Nabataean, unicode::Script::Nag_Mundari, unicode::Script::Nandinagari, unicode::Script::New_Tai_Lue, unicode::Script::Newa, unicode::Script::Nko, unicode::Script::Nushu, unicode::Script::Nyiakeng_Puachue_Hmong, unicode::Script::Ogham, unicode::Script::Ol_Chiki, unicode::Script::Old_Hungarian, unicode::Script::Old_Italic, unicode::Script::Old_North_Arabian, unicode::Script::Old_Permic, unicode::Script::Old_Persian, unicode::Script::Old_Sogdian, unicode::Script::Old_South_Arabian, unicode::Script::Old_Turkic, unicode::Script::Old_Uyghur, unicode::Script::Oriya, unicode::Script::Osage, unicode::Script::Osmanya, unicode::Script::Pahawh_Hmong, unicode::Script::Palmyrene, unicode::Script::Pau_Cin_Hau, unicode::Script::Phags_Pa, unicode::Script::Phoenician, unicode::Script::Psalter_Pahlavi, unicode::Script::Rejang, unicode::Script::Runic, unicode::Script::Samaritan, unicode::Script::Saurashtra, unicode::Script::Sharada, unicode::Script::Shavian, unicode::Script::Siddham, unicode::Script::SignWriting, unicode::Script::Sinhala, unicode::Script::Sogdian, unicode::Script::Sora_Sompeng, unicode::Script::Soyombo, unicode::Script::Sundanese, unicode::Script::Syloti_Nagri, unicode::Script::Syriac, unicode::Script::Tagalog, unicode::Script::Tagbanwa, unicode::Script::Tai_Le, unicode::Script::Tai_Tham, unicode::Script::Tai_Viet, unicode::Script::Takri, unicode::Script::Tamil, unicode::Script::Tangsa, unicode::Script::Tangut, unicode::Script::Telugu, unicode::Script::Thaana, unicode::Script::Thai, unicode::Script::Tibetan, unicode::Script::Tifinagh, unicode::Script::Tirhuta, unicode::Script::Toto, unicode::Script::Ugaritic, unicode::Script::Vai, unicode::Script::Vithkuqi, unicode::Script::Wancho, unicode::Script::Warang_Citi, unicode::Script::Yezidi, unicode::Script::Yi, unicode::Script::Zanabazar_Square };
static constexpr unicode::Block block[] = { unicode::Block::Unspecified, unicode::Block::Adlam, unicode::Block::Aegean_Numbers, unicode::Block::Ahom, unicode::Block::Alchemical_Symbols, unicode::Block::Alphabetic_Presentation_Forms, unicode::Block::Anatolian_Hieroglyphs, unicode::Block::Ancient_Greek_Musical_Notation, unicode::Block::Ancient_Greek_Numbers, unicode::Block::Ancient_Symbols, unicode::Block::Arabic, unicode::Block::Arabic_Extended_A, unicode::Block::Arabic_Extended_B, unicode::Block::Arabic_Extended_C, unicode::Block::Arabic_Mathematical_Alphabetic_Symbols, unicode::Block::Arabic_Presentation_Forms_A, unicode::Block::Arabic_Presentation_Forms_B, unicode::Block::Arabic_Supplement, unicode::Block::Armenian, unicode::Block::Arrows, unicode::Block::Avestan, unicode::Block::Balinese, unicode::Block::Bamum, unicode::Block::Bamum_Supplement, unicode::Block::Basic_Latin, unicode::Block::Bassa_Vah, unicode::Block::Batak, unicode::Block::Bengali, unicode::Block::Bhaiksuki, unicode::Block::Block_Elements, unicode::Block::Bopomofo, unicode::Block::Bopomofo_Extended, unicode::Block::Box_Drawing, unicode::Block::Brahmi, unicode::Block::Braille_Patterns, unicode::Block::Buginese, unicode::Block::Buhid, unicode::Block::Byzantine_Musical_Symbols, unicode::Block::CJK_Compatibility, unicode::Block::CJK_Compatibility_Forms, unicode::Block::CJK_Compatibility_Ideographs, unicode::Block::CJK_Compatibility_Ideographs_Supplement, unicode::Block::CJK_Radicals_Supplement, unicode::Block::CJK_Strokes, unicode::Block::CJK_Symbols_and_Punctuation, unicode::Block::CJK_Unified_Ideographs, unicode::Block::CJK_Unified_Ideographs_Extension_A, unicode::Block::CJK_Unified_Ideographs_Extension_B, unicode::Block::CJK_Unified_Ideographs_Extension_C, unicode::Block::CJK_Unified_Ideographs_Extension_D, unicode::Block::CJK_Unified_Ideographs_Extension_E, unicode::Block::CJK_Unified_Ideographs_Extension_F, unicode::Block::CJK_Unified_Ideographs_Extension_G, unicode::Block::CJK_Unified_Ideographs_Extension_H, unicode::Block::CJK_Unified_Ideographs_Extension_I, unicode::Block::Carian, unicode::Block::Caucasian_Albanian, unicode::Block::Chakma, unicode::Block::Cham, unicode::Block::Cherokee, unicode::Block::Cherokee_Supplement, unicode::Block::Chess_Symbols, unicode::Block::Chorasmian, unicode::Block::Combining_Diacritical_Marks, unicode::Block::Combining_Diacritical_Marks_Extended, unicode::Block::Combining_Diacritical_Marks_Supplement, unicode::Block::Combining_Diacritical_Marks_for_Symbols, unicode::Block::Combining_Half_Marks, unicode::Block::Common_Indic_Number_Forms, unicode::Block::Control_Pictures, unicode::Block::Coptic, unicode::Block::Coptic_Epact_Numbers, unicode::Block::Counting_Rod_Numerals, unicode::Block::Cuneiform, unicode::Block::Cuneiform_Numbers_and_Punctuation, unicode::Block::Currency_Symbols, unicode::Block::Cypriot_Syllabary, unicode::Block::Cypro_Minoan, unicode::Block::Cyrillic, unicode::Block::Cyrillic_Extended_A, unicode::Block::Cyrillic_Extended_B, unicode::Block::Cyrillic_Extended_C, unicode::Block::Cyrillic_Extended_D, unicode::Block::Cyrillic_Supplement, unicode::Block::Deseret, unicode::Block::Devanagari, unicode::Block::Devanagari_Extended, unicode::Block::Devanagari_Extended_A, unicode::Block::Dingbats, unicode::Block::Dives_Akuru, unicode::Block::Dogra, unicode::Block::Domino_Tiles, unicode::Block::Duployan, unicode::Block::Early_Dynastic_Cuneiform, unicode::Block::Egyptian_Hieroglyph_Format_Controls, unicode::Block::Egyptian_Hieroglyphs, unicode::Block::Elbasan, unicode::Block::Elymaic, unicode::Block::Emoticons, unicode::Block::Enclosed_Alphanumeric_Supplement, unicode::Block::Enclosed_Alphanumerics, unicode::Block::Enclosed_CJK_Letters_and_Months, unicode::Block::Enclosed_Ideographic_Supplement, unicode::Block::Ethiopic, unicode::Block::Ethiopic_Extended, unicode::Block::Ethiopic_Extended_A, unicode::Block::Ethiopic_Extended_B, unicode::Block::Ethiopic_Supplement, unicode::Block::General_Punctuation, unicode::Block::Geometric_Shapes, unicode::Block::Geometric_Shapes_Extended, unicode::Block::Georgian, unicode::Block::Georgian_Extended, unicode::Block::Georgian_Supplement, unicode::Block::Glagolitic, unicode::Block::Glagolitic_Supplement, unicode::Block::Gothic, unicode::Block::Grantha, unicode::Block::Greek_Extended, unicode::Block::Greek_and_Coptic, unicode::Block::Gujarati, unicode::Block::Gunjala_Gondi, unicode::Block::Gurmukhi, unicode::Block::Halfwidth_and_Fullwidth_Forms, unicode::Block::Hangul_Compatibility_Jamo, unicode::Block::Hangul_Jamo, unicode::Block::Hangul_Jamo_Extended_A, unicode::Block::Hangul_Jamo_Extended_B, unicode::Block::Hangul_Syllables, unicode::Block::Hanifi_Rohingya, unicode::Block::Hanunoo, unicode::Block::Hatran, unicode::Block::Hebrew, unicode::Block::High_Private_Use_Surrogates, unicode::Block::High_Surrogates, unicode::Block::Hiragana, unicode::Block::IPA_Extensions, unicode::Block::Ideographic_Description_Characters, unicode::Block::Ideographic_Symbols_and_Punctuation, unicode::Block::Imperial_Aramaic, unicode::Block::Indic_Siyaq_Numbers, unicode::Block::Inscriptional_Pahlavi, unicode::Block::Inscriptional_Parthian, unicode::Block::Javanese, unicode::Block::Kaithi, unicode::Block::Kaktovik_Numerals, unicode::Block::Kana_Extended_A, unicode::Block::Kana_Extended_B, unicode::Block::Kana_Supplement, unicode::Block::Kanbun, unicode::Block::Kangxi_Radicals, unicode::Block::Kannada, unicode::Block::Katakana, unicode::Block::Katakana_Phonetic_Extensions, unicode::Block::Kawi, unicode::Block::Kayah_Li, unicode::Block::Kharoshthi, unicode::Block::Khitan_Small_Script, unicode::Block::Khmer, unicode::Block::Khmer_Symbols, unicode::Block::Khojki, unicode::Block::Khudawadi, unicode::Block::Lao, unicode::Block::Latin_1_Supplement, unicode::Block::Latin_Extended_A, unicode::Block::Latin_Extended_Additional, unicode::Block::Latin_Extended_B, unicode::Block::Latin_Extended_C, unicode::Block::Latin_Extended_D, unicode::Block::Latin_Extended_E, unicode::Block::Latin_Extended_F, unicode::Block::Latin_Extended_G, unicode::Block::Lepcha, unicode::Block::Letterlike_Symbols, unicode::Block::Limbu, unicode::Block::Linear_A, unicode::Block::Linear_B_Ideograms, unicode::Block::Linear_B_Syllabary, unicode::Block::Lisu, unicode::Block::Lisu_Supplement, unicode::Block::Low_Surrogates, unicode::Block::Lycian, unicode::Block::Lydian, unicode::Block::Mahajani, unicode::Block::Mahjong_Tiles, unicode::Block::Makasar, unicode::Block::Malayalam, unicode::Block::Mandaic, unicode::Block::Manichaean, unicode::Block::Marchen, unicode::Block::Masaram_Gondi, unicode::Block::Mathematical_Alphanumeric_Symbols, unicode::Block::Mathematical_Operators, unicode::Block::Mayan_Numerals, unicode::Block::Medefaidrin, unicode::Block::Meetei_Mayek, unicode::Block::Meetei_Mayek_Extensions, unicode::Block::Mende_Kikakui, unicode::Block::Meroitic_Cursive, unicode::Block::Meroitic_Hieroglyphs, unicode::Block::Miao, unicode::Block::Miscellaneous_Mathematical_Symbols_A, unicode::Block::Miscellaneous_Mathematical_Symbols_B, unicode::Block::Miscellaneous_Symbols, unicode::Block::Miscellaneous_Symbols_and_Arrows, unicode::Block::Miscellaneous_Symbols_and_Pictographs, unicode::Block::Miscellaneous_Technical, unicode::Block::Modi, unicode::Block::Modifier_Tone_Letters, unicode::Block::Mongolian, unicode::Block::Mongolian_Supplement, unicode::Block::Mro, unicode::Block::Multani, unicode::Block::Musical_Symbols, unicode::Block::Myanmar, unicode::Block::Myanmar_Extended_A, unicode::Block::Myanmar_Extended_B, unicode::Block::NKo, unicode::Block::Nabataean, unicode::Block::Nag_Mundari, unicode::Block::Nandinagari, unicode::Block::New_Tai_Lue, unicode::Block::Newa, unicode::Block::Number_Forms, unicode::Block::Nushu, unicode::Block::Nyiakeng_Puachue_Hmong, unicode::Block::Ogham, unicode::Block::Ol_Chiki, unicode::Block::Old_Hungarian, unicode::Block::Old_Italic, unicode::Block::Old_North_Arabian, unicode::Block::Old_Permic, unicode::Block::Old_Persian, unicode::Block::Old_Sogdian, unicode::Block::Old_South_Arabian, unicode::Block::Old_Turkic, unicode::Block::Old_Uyghur, unicode::Block::Optical_Character_Recognition, unicode::Block::Oriya, unicode::Block::Ornamental_Dingbats, unicode::Block::Osage, unicode::Block::Osmanya, unicode::Block::Ottoman_Siyaq_Numbers, unicode::Block::Pahawh_Hmong, unicode::Block::Palmyrene, unicode::Block::Pau_Cin_Hau, unicode::Block::Phags_pa, unicode::Block::Phaistos_Disc, unicode::Block::Phoenician, unicode::Block::Phonetic_Extensions, unicode::Block::Phonetic_Extensions_Supplement, unicode::Block::Playing_Cards, unicode::Block::Private_Use_Area, unicode::Block::Psalter_Pahlavi, unicode::Block::Rejang, unicode::Block::Rumi_Numeral_Symbols, unicode::Block::Runic, unicode::Block::Samaritan, unicode::Block::Saurashtra, unicode::Block::Sharada, unicode::Block::Shavian, unicode::Block::Shorthand_Format_Controls, unicode::Block::Siddham, unicode::Block::Sinhala, unicode::Block::Sinhala_Archaic_Numbers, unicode::Block::Small_Form_Variants, unicode::Block::Small_Kana_Extension, unicode::Block::Sogdian, unicode::Block::Sora_Sompeng, unicode::Block::Soyombo, unicode::Block::Spacing_Modifier_Letters, unicode::Block::Specials, unicode::Block::Sundanese, unicode::Block::Sundanese_Supplement, unicode::Block::Superscripts_and_Subscripts, unicode::Block::Supplemental_Arrows_A, unicode::Block::Supplemental_Arrows_B, unicode::Block::Supplemental_Arrows_C, unicode::Block::Supplemental_Mathematical_Operators, unicode::Block::Supplemental_Punctuation, unicode::Block::Supplemental_Symbols_and_Pictographs, unicode::Block::Supplementary_Private_Use_Area_A, unicode::Block::Supplementary_Private_Use_Area_B, unicode::Block::Sutton_SignWriting, unicode::Block::Syloti_Nagri, unicode::Block::Symbols_and_Pictographs_Extended_A, unicode::Block::Symbols_for_Legacy_Computing, unicode::Block::Syriac, unicode::Block::Syriac_Supplement, unicode::Block::Tagalog, unicode::Block::Tagbanwa, unicode::Block::Tags, unicode::Block::Tai_Le, unicode::Block::Tai_Tham, unicode::Block::Tai_Viet, unicode::Block::Tai_Xuan_Jing_Symbols, unicode::Block::Takri, unicode::Block::Tamil, unicode::Block::Tamil_Supplement, unicode::Block::Tangsa, unicode::Block::Tangut, unicode::Block::Tangut_Components, unicode::Block::Tangut_Supplement, unicode::Block::Telugu, unicode::Block::Thaana, unicode::Block::Thai, unicode::Block::Tibetan, unicode::Block::Tifinagh, unicode::Block::Tirhuta, unicode::Block::Toto, unicode::Block::Transport_and_Map_Symbols, unicode::Block::Ugaritic, unicode::Block::Unified_Canadian_Aboriginal_Syllabics, unicode::Block::Unified_Canadian_Aboriginal_Syllabics_Extended, unicode::Block::Unified_Canadian_Aboriginal_Syllabics_Extended_A, unicode::Block::Vai, unicode::Block::Variation_Selectors, unicode::Block::Variation_Selectors_Supplement, unicode::Block::Vedic_Extensions, unicode::Block::Vertical_Forms, unicode::Block::Vithkuqi, unicode::Block::Wancho, unicode::Block::Warang_Citi, unicode::Block::Yezidi, unicode::Block::Yi_Radicals, unicode::Block::Yi_Syllables, unicode::Block::Yijing_Hexagram_Symbols, unicode::Block::Zanabazar_Square, unicode::Block::Znamenny_Musical_Notation };
static constexpr unicode::Grapheme_Cluster_Break gcb[] = { unicode::Grapheme_Cluster_Break::Undefined, unicode::Grapheme_Cluster_Break::Other, unicode::Grapheme_Cluster_Break::CR, unicode::Grapheme_Cluster_Break::Control, unicode::Grapheme_Cluster_Break::Extend, unicode::Grapheme_Cluster_Break::L, unicode::Grapheme_Cluster_Break::LF, unicode::Grapheme_Cluster_Break::LV, unicode::Grapheme_Cluster_Break::LVT, unicode::Grapheme_Cluster_Break::Prepend, unicode::Grapheme_Cluster_Break::Regional_Indicator, unicode::Grapheme_Cluster_Break::SpacingMark, unicode::Grapheme_Cluster_Break::T, unicode::Grapheme_Cluster_Break::V, unicode::Grapheme_Cluster_Break::ZWJ };
static constexpr unicode::EastAsianWidth eaw[] = { unicode::EastAsianWidth::Unspecified, unicode::EastAsianWidth::Ambiguous, unicode::EastAsianWidth::FullWidth, unicode::EastAsianWidth::HalfWidth, unicode::EastAsianWidth::Neutral, unicode::EastAsianWidth::Narrow, unicode::EastAsianWidth::Wide };
static constexpr unicode::Core_Property core[] = { unicode::Core_Property::Alphabetic, unicode::Core_Property::Case_Ignorable, unicode::Core_Property::Cased, unicode::Core_Property::Changes_When_Casefolded, unicode::Core_Property::Changes_When_Casemapped, unicode::Core_Property::Changes_When_Lowercased, unicode::Core_Property::Changes_When_Titlecased, unicode::Core_Property::Changes_When_Uppercased, unicode::Core_Property::Default_Ignorable_Code_Point, unicode::Core_Property::Grapheme_Base, unicode::Core_Property::Grapheme_Extend, unicode::Core_Property::Grapheme_Link, unicode::Core_Property::ID_Continue, unicode::Core_Property::ID_Start, unicode::Core_Property::Lowercase, unicode::Core_Property::Math, unicode::Core_Property::Uppercase, unicode::Core_Property::XID_Continue, unicode::Core_Property::XID_Start };
static constexpr unicode::Plane plane[] = { unicode::Plane::Unassigned, unicode::Plane::Basic_Multilingual_Plane, unicode::Plane::Supplementary_Ideographic_Plane, unicode::Plane::Supplementary_Multilingual_Plane, unicode::Plane::Supplementary_Private_Use_Area_Plane, unicode::Plane::Supplementary_Special_purpose_Plane, unicode::Plane::Tertiary_Ideographic_Plane };
static constexpr unicode::Age age[] = { unicode::Age::Unassigned, unicode::Age::V1_1, unicode::Age::V2_0, unicode::Age::V2_1, unicode::Age::V3_0, unicode::Age::V3_1, unicode::Age::V3_2, unicode::Age::V4_0, unicode::Age::V4_1, unicode::Age::V5_0, unicode::Age::V5_1, unicode::Age::V5_2, unicode::Age::V6_0, unicode::Age::V6_1, unicode::Age::V6_2, unicode::Age::V6_3, unicode::Age::V7_0, unicode::Age::V8_0, unicode::Age::V9_0, unicode::Age::V10_0, unicode::Age::V11_0, unicode::Age::V12_0, unicode::Age::V12_1, unicode::Age::V13_0, unicode::Age::V14_0, unicode::Age::V15_0, unicode::Age::V15_1 };
static constexpr unicode::Indic_Conjunct_Break incb[] = { unicode::Indic_Conjunct_Break::None, unicode::Indic_Conjunct_Break::Consonant, unicode::Indic_Conjunct_Break::Extend, unicode::Indic_Conjunct_Break::Linker };
static constexpr unicode::Word_Break wb[] = { unicode::Word_Break::Other, unicode::Word_Break::ALetter, unicode::Word_Break::CR, unicode::Word_Break::Double_Quote, unicode::Word_Break::Extend, unicode::Word_Break::ExtendNumLet, unicode::Word_Break::Format, unicode::Word_Break::Hebrew_Letter, unicode::Word_Break::Katakana, unicode::Word_Break::LF, unicode::Word_Break::MidLetter, unicode::Word_Break::MidNum, unicode::Word_Break::MidNumLet, unicode::Word_Break::Newline, unicode::Word_Break::Numeric, unicode::Word_Break::Regional_Indicator, unicode::Word_Break::Single_Quote, unicode::Word_Break::WSegSpace, unicode::Word_Break::ZWJ };
static constexpr unicode::EmojiSegmentationCategory esc[] = { unicode::EmojiSegmentationCategory::Invalid, unicode::EmojiSegmentationCategory::Emoji, unicode::EmojiSegmentationCategory::EmojiTextPresentation, unicode::EmojiSegmentationCategory::EmojiEmojiPresentation, unicode::EmojiSegmentationCategory::EmojiModifierBase, unicode::EmojiSegmentationCategory::EmojiModifier, unicode::EmojiSegmentationCategory::EmojiVSBase, unicode::EmojiSegmentationCategory::RegionalIndicator, unicode::EmojiSegmentationCategory::KeyCapBase, unicode::EmojiSegmentationCategory::CombiningEnclosingKeyCap, unicode::EmojiSegmentationCategory::CombiningEnclosingCircleBackslash, unicode::EmojiSegmentationCategory::ZWJ, unicode::EmojiSegmentationCategory::VS15, unicode::EmojiSegmentationCategory::VS16, unicode::EmojiSegmentationCategory::TagBase, unicode::EmojiSegmentationCategory::TagSequence, unicode::EmojiSegmentationCategory::TagTerm };
static constexpr unicode::East_Asian_Width eaw2[] = { unicode::East_Asian_Width::Neutral, unicode::East_Asian_Width::Ambiguous, unicode::East_Asian_Width::Fullwidth, unicode::East_Asian_Width::Halfwidth, unicode::East_Asian_Width::Neutral, unicode::East_Asian_Width::Narrow, unicode::East_Asian_Width::Wide };
static constexpr char const* age_name[] = { "1.1", "2.0", "2.1", "3.0", "3.1", "3.2", "4.0", "4.1", "5.0", "5.1", "5.2", "6.0", "6.1", "6.2", "6.3", "7.0", "8.0", "9.0", "10.0", "11.0", "12.0", "12.1", "13.0", "14.0", "15.0", "15.1" };
}
