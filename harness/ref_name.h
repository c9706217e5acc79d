// Generated by lib/ucdref.py (python3 lib/ucdref.py enums): enumerators of the library by name, with the text they are to print as.
#pragma once
static constexpr unicode::Age v_Age[] = { unicode::Age::Unassigned, unicode::Age::V10_0, unicode::Age::V11_0, unicode::Age::V12_0, unicode::Age::V12_1, unicode::Age::V13_0, unicode::Age::V14_0, unicode::Age::V15_0, unicode::Age::V15_1, unicode::Age::V1_1, unicode::Age::V2_0, unicode::Age::V2_1, unicode::Age::V3_0, unicode::Age::V3_1, unicode::Age::V3_2, unicode::Age::V4_0, unicode::Age::V4_1, unicode::Age::V5_0, unicode::Age::V5_1, unicode::Age::V5_2, unicode::Age::V6_0, unicode::Age::V6_1, unicode::Age::V6_2, unicode::Age::V6_3, unicode::Age::V7_0, unicode::Age::V8_0, unicode::Age::V9_0 };
static constexpr char const* n_Age[] = { "Unassigned", "V10_0", "V11_0", "V12_0", "V12_1", "V13_0", "V14_0", "V15_0", "V15_1", "V1_1", "V2_0", "V2_1", "V3_0", "V3_1", "V3_2", "V4_0", "V4_1", "V5_0", "V5_1", "V5_2", "V6_0", "V6_1", "V6_2", "V6_3", "V7_0", "V8_0", "V9_0" };
static constexpr unicode::Bidi_Class v_Bidi_Class[] = { unicode::Bidi_Class::Arabic_Letter, unicode::Bidi_Class::Arabic_Number, unicode::Bidi_Class::Boundary_Neutral, unicode::Bidi_Class::Common_Separator, unicode::Bidi_Class::European_Number, unicode::Bidi_Class::European_Separator, unicode::Bidi_Class::European_Terminator, unicode::Bidi_Class::First_Strong_Isolate, unicode::Bidi_Class::Left_To_Right, unicode::Bidi_Class::Left_To_Right_Embedding, unicode::Bidi_Class::Left_To_Right_Isolate, unicode::Bidi_Class::Left_To_Right_Override, unicode::Bidi_Class::Nonspacing_Mark, unicode::Bidi_Class::Other_Neutral, unicode::Bidi_Class::Paragraph_Separator, unicode::Bidi_Class::Pop_Directional_Format, unicode::Bidi_Class::Pop_Directional_Isolate, unicode::Bidi_Class::Right_To_Left, unicode::Bidi_Class::Right_To_Left_Embedding, unicode::Bidi_Class::Right_To_Left_Isolate, unicode::Bidi_Class::Right_To_Left_Override, unicode::Bidi_Class::Segment_Separator, unicode::Bidi_Class::White_Space };
static constexpr char const* n_Bidi_Class[] = { "Arabic_Letter", "Arabic_Number", "Boundary_Neutral", "Common_Separator", "European_Number", "European_Separator", "European_Terminator", "First_Strong_Isolate", "Left_To_Right", "Left_To_Right_Embedding", "Left_To_Right_Isolate", "Left_To_Right_Override", "Nonspacing_Mark", "Other_Neutral", "Paragraph_Separator", "Pop_Directional_Format", "Pop_Directional_Isolate", "Right_To_Left", "Right_To_Left_Embedding", "Right_To_Left_Isolate", "Right_To_Left_Override", "Segment_Separator", "White_Space" };
static constexpr unicode::Bidi_Paired_Bracket_Type v_Bidi_Paired_Bracket_Type[] = { unicode::Bidi_Paired_Bracket_Type::Close, unicode::Bidi_Paired_Bracket_Type::None, unicode::Bidi_Paired_Bracket_Type::Open };
static constexpr char const* n_Bidi_Paired_Bracket_Type[] = { "Close", "None", "Open" };
static constexpr unicode::Canonical_Combining_Class v_Canonical_Combining_Class[] = { unicode::Canonical_Combining_Class::A, unicode::Canonical_Combining_Class::AL, unicode::Canonical_Combining_Class::AR, unicode::Canonical_Combining_Class::ATA, unicode::Canonical_Combining_Class::ATAR, unicode::Canonical_Combining_Class::ATB, unicode::Canonical_Combining_Class::ATBL, unicode::Canonical_Combining_Class::B, unicode::Canonical_Combining_Class::BL, unicode::Canonical_Combining_Class::BR, unicode::Canonical_Combining_Class::CCC10, unicode::Canonical_Combining_Class::CCC103, unicode::Canonical_Combining_Class::CCC107, unicode::Canonical_Combining_Class::CCC11, unicode::Canonical_Combining_Class::CCC118, unicode::Canonical_Combining_Class::CCC12, unicode::Canonical_Combining_Class::CCC122, unicode::Canonical_Combining_Class::CCC129, unicode::Canonical_Combining_Class::CCC13, unicode::Canonical_Combining_Class::CCC130, unicode::Canonical_Combining_Class::CCC132, unicode::Canonical_Combining_Class::CCC133, unicode::Canonical_Combining_Class::CCC14, unicode::Canonical_Combining_Class::CCC15, unicode::Canonical_Combining_Class::CCC16, unicode::Canonical_Combining_Class::CCC17, unicode::Canonical_Combining_Class::CCC18, unicode::Canonical_Combining_Class::CCC19, unicode::Canonical_Combining_Class::CCC20, unicode::Canonical_Combining_Class::CCC21, unicode::Canonical_Combining_Class::CCC22, unicode::Canonical_Combining_Class::CCC23, unicode::Canonical_Combining_Class::CCC24, unicode::Canonical_Combining_Class::CCC25, unicode::Canonical_Combining_Class::CCC26, unicode::Canonical_Combining_Class::CCC27, unicode::Canonical_Combining_Class::CCC28, unicode::Canonical_Combining_Class::CCC29, unicode::Canonical_Combining_Class::CCC30, unicode::Canonical_Combining_Class::CCC31, unicode::Canonical_Combining_Class::CCC32, unicode::Canonical_Combining_Class::CCC33, unicode::Canonical_Combining_Class::CCC34, unicode::Canonical_Combining_Class::CCC35, unicode::Canonical_Combining_Class::CCC36, unicode::Canonical_Combining_Class::CCC84, unicode::Canonical_Combining_Class::CCC91, unicode::Canonical_Combining_Class::DA, unicode::Canonical_Combining_Class::DB, unicode::Canonical_Combining_Class::HANR, unicode::Canonical_Combining_Class::IS, unicode::Canonical_Combining_Class::KV, unicode::Canonical_Combining_Class::L, unicode::Canonical_Combining_Class::NK, unicode::Canonical_Combining_Class::NR, unicode::Canonical_Combining_Class::OV, unicode::Canonical_Combining_Class::R, unicode::Canonical_Combining_Class::VR };
static constexpr char const* n_Canonical_Combining_Class[] = { "A", "AL", "AR", "ATA", "ATAR", "ATB", "ATBL", "B", "BL", "BR", "CCC10", "CCC103", "CCC107", "CCC11", "CCC118", "CCC12", "CCC122", "CCC129", "CCC13", "CCC130", "CCC132", "CCC133", "CCC14", "CCC15", "CCC16", "CCC17", "CCC18", "CCC19", "CCC20", "CCC21", "CCC22", "CCC23", "CCC24", "CCC25", "CCC26", "CCC27", "CCC28", "CCC29", "CCC30", "CCC31", "CCC32", "CCC33", "CCC34", "CCC35", "CCC36", "CCC84", "CCC91", "DA", "DB", "HANR", "IS", "KV", "L", "NK", "NR", "OV", "R", "VR" };
static constexpr unicode::Decomposition_Type v_Decomposition_Type[] = { unicode::Decomposition_Type::Canonical, unicode::Decomposition_Type::Circle, unicode::Decomposition_Type::Compat, unicode::Decomposition_Type::Final, unicode::Decomposition_Type::Font, unicode::Decomposition_Type::Fraction, unicode::Decomposition_Type::Initial, unicode::Decomposition_Type::Isolated, unicode::Decomposition_Type::Medial, unicode::Decomposition_Type::Narrow, unicode::Decomposition_Type::Nobreak, unicode::Decomposition_Type::None, unicode::Decomposition_Type::Small, unicode::Decomposition_Type::Square, unicode::Decomposition_Type::Sub, unicode::Decomposition_Type::Super, unicode::Decomposition_Type::Vertical, unicode::Decomposition_Type::Wide };
static constexpr char const* n_Decomposition_Type[] = { "Canonical", "Circle", "Compat", "Final", "Font", "Fraction", "Initial", "Isolated", "Medial", "Narrow", "Nobreak", "None", "Small", "Square", "Sub", "Super", "Vertical", "Wide" };
static constexpr unicode::East_Asian_Width v_East_Asian_Width[] = { unicode::East_Asian_Width::Ambiguous, unicode::East_Asian_Width::Fullwidth, unicode::East_Asian_Width::Halfwidth, unicode::East_Asian_Width::Narrow, unicode::East_Asian_Width::Neutral, unicode::East_Asian_Width::Wide };
static constexpr char const* n_East_Asian_Width[] = { "Ambiguous", "Fullwidth", "Halfwidth", "Narrow", "Neutral", "Wide" };
static constexpr unicode::Grapheme_Cluster_Break v_Grapheme_Cluster_Break[] = { unicode::Grapheme_Cluster_Break::CR, unicode::Grapheme_Cluster_Break::Control, unicode::Grapheme_Cluster_Break::E_Base, unicode::Grapheme_Cluster_Break::E_Base_GAZ, unicode::Grapheme_Cluster_Break::E_Modifier, unicode::Grapheme_Cluster_Break::Extend, unicode::Grapheme_Cluster_Break::Glue_After_Zwj, unicode::Grapheme_Cluster_Break::L, unicode::Grapheme_Cluster_Break::LF, unicode::Grapheme_Cluster_Break::LV, unicode::Grapheme_Cluster_Break::LVT, unicode::Grapheme_Cluster_Break::Other, unicode::Grapheme_Cluster_Break::Prepend, unicode::Grapheme_Cluster_Break::Regional_Indicator, unicode::Grapheme_Cluster_Break::SpacingMark, unicode::Grapheme_Cluster_Break::T, unicode::Grapheme_Cluster_Break::V, unicode::Grapheme_Cluster_Break::ZWJ, unicode::Grapheme_Cluster_Break::Undefined };
static constexpr char const* n_Grapheme_Cluster_Break[] = { "CR", "Control", "E_Base", "E_Base_GAZ", "E_Modifier", "Extend", "Glue_After_Zwj", "L", "LF", "LV", "LVT", "Other", "Prepend", "Regional_Indicator", "SpacingMark", "T", "V", "ZWJ", "Undefined" };
static constexpr unicode::Hangul_Syllable_Type v_Hangul_Syllable_Type[] = { unicode::Hangul_Syllable_Type::LVT_Syllable, unicode::Hangul_Syllable_Type::LV_Syllable, unicode::Hangul_Syllable_Type::Leading_Jamo, unicode::Hangul_Syllable_Type::Not_Applicable, unicode::Hangul_Syllable_Type::Trailing_Jamo, unicode::Hangul_Syllable_Type::Vowel_Jamo };
static constexpr char const* n_Hangul_Syllable_Type[] = { "LVT_Syllable", "LV_Syllable", "Leading_Jamo", "Not_Applicable", "Trailing_Jamo", "Vowel_Jamo" };
static constexpr unicode::Indic_Conjunct_Break v_Indic_Conjunct_Break[] = { unicode::Indic_Conjunct_Break::Consonant, unicode::Indic_Conjunct_Break::Extend, unicode::Indic_Conjunct_Break::Linker, unicode::Indic_Conjunct_Break::None };
static constexpr char const* n_Indic_Conjunct_Break[] = { "Consonant", "Extend", "Linker", "None" };
static constexpr unicode::Indic_Positional_Category v_Indic_Positional_Category[] = { unicode::Indic_Positional_Category::Bottom, unicode::Indic_Positional_Category::Bottom_And_Left, unicode::Indic_Positional_Category::Bottom_And_Right, unicode::Indic_Positional_Category::Left, unicode::Indic_Positional_Category::Left_And_Right, unicode::Indic_Positional_Category::NA, unicode::Indic_Positional_Category::Overstruck, unicode::Indic_Positional_Category::Right, unicode::Indic_Positional_Category::Top, unicode::Indic_Positional_Category::Top_And_Bottom, unicode::Indic_Positional_Category::Top_And_Bottom_And_Left, unicode::Indic_Positional_Category::Top_And_Bottom_And_Right, unicode::Indic_Positional_Category::Top_And_Left, unicode::Indic_Positional_Category::Top_And_Left_And_Right, unicode::Indic_Positional_Category::Top_And_Right, unicode::Indic_Positional_Category::Visual_Order_Left };
static constexpr char const* n_Indic_Positional_Category[] = { "Bottom", "Bottom_And_Left", "Bottom_And_Right", "Left", "Left_And_Right", "NA", "Overstruck", "Right", "Top", "Top_And_Bottom", "Top_And_Bottom_And_Left", "Top_And_Bottom_And_Right", "Top_And_Left", "Top_And_Left_And_Right", "Top_And_Right", "Visual_Order_Left" };
static constexpr unicode::Indic_Syllabic_Category v_Indic_Syllabic_Category[] = { unicode::Indic_Syllabic_Category::Avagraha, unicode::Indic_Syllabic_Category::Bindu, unicode::Indic_Syllabic_Category::Brahmi_Joining_Number, unicode::Indic_Syllabic_Category::Cantillation_Mark, unicode::Indic_Syllabic_Category::Consonant, unicode::Indic_Syllabic_Category::Consonant_Dead, unicode::Indic_Syllabic_Category::Consonant_Final, unicode::Indic_Syllabic_Category::Consonant_Head_Letter, unicode::Indic_Syllabic_Category::Consonant_Initial_Postfixed, unicode::Indic_Syllabic_Category::Consonant_Killer, unicode::Indic_Syllabic_Category::Consonant_Medial, unicode::Indic_Syllabic_Category::Consonant_Placeholder, unicode::Indic_Syllabic_Category::Consonant_Preceding_Repha, unicode::Indic_Syllabic_Category::Consonant_Prefixed, unicode::Indic_Syllabic_Category::Consonant_Subjoined, unicode::Indic_Syllabic_Category::Consonant_Succeeding_Repha, unicode::Indic_Syllabic_Category::Consonant_With_Stacker, unicode::Indic_Syllabic_Category::Gemination_Mark, unicode::Indic_Syllabic_Category::Invisible_Stacker, unicode::Indic_Syllabic_Category::Joiner, unicode::Indic_Syllabic_Category::Modifying_Letter, unicode::Indic_Syllabic_Category::Non_Joiner, unicode::Indic_Syllabic_Category::Nukta, unicode::Indic_Syllabic_Category::Number, unicode::Indic_Syllabic_Category::Number_Joiner, unicode::Indic_Syllabic_Category::Other, unicode::Indic_Syllabic_Category::Pure_Killer, unicode::Indic_Syllabic_Category::Register_Shifter, unicode::Indic_Syllabic_Category::Syllable_Modifier, unicode::Indic_Syllabic_Category::Tone_Letter, unicode::Indic_Syllabic_Category::Tone_Mark, unicode::Indic_Syllabic_Category::Virama, unicode::Indic_Syllabic_Category::Visarga, unicode::Indic_Syllabic_Category::Vowel, unicode::Indic_Syllabic_Category::Vowel_Dependent, unicode::Indic_Syllabic_Category::Vowel_Independent };
static constexpr char const* n_Indic_Syllabic_Category[] = { "Avagraha", "Bindu", "Brahmi_Joining_Number", "Cantillation_Mark", "Consonant", "Consonant_Dead", "Consonant_Final", "Consonant_Head_Letter", "Consonant_Initial_Postfixed", "Consonant_Killer", "Consonant_Medial", "Consonant_Placeholder", "Consonant_Preceding_Repha", "Consonant_Prefixed", "Consonant_Subjoined", "Consonant_Succeeding_Repha", "Consonant_With_Stacker", "Gemination_Mark", "Invisible_Stacker", "Joiner", "Modifying_Letter", "Non_Joiner", "Nukta", "Number", "Number_Joiner", "Other", "Pure_Killer", "Register_Shifter", "Syllable_Modifier", "Tone_Letter", "Tone_Mark", "Virama", "Visarga", "Vowel", "Vowel_Dependent", "Vowel_Independent" };
static constexpr unicode::Jamo_Short_Name v_Jamo_Short_Name[] = { unicode::Jamo_Short_Name::A, unicode::Jamo_Short_Name::AE, unicode::Jamo_Short_Name::B, unicode::Jamo_Short_Name::BB, unicode::Jamo_Short_Name::BS, unicode::Jamo_Short_Name::C, unicode::Jamo_Short_Name::D, unicode::Jamo_Short_Name::DD, unicode::Jamo_Short_Name::E, unicode::Jamo_Short_Name::EO, unicode::Jamo_Short_Name::EU, unicode::Jamo_Short_Name::G, unicode::Jamo_Short_Name::GG, unicode::Jamo_Short_Name::GS, unicode::Jamo_Short_Name::H, unicode::Jamo_Short_Name::I, unicode::Jamo_Short_Name::J, unicode::Jamo_Short_Name::JJ, unicode::Jamo_Short_Name::K, unicode::Jamo_Short_Name::L, unicode::Jamo_Short_Name::LB, unicode::Jamo_Short_Name::LG, unicode::Jamo_Short_Name::LH, unicode::Jamo_Short_Name::LM, unicode::Jamo_Short_Name::LP, unicode::Jamo_Short_Name::LS, unicode::Jamo_Short_Name::LT, unicode::Jamo_Short_Name::M, unicode::Jamo_Short_Name::N, unicode::Jamo_Short_Name::NG, unicode::Jamo_Short_Name::NH, unicode::Jamo_Short_Name::NJ, unicode::Jamo_Short_Name::O, unicode::Jamo_Short_Name::OE, unicode::Jamo_Short_Name::P, unicode::Jamo_Short_Name::R, unicode::Jamo_Short_Name::S, unicode::Jamo_Short_Name::SS, unicode::Jamo_Short_Name::T, unicode::Jamo_Short_Name::U, unicode::Jamo_Short_Name::WA, unicode::Jamo_Short_Name::WAE, unicode::Jamo_Short_Name::WE, unicode::Jamo_Short_Name::WEO, unicode::Jamo_Short_Name::WI, unicode::Jamo_Short_Name::YA, unicode::Jamo_Short_Name::YAE, unicode::Jamo_Short_Name::YE, unicode::Jamo_Short_Name::YEO, unicode::Jamo_Short_Name::YI, unicode::Jamo_Short_Name::YO, unicode::Jamo_Short_Name::YU };
static constexpr char const* n_Jamo_Short_Name[] = { "A", "AE", "B", "BB", "BS", "C", "D", "DD", "E", "EO", "EU", "G", "GG", "GS", "H", "I", "J", "JJ", "K", "L", "LB", "LG", "LH", "LM", "LP", "LS", "LT", "M", "N", "NG", "NH", "NJ", "O", "OE", "P", "R", "S", "SS", "T", "U", "WA", "WAE", "WE", "WEO", "WI", "YA", "YAE", "YE", "YEO", "YI", "YO", "YU" };
static constexpr unicode::Joining_Group v_Joining_Group[] = { unicode::Joining_Group::African_Feh, unicode::Joining_Group::African_Noon, unicode::Joining_Group::African_Qaf, unicode::Joining_Group::Ain, unicode::Joining_Group::Alaph, unicode::Joining_Group::Alef, unicode::Joining_Group::Beh, unicode::Joining_Group::Beth, unicode::Joining_Group::Burushaski_Yeh_Barree, unicode::Joining_Group::Dal, unicode::Joining_Group::Dalath_Rish, unicode::Joining_Group::E, unicode::Joining_Group::Farsi_Yeh, unicode::Joining_Group::Fe, unicode::Joining_Group::Feh, unicode::Joining_Group::Final_Semkath, unicode::Joining_Group::Gaf, unicode::Joining_Group::Gamal, unicode::Joining_Group::Hah, unicode::Joining_Group::Hamza_On_Heh_Goal, unicode::Joining_Group::Hanifi_Rohingya_Kinna_Ya, unicode::Joining_Group::Hanifi_Rohingya_Pa, unicode::Joining_Group::He, unicode::Joining_Group::Heh, unicode::Joining_Group::Heh_Goal, unicode::Joining_Group::Heth, unicode::Joining_Group::Kaf, unicode::Joining_Group::Kaph, unicode::Joining_Group::Khaph, unicode::Joining_Group::Knotted_Heh, unicode::Joining_Group::Lam, unicode::Joining_Group::Lamadh, unicode::Joining_Group::Malayalam_Bha, unicode::Joining_Group::Malayalam_Ja, unicode::Joining_Group::Malayalam_Lla, unicode::Joining_Group::Malayalam_Llla, unicode::Joining_Group::Malayalam_Nga, unicode::Joining_Group::Malayalam_Nna, unicode::Joining_Group::Malayalam_Nnna, unicode::Joining_Group::Malayalam_Nya, unicode::Joining_Group::Malayalam_Ra, unicode::Joining_Group::Malayalam_Ssa, unicode::Joining_Group::Malayalam_Tta, unicode::Joining_Group::Manichaean_Aleph, unicode::Joining_Group::Manichaean_Ayin, unicode::Joining_Group::Manichaean_Beth, unicode::Joining_Group::Manichaean_Daleth, unicode::Joining_Group::Manichaean_Dhamedh, unicode::Joining_Group::Manichaean_Five, unicode::Joining_Group::Manichaean_Gimel, unicode::Joining_Group::Manichaean_Heth, unicode::Joining_Group::Manichaean_Hundred, unicode::Joining_Group::Manichaean_Kaph, unicode::Joining_Group::Manichaean_Lamedh, unicode::Joining_Group::Manichaean_Mem, unicode::Joining_Group::Manichaean_Nun, unicode::Joining_Group::Manichaean_One, unicode::Joining_Group::Manichaean_Pe, unicode::Joining_Group::Manichaean_Qoph, unicode::Joining_Group::Manichaean_Resh, unicode::Joining_Group::Manichaean_Sadhe, unicode::Joining_Group::Manichaean_Samekh, unicode::Joining_Group::Manichaean_Taw, unicode::Joining_Group::Manichaean_Ten, unicode::Joining_Group::Manichaean_Teth, unicode::Joining_Group::Manichaean_Thamedh, unicode::Joining_Group::Manichaean_Twenty, unicode::Joining_Group::Manichaean_Waw, unicode::Joining_Group::Manichaean_Yodh, unicode::Joining_Group::Manichaean_Zayin, unicode::Joining_Group::Meem, unicode::Joining_Group::Mim, unicode::Joining_Group::No_Joining_Group, unicode::Joining_Group::Noon, unicode::Joining_Group::Nun, unicode::Joining_Group::Nya, unicode::Joining_Group::Pe, unicode::Joining_Group::Qaf, unicode::Joining_Group::Qaph, unicode::Joining_Group::Reh, unicode::Joining_Group::Reversed_Pe, unicode::Joining_Group::Rohingya_Yeh, unicode::Joining_Group::Sad, unicode::Joining_Group::Sadhe, unicode::Joining_Group::Seen, unicode::Joining_Group::Semkath, unicode::Joining_Group::Shin, unicode::Joining_Group::Straight_Waw, unicode::Joining_Group::Swash_Kaf, unicode::Joining_Group::Syriac_Waw, unicode::Joining_Group::Tah, unicode::Joining_Group::Taw, unicode::Joining_Group::Teh_Marbuta, unicode::Joining_Group::Teth, unicode::Joining_Group::Thin_Yeh, unicode::Joining_Group::Vertical_Tail, unicode::Joining_Group::Waw, unicode::Joining_Group::Yeh, unicode::Joining_Group::Yeh_Barree, unicode::Joining_Group::Yeh_With_Tail, unicode::Joining_Group::Yudh, unicode::Joining_Group::Yudh_He, unicode::Joining_Group::Zain, unicode::Joining_Group::Zhain };
static constexpr char const* n_Joining_Group[] = { "African_Feh", "African_Noon", "African_Qaf", "Ain", "Alaph", "Alef", "Beh", "Beth", "Burushaski_Yeh_Barree", "Dal", "Dalath_Rish", "E", "Farsi_Yeh", "Fe", "Feh", "Final_Semkath", "Gaf", "Gamal", "Hah", "Hamza_On_Heh_Goal", "Hanifi_Rohingya_Kinna_Ya", "Hanifi_Rohingya_Pa", "He", "Heh", "Heh_Goal", "Heth", "Kaf", "Kaph", "Khaph", "Knotted_Heh", "Lam", "Lamadh", "Malayalam_Bha", "Malayalam_Ja", "Malayalam_Lla", "Malayalam_Llla", "Malayalam_Nga", "Malayalam_Nna", "Malayalam_Nnna", "Malayalam_Nya", "Malayalam_Ra", "Malayalam_Ssa", "Malayalam_Tta", "Manichaean_Aleph", "Manichaean_Ayin", "Manichaean_Beth", "Manichaean_Daleth", "Manichaean_Dhamedh", "Manichaean_Five", "Manichaean_Gimel", "Manichaean_Heth", "Manichaean_Hundred", "Manichaean_Kaph", "Manichaean_Lamedh", "Manichaean_Mem", "Manichaean_Nun", "Manichaean_One", "Manichaean_Pe", "Manichaean_Qoph", "Manichaean_Resh", "Manichaean_Sadhe", "Manichaean_Samekh", "Manichaean_Taw", "Manichaean_Ten", "Manichaean_Teth", "Manichaean_Thamedh", "Manichaean_Twenty", "Manichaean_Waw", "Manichaean_Yodh", "Manichaean_Zayin", "Meem", "Mim", "No_Joining_Group", "Noon", "Nun", "Nya", "Pe", "Qaf", "Qaph", "Reh", "Reversed_Pe", "Rohingya_Yeh", "Sad", "Sadhe", "Seen", "Semkath", "Shin", "Straight_Waw", "Swash_Kaf", "Syriac_Waw", "Tah", "Taw", "Teh_Marbuta", "Teth", "Thin_Yeh", "Vertical_Tail", "Waw", "Yeh", "Yeh_Barree", "Yeh_With_Tail", "Yudh", "Yudh_He", "Zain", "Zhain" };
static constexpr unicode::Joining_Type v_Joining_Type[] = { unicode::Joining_Type::Dual_Joining, unicode::Joining_Type::Join_Causing, unicode::Joining_Type::Left_Joining, unicode::Joining_Type::Non_Joining, unicode::Joining_Type::Right_Joining, unicode::Joining_Type::Transparent };
static constexpr char const* n_Joining_Type[] = { "Dual_Joining", "Join_Causing", "Left_Joining", "Non_Joining", "Right_Joining", "Transparent" };
static constexpr unicode::Line_Break v_Line_Break[] = { unicode::Line_Break::Aksara, unicode::Line_Break::Aksara_Prebase, unicode::Line_Break::Aksara_Start, unicode::Line_Break::Alphabetic, unicode::Line_Break::Ambiguous, unicode::Line_Break::Break_After, unicode::Line_Break::Break_Before, unicode::Line_Break::Break_Both, unicode::Line_Break::Break_Symbols, unicode::Line_Break::Carriage_Return, unicode::Line_Break::Close_Parenthesis, unicode::Line_Break::Close_Punctuation, unicode::Line_Break::Combining_Mark, unicode::Line_Break::Complex_Context, unicode::Line_Break::Conditional_Japanese_Starter, unicode::Line_Break::Contingent_Break, unicode::Line_Break::E_Base, unicode::Line_Break::E_Modifier, unicode::Line_Break::Exclamation, unicode::Line_Break::Glue, unicode::Line_Break::H2, unicode::Line_Break::H3, unicode::Line_Break::Hebrew_Letter, unicode::Line_Break::Hyphen, unicode::Line_Break::Ideographic, unicode::Line_Break::Infix_Numeric, unicode::Line_Break::Inseparable, unicode::Line_Break::JL, unicode::Line_Break::JT, unicode::Line_Break::JV, unicode::Line_Break::Line_Feed, unicode::Line_Break::Mandatory_Break, unicode::Line_Break::Next_Line, unicode::Line_Break::Nonstarter, unicode::Line_Break::Numeric, unicode::Line_Break::Open_Punctuation, unicode::Line_Break::Postfix_Numeric, unicode::Line_Break::Prefix_Numeric, unicode::Line_Break::Quotation, unicode::Line_Break::Regional_Indicator, unicode::Line_Break::Space, unicode::Line_Break::Surrogate, unicode::Line_Break::Unknown, unicode::Line_Break::Virama, unicode::Line_Break::Virama_Final, unicode::Line_Break::Word_Joiner, unicode::Line_Break::ZWJ, unicode::Line_Break::ZWSpace };
static constexpr char const* n_Line_Break[] = { "Aksara", "Aksara_Prebase", "Aksara_Start", "Alphabetic", "Ambiguous", "Break_After", "Break_Before", "Break_Both", "Break_Symbols", "Carriage_Return", "Close_Parenthesis", "Close_Punctuation", "Combining_Mark", "Complex_Context", "Conditional_Japanese_Starter", "Contingent_Break", "E_Base", "E_Modifier", "Exclamation", "Glue", "H2", "H3", "Hebrew_Letter", "Hyphen", "Ideographic", "Infix_Numeric", "Inseparable", "JL", "JT", "JV", "Line_Feed", "Mandatory_Break", "Next_Line", "Nonstarter", "Numeric", "Open_Punctuation", "Postfix_Numeric", "Prefix_Numeric", "Quotation", "Regional_Indicator", "Space", "Surrogate", "Unknown", "Virama", "Virama_Final", "Word_Joiner", "ZWJ", "ZWSpace" };
static constexpr unicode::NFC_Quick_Check v_NFC_Quick_Check[] = { unicode::NFC_Quick_Check::Maybe, unicode::NFC_Quick_Check::No, unicode::NFC_Quick_Check::Yes };
static constexpr char const* n_NFC_Quick_Check[] = { "Maybe", "No", "Yes" };
static constexpr unicode::NFKC_Quick_Check v_NFKC_Quick_Check[] = { unicode::NFKC_Quick_Check::Maybe, unicode::NFKC_Quick_Check::No, unicode::NFKC_Quick_Check::Yes };
static constexpr char const* n_NFKC_Quick_Check[] = { "Maybe", "No", "Yes" };
static constexpr unicode::Numeric_Type v_Numeric_Type[] = { unicode::Numeric_Type::Decimal, unicode::Numeric_Type::Digit, unicode::Numeric_Type::None, unicode::Numeric_Type::Numeric };
static constexpr char const* n_Numeric_Type[] = { "Decimal", "Digit", "None", "Numeric" };
static constexpr unicode::Sentence_Break v_Sentence_Break[] = { unicode::Sentence_Break::ATerm, unicode::Sentence_Break::CR, unicode::Sentence_Break::Close, unicode::Sentence_Break::Extend, unicode::Sentence_Break::Format, unicode::Sentence_Break::LF, unicode::Sentence_Break::Lower, unicode::Sentence_Break::Numeric, unicode::Sentence_Break::OLetter, unicode::Sentence_Break::Other, unicode::Sentence_Break::SContinue, unicode::Sentence_Break::STerm, unicode::Sentence_Break::Sep, unicode::Sentence_Break::Sp, unicode::Sentence_Break::Upper };
static constexpr char const* n_Sentence_Break[] = { "ATerm", "CR", "Close", "Extend", "Format", "LF", "Lower", "Numeric", "OLetter", "Other", "SContinue", "STerm", "Sep", "Sp", "Upper" };
static constexpr unicode::Vertical_Orientation v_Vertical_Orientation[] = { unicode::Vertical_Orientation::Rotated, unicode::Vertical_Orientation::Transformed_Rotated, unicode::Vertical_Orientation::Transformed_Upright, unicode::Vertical_Orientation::Upright };
static constexpr char const* n_Vertical_Orientation[] = { "Rotated", "Transformed_Rotated", "Transformed_Upright", "Upright" };
static constexpr unicode::Word_Break v_Word_Break[] = { unicode::Word_Break::ALetter, unicode::Word_Break::CR, unicode::Word_Break::Double_Quote, unicode::Word_Break::E_Base, unicode::Word_Break::E_Base_GAZ, unicode::Word_Break::E_Modifier, unicode::Word_Break::Extend, unicode::Word_Break::ExtendNumLet, unicode::Word_Break::Format, unicode::Word_Break::Glue_After_Zwj, unicode::Word_Break::Hebrew_Letter, unicode::Word_Break::Katakana, unicode::Word_Break::LF, unicode::Word_Break::MidLetter, unicode::Word_Break::MidNum, unicode::Word_Break::MidNumLet, unicode::Word_Break::Newline, unicode::Word_Break::Numeric, unicode::Word_Break::Other, unicode::Word_Break::Regional_Indicator, unicode::Word_Break::Single_Quote, unicode::Word_Break::WSegSpace, unicode::Word_Break::ZWJ };
static constexpr char const* n_Word_Break[] = { "ALetter", "CR", "Double_Quote", "E_Base", "E_Base_GAZ", "E_Modifier", "Extend", "ExtendNumLet", "Format", "Glue_After_Zwj", "Hebrew_Letter", "Katakana", "LF", "MidLetter", "MidNum", "MidNumLet", "Newline", "Numeric", "Other", "Regional_Indicator", "Single_Quote", "WSegSpace", "ZWJ" };
static constexpr unicode::General_Category v_General_Category[] = { unicode::General_Category::Unspecified, unicode::General_Category::Close_Punctuation, unicode::General_Category::Connector_Punctuation, unicode::General_Category::Control, unicode::General_Category::Currency_Symbol, unicode::General_Category::Dash_Punctuation, unicode::General_Category::Decimal_Number, unicode::General_Category::Enclosing_Mark, unicode::General_Category::Final_Punctuation, unicode::General_Category::Format, unicode::General_Category::Initial_Punctuation, unicode::General_Category::Letter_Number, unicode::General_Category::Line_Separator, unicode::General_Category::Lowercase_Letter, unicode::General_Category::Math_Symbol, unicode::General_Category::Modifier_Letter, unicode::General_Category::Modifier_Symbol, unicode::General_Category::Nonspacing_Mark, unicode::General_Category::Open_Punctuation, unicode::General_Category::Other_Letter, unicode::General_Category::Other_Number, unicode::General_Category::Other_Punctuation, unicode::General_Category::Other_Symbol, unicode::General_Category::Paragraph_Separator, unicode::General_Category::Private_Use, unicode::General_Category::Space_Separator, unicode::General_Category::Spacing_Mark, unicode::General_Category::Surrogate, unicode::General_Category::Titlecase_Letter, unicode::General_Category::Unassigned, unicode::General_Category::Uppercase_Letter };
static constexpr char const* n_General_Category[] = { "Unspecified", "Close_Punctuation", "Connector_Punctuation", "Control", "Currency_Symbol", "Dash_Punctuation", "Decimal_Number", "Enclosing_Mark", "Final_Punctuation", "Format", "Initial_Punctuation", "Letter_Number", "Line_Separator", "Lowercase_Letter", "Math_Symbol", "Modifier_Letter", "Modifier_Symbol", "Nonspacing_Mark", "Open_Punctuation", "Other_Letter", "Other_Number", "Other_Punctuation", "Other_Symbol", "Paragraph_Separator", "Private_Use", "Space_Separator", "Spacing_Mark", "Surrogate", "Titlecase_Letter", "Unassigned", "Uppercase_Letter" };
static constexpr unicode::Script v_Script[] = { unicode::Script::Invalid, unicode::Script::Unknown, unicode::Script::Adlam, unicode::Script::Ahom, unicode::Script::Anatolian_Hieroglyphs, unicode::Script::Arabic, unicode::Script::Armenian, unicode::Script::Avestan, unicode::Script::Balinese, unicode::Script::Bamum, unicode::Script::Bassa_Vah, unicode::Script::Batak, unicode::Script::Bengali, unicode::Script::Bhaiksuki, unicode::Script::Bopomofo, unicode::Script::Brahmi, unicode::Script::Braille, unicode::Script::Buginese, unicode::Script::Buhid, unicode::Script::Canadian_Aboriginal, unicode::Script::Carian, unicode::Script::Caucasian_Albanian, unicode::Script::Chakma, unicode::Script::Cham, unicode::Script::Cherokee, unicode::Script::Chorasmian, unicode::Script::Common, unicode::Script::Coptic, unicode::Script::Cuneiform, unicode::Script::Cypriot, unicode::Script::Cypro_Minoan, unicode::Script::Cyrillic, unicode::Script::Deseret, unicode::Script::Devanagari, unicode::Script::Dives_Akuru, unicode::Script::Dogra, unicode::Script::Duployan, unicode::Script::Egyptian_Hieroglyphs, unicode::Script::Elbasan, unicode::Script::Elymaic, unicode::Script::Ethiopic, unicode::Script::Georgian, unicode::Script::Glagolitic, unicode::Script::Gothic, unicode::Script::Grantha, unicode::Script::Greek, unicode::Script::Gujarati, unicode::Script::Gunjala_Gondi, unicode::Script::Gurmukhi, unicode::Script::Han, unicode::Script::Hangul, unicode::Script::Hanifi_Rohingya, unicode::Script::Hanunoo, unicode::Script::Hatran, unicode::Script::Hebrew, unicode::Script::Hiragana, unicode::Script::Imperial_Aramaic, unicode::Script::Inherited, unicode::Script::Inscriptional_Pahlavi, unicode::Script::Inscriptional_Parthian, unicode::Script::Javanese, unicode::Script::Kaithi, unicode::Script::Kannada, unicode::Script::Katakana, unicode::Script::Kawi, unicode::Script::Kayah_Li, unicode::Script::Kharoshthi, unicode::Script::Khitan_Small_Script, unicode::Script::Khmer, unicode::Script::Khojki, unicode::Script::Khudawadi, unicode::Script::Lao, unicode::Script::Latin, unicode::Script::Lepcha, unicode::Script::Limbu, unicode::Script::Linear_A, unicode::Script::Linear_B, unicode::Script::Lisu, unicode::Script::Lycian, unicode::Script::Lydian, unicode::Script::Mahajani, unicode::Script::Makasar, unicode::Script::Malayalam, unicode::Script::Mandaic, unicode::Script::Manichaean, unicode::Script::Marchen, unicode::Script::Masaram_Gondi, unicode::Script::Medefaidrin, unicode::Script::Meetei_Mayek, unicode::Script::Mende_Kikakui, unicode::Script::Meroitic_Cursive, unicode::Script::Meroitic_Hieroglyphs, unicode::Script::Miao, unicode::Script::Modi, unicode::Script::Mongolian, unicode::Script::Mro, unicode::Script::Multani, unicode::Script::Myanmar, unicode::Script::Nabataean, unicode::Script::Nag_Mundari, unicode::Script::Nandinagari, unicode::Script::New_Tai_Lue, unicode::Script::Newa, unicode::Script::Nko, unicode::Script::Nushu, unicode::Script::Nyiakeng_Puachue_Hmong, unicode::Script::Ogham, unicode::Script::Ol_Chiki, unicode::Script::Old_Hungarian, unicode::Script::Old_Italic, unicode::Script::Old_North_Arabian, unicode::Script::Old_Permic, unicode::Script::Old_Persian, unicode::Script::Old_Sogdian, unicode::Script::Old_South_Arabian, unicode::Script::Old_Turkic, unicode::Script::Old_Uyghur, unicode::Script::Oriya, unicode::Script::Osage, unicode::Script::Osmanya, unicode::Script::Pahawh_Hmong, unicode::Script::Palmyrene, unicode::Script::Pau_Cin_Hau, unicode::Script::Phags_Pa, unicode::Script::Phoenician, unicode::Script::Psalter_Pahlavi, unicode::Script::Rejang, unicode::Script::Runic, unicode::Script::Samaritan, unicode::Script::Saurashtra, unicode::Script::Sharada, unicode::Script::Shavian, unicode::Script::Siddham, unicode::Script::SignWriting, unicode::Script::Sinhala, unicode::Script::Sogdian, unicode::Script::Sora_Sompeng, unicode::Script::Soyombo, unicode::Script::Sundanese, unicode::Script::Syloti_Nagri, unicode::Script::Syriac, unicode::Script::Tagalog, unicode::Script::Tagbanwa, unicode::Script::Tai_Le, unicode::Script::Tai_Tham, unicode::Script::Tai_Viet, unicode::Script::Takri, unicode::Script::Tamil, unicode::Script::Tangsa, unicode::Script::Tangut, unicode::Script::Telugu, unicode::Script::Thaana, unicode::Script::Thai, unicode::Script::Tibetan, unicode::Script::Tifinagh, unicode::Script::Tirhuta, unicode::Script::Toto, unicode::Script::Ugaritic, unicode::Script::Vai, unicode::Script::Vithkuqi, unicode::Script::Wancho, unicode::Script::Warang_Citi, unicode::Script::Yezidi, unicode::Script::Yi, unicode::Script::Zanabazar_Square };
static constexpr char const* n_Script[] = { "Invalid", "Unknown", "Adlam", "Ahom", "Anatolian_Hieroglyphs", "Arabic", "Armenian", "Avestan", "Balinese", "Bamum", "Bassa_Vah", "Batak", "Bengali", "Bhaiksuki", "Bopomofo", "Brahmi", "Braille", "Buginese", "Buhid", "Canadian_Aboriginal", "Carian", "Caucasian_Albanian", "Chakma", "Cham", "Cherokee", "Chorasmian", "Common", "Coptic", "Cuneiform", "Cypriot", "Cypro_Minoan", "Cyrillic", "Deseret", "Devanagari", "Dives_Akuru", "Dogra", "Duployan", "Egyptian_Hieroglyphs", "Elbasan", "Elymaic", "Ethiopic", "Georgian", "Glagolitic", "Gothic", "Grantha", "Greek", "Gujarati", "Gunjala_Gondi", "Gurmukhi", "Han", "Hangul", "Hanifi_Rohingya", "Hanunoo", "Hatran", "Hebrew", "Hiragana", "Imperial_Aramaic", "Inherited", "Inscriptional_Pahlavi", "Inscriptional_Parthian", "Javanese", "Kaithi", "Kannada", "Katakana", "Kawi", "Kayah_Li", "Kharoshthi", "Khitan_Small_Script", "Khmer", "Khojki", "Khudawadi", "Lao", "Latin", "Lepcha", "Limbu", "Linear_A", "Linear_B", "Lisu", "Lycian", "Lydian", "Mahajani", "Makasar", "Malayalam", "Mandaic", "Manichaean", "Marchen", "Masaram_Gondi", "Medefaidrin", "Meetei_Mayek", "Mende_Kikakui", "Meroitic_Cursive", "Meroitic_Hieroglyphs", "Miao", "Modi", "Mongolian", "Mro", "Multani", "Myanmar", "Nabataean", "Nag_Mundari", "Nandinagari", "New_Tai_Lue", "Newa", "Nko", "Nushu", "Nyiakeng_Puachue_Hmong", "Ogham", "Ol_Chiki", "Old_Hungarian", "Old_Italic", "Old_North_Arabian", "Old_Permic", "Old_Persian", "Old_Sogdian", "Old_South_Arabian", "Old_Turkic", "Old_Uyghur", "Oriya", "Osage", "Osmanya", "Pahawh_Hmong", "Palmyrene", "Pau_Cin_Hau", "Phags_Pa", "Phoenician", "Psalter_Pahlavi", "Rejang", "Runic", "Samaritan", "Saurashtra", "Sharada", "Shavian", "Siddham", "SignWriting", "Sinhala", "Sogdian", "Sora_Sompeng", "Soyombo", "Sundanese", "Syloti_Nagri", "Syriac", "Tagalog", "Tagbanwa", "Tai_Le", "Tai_Tham", "Tai_Viet", "Takri", "Tamil", "Tangsa", "Tangut", "Telugu", "Thaana", "Thai", "Tibetan", "Tifinagh", "Tirhuta", "Toto", "Ugaritic", "Vai", "Vithkuqi", "Wancho", "Warang_Citi", "Yezidi", "Yi", "Zanabazar_Square" };
static constexpr unicode::Block v_Block[] = { unicode::Block::Unspecified, unicode::Block::Adlam, unicode::Block::Aegean_Numbers, unicode::Block::Ahom, unicode::Block::Alchemical_Symbols, unicode::Block::Alphabetic_Presentation_Forms, unicode::Block::Anatolian_Hieroglyphs, unicode::Block::Ancient_Greek_Musical_Notation, unicode::Block::Ancient_Greek_Numbers, unicode::Block::Ancient_Symbols, unicode::Block::Arabic, unicode::Block::Arabic_Extended_A, unicode::Block::Arabic_Extended_B, unicode::Block::Arabic_Extended_C, unicode::Block::Arabic_Mathematical_Alphabetic_Symbols, unicode::Block::Arabic_Presentation_Forms_A, unicode::Block::Arabic_Presentation_Forms_B, unicode::Block::Arabic_Supplement, unicode::Block::Armenian, unicode::Block::Arrows, unicode::Block::Avestan, unicode::Block::Balinese, unicode::Block::Bamum, unicode::Block::Bamum_Supplement, unicode::Block::Basic_Latin, unicode::Block::Bassa_Vah, unicode::Block::Batak, unicode::Block::Bengali, unicode::Block::Bhaiksuki, unicode::Block::Block_Elements, unicode::Block::Bopomofo, unicode::Block::Bopomofo_Extended, unicode::Block::Box_Drawing, unicode::Block::Brahmi, unicode::Block::Braille_Patterns, unicode::Block::Buginese, unicode::Block::Buhid, unicode::Block::Byzantine_Musical_Symbols, unicode::Block::CJK_Compatibility, unicode::Block::CJK_Compatibility_Forms, unicode::Block::CJK_Compatibility_Ideographs, unicode::Block::CJK_Compatibility_Ideographs_Supplement, unicode::Block::CJK_Radicals_Supplement, unicode::Block::CJK_Strokes, unicode::Block::CJK_Symbols_and_Punctuation, unicode::Block::CJK_Unified_Ideographs, unicode::Block::CJK_Unified_Ideographs_Extension_A, unicode::Block::CJK_Unified_Ideographs_Extension_B, unicode::Block::CJK_Unified_Ideographs_Extension_C, unicode::Block::CJK_Unified_Ideographs_Extension_D, unicode::Block::CJK_Unified_Ideographs_Extension_E, unicode::Block::CJK_Unified_Ideographs_Extension_F, unicode::Block::CJK_Unified_Ideographs_Extension_G, unicode::Block::CJK_Unified_Ideographs_Extension_H, unicode::Block::CJK_Unified_Ideographs_Extension_I, unicode::Block::Carian, unicode::Block::Caucasian_Albanian, unicode::Block::Chakma, unicode::Block::Cham, unicode::Block::Cherokee, unicode::Block::Cherokee_Supplement, unicode::Block::Chess_Symbols, unicode::Block::Chorasmian, unicode::Block::Combining_Diacritical_Marks, unicode::Block::Combining_Diacritical_Marks_Extended, unicode::Block::Combining_Diacritical_Marks_Supplement, unicode::Block::Combining_Diacritical_Marks_for_Symbols, unicode::Block::Combining_Half_Marks, unicode::Block::Common_Indic_Number_Forms, unicode::Block::Control_Pictures, unicode::Block::Coptic, unicode::Block::Coptic_Epact_Numbers, unicode::Block::Counting_Rod_Numerals, unicode::Block::Cuneiform, unicode::Block::Cuneiform_Numbers_and_Punctuation, unicode::Block::Currency_Symbols, unicode::Block::Cypriot_Syllabary, unicode::Block::Cypro_Minoan, unicode::Block::Cyrillic, unicode::Block::Cyrillic_Extended_A, unicode::Block::Cyrillic_Extended_B, unicode::Block::Cyrillic_Extended_C, unicode::Block::Cyrillic_Extended_D, unicode::Block::Cyrillic_Supplement, unicode::Block::Deseret, unicode::Block::Devanagari, unicode::Block::Devanagari_Extended, unicode::Block::Devanagari_Extended_A, unicode::Block::Dingbats, unicode::Block::Dives_Akuru, unicode::Block::Dogra, unicode::Block::Domino_Tiles, unicode::Block::Duployan, unicode::Block::Early_Dynastic_Cuneiform, unicode::Block::Egyptian_Hieroglyph_Format_Controls, unicode::Block::Egyptian_Hieroglyphs, unicode::Block::Elbasan, unicode::Block::Elymaic, unicode::Block::Emoticons, unicode::Block::Enclosed_Alphanumeric_Supplement, unicode::Block::Enclosed_Alphanumerics, unicode::Block::Enclosed_CJK_Letters_and_Months, unicode::Block::Enclosed_Ideographic_Supplement, unicode::Block::Ethiopic, unicode::Block::Ethiopic_Extended, unicode::Block::Ethiopic_Extended_A, unicode::Block::Ethiopic_Extended_B, unicode::Block::Ethiopic_Supplement, unicode::Block::General_Punctuation, unicode::Block::Geometric_Shapes, unicode::Block::Geometric_Shapes_Extended, unicode::Block::Georgian, unicode::Block::Georgian_Extended, unicode::Block::Georgian_Supplement, unicode::Block::Glagolitic, unicode::Block::Glagolitic_Supplement, unicode::Block::Gothic, unicode::Block::Grantha, unicode::Block::Greek_Extended, unicode::Block::Greek_and_Coptic, unicode::Block::Gujarati, unicode::Block::Gunjala_Gondi, unicode::Block::Gurmukhi, unicode::Block::Halfwidth_and_Fullwidth_Forms, unicode::Block::Hangul_Compatibility_Jamo, unicode::Block::Hangul_Jamo, unicode::Block::Hangul_Jamo_Extended_A, unicode::Block::Hangul_Jamo_Extended_B, unicode::Block::Hangul_Syllables, unicode::Block::Hanifi_Rohingya, unicode::Block::Hanunoo, unicode::Block::Hatran, unicode::Block::Hebrew, unicode::Block::High_Private_Use_Surrogates, unicode::Block::High_Surrogates, unicode::Block::Hiragana, unicode::Block::IPA_Extensions, unicode::Block::Ideographic_Description_Characters, unicode::Block::Ideographic_Symbols_and_Punctuation, unicode::Block::Imperial_Aramaic, unicode::Block::Indic_Siyaq_Numbers, unicode::Block::Inscriptional_Pahlavi, unicode::Block::Inscriptional_Parthian, unicode::Block::Javanese, unicode::Block::Kaithi, unicode::Block::Kaktovik_Numerals, unicode::Block::Kana_Extended_A, unicode::Block::Kana_Extended_B, unicode::Block::Kana_Supplement, unicode::Block::Kanbun, unicode::Block::Kangxi_Radicals, unicode::Block::Kannada, unicode::Block::Katakana, unicode::Block::Katakana_Phonetic_Extensions, unicode::Block::Kawi, unicode::Block::Kayah_Li, unicode::Block::Kharoshthi, unicode::Block::Khitan_Small_Script, unicode::Block::Khmer, unicode::Block::Khmer_Symbols, unicode::Block::Khojki, unicode::Block::Khudawadi, unicode::Block::Lao, unicode::Block::Latin_1_Supplement, unicode::Block::Latin_Extended_A, unicode::Block::Latin_Extended_Additional, unicode::Block::Latin_Extended_B, unicode::Block::Latin_Extended_C, unicode::Block::Latin_Extended_D, unicode::Block::Latin_Extended_E, unicode::Block::Latin_Extended_F, unicode::Block::Latin_Extended_G, unicode::Block::Lepcha, unicode::Block::Letterlike_Symbols, unicode::Block::Limbu, unicode::Block::Linear_A, unicode::Block::Linear_B_Ideograms, unicode::Block::Linear_B_Syllabary, unicode::Block::Lisu, unicode::Block::Lisu_Supplement, unicode::Block::Low_Surrogates, unicode::Block::Lycian, unicode::Block::Lydian, unicode::Block::Mahajani, unicode::Block::Mahjong_Tiles, unicode::Block::Makasar, unicode::Block::Malayalam, unicode::Block::Mandaic, unicode::Block::Manichaean, unicode::Block::Marchen, unicode::Block::Masaram_Gondi, unicode::Block::Mathematical_Alphanumeric_Symbols, unicode::Block::Mathematical_Operators, unicode::Block::Mayan_Numerals, unicode::Block::Medefaidrin, unicode::Block::Meetei_Mayek, unicode::Block::Meetei_Mayek_Extensions, unicode::Block::Mende_Kikakui, unicode::Block::Meroitic_Cursive, unicode::Block::Meroitic_Hieroglyphs, unicode::Block::Miao, unicode::Block::Miscellaneous_Mathematical_Symbols_A, unicode::Block::Miscellaneous_Mathematical_Symbols_B, unicode::Block::Miscellaneous_Symbols, unicode::Block::Miscellaneous_Symbols_and_Arrows, unicode::Block::Miscellaneous_Symbols_and_Pictographs, unicode::Block::Miscellaneous_Technical, unicode::Block::Modi, unicode::Block::Modifier_Tone_Letters, unicode::Block::Mongolian, unicode::Block::Mongolian_Supplement, unicode::Block::Mro, unicode::Block::Multani, unicode::Block::Musical_Symbols, unicode::Block::Myanmar, unicode::Block::Myanmar_Extended_A, unicode::Block::Myanmar_Extended_B, unicode::Block::NKo, unicode::Block::Nabataean, unicode::Block::Nag_Mundari, unicode::Block::Nandinagari, unicode::Block::New_Tai_Lue, unicode::Block::Newa, unicode::Block::Number_Forms, unicode::Block::Nushu, unicode::Block::Nyiakeng_Puachue_Hmong, unicode::Block::Ogham, unicode::Block::Ol_Chiki, unicode::Block::Old_Hungarian, unicode::Block::Old_Italic, unicode::Block::Old_North_Arabian, unicode::Block::Old_Permic, unicode::Block::Old_Persian, unicode::Block::Old_Sogdian, unicode::Block::Old_South_Arabian, unicode::Block::Old_Turkic, unicode::Block::Old_Uyghur, unicode::Block::Optical_Character_Recognition, unicode::Block::Oriya, unicode::Block::Ornamental_Dingbats, unicode::Block::Osage, unicode::Block::Osmanya, unicode::Block::Ottoman_Siyaq_Numbers, unicode::Block::Pahawh_Hmong, unicode::Block::Palmyrene, unicode::Block::Pau_Cin_Hau, unicode::Block::Phags_pa, unicode::Block::Phaistos_Disc, unicode::Block::Phoenician, unicode::Block::Phonetic_Extensions, unicode::Block::Phonetic_Extensions_Supplement, unicode::Block::Playing_Cards, unicode::Block::Private_Use_Area, unicode::Block::Psalter_Pahlavi, unicode::Block::Rejang, unicode::Block::Rumi_Numeral_Symbols, unicode::Block::Runic, unicode::Block::Samaritan, unicode::Block::Saurashtra, unicode::Block::Sharada, unicode::Block::Shavian, unicode::Block::Shorthand_Format_Controls, unicode::Block::Siddham, unicode::Block::Sinhala, unicode::Block::Sinhala_Archaic_Numbers, unicode::Block::Small_Form_Variants, unicode::Block::Small_Kana_Extension, unicode::Block::Sogdian, unicode::Block::Sora_Sompeng, unicode::Block::Soyombo, unicode::Block::Spacing_Modifier_Letters, unicode::Block::Specials, unicode::Block::Sundanese, unicode::Block::Sundanese_Supplement, unicode::Block::Superscripts_and_Subscripts, unicode::Block::Supplemental_Arrows_A, unicode::Block::Supplemental_Arrows_B, unicode::Block::Supplemental_Arrows_C, unicode::Block::Supplemental_Mathematical_Operators, unicode::Block::Supplemental_Punctuation, unicode::Block::Supplemental_Symbols_and_Pictographs, unicode::Block::Supplementary_Private_Use_Area_A, unicode::Block::Supplementary_Private_Use_Area_B, unicode::Block::Sutton_SignWriting, unicode::Block::Syloti_Nagri, unicode::Block::Symbols_and_Pictographs_Extended_A, unicode::Block::Symbols_for_Legacy_Computing, unicode::Block::Syriac, unicode::Block::Syriac_Supplement, unicode::Block::Tagalog, unicode::Block::Tagbanwa, unicode::Block::Tags, unicode::Block::Tai_Le, unicode::Block::Tai_Tham, unicode::Block::Tai_Viet, unicode::Block::Tai_Xuan_Jing_Symbols, unicode::Block::Takri, unicode::Block::Tamil, unicode::Block::Tamil_Supplement, unicode::Block::Tangsa, unicode::Block::Tangut, unicode::Block::Tangut_Components, unicode::Block::Tangut_Supplement, unicode::Block::Telugu, unicode::Block::Thaana, unicode::Block::Thai, unicode::Block::Tibetan, unicode::Block::Tifinagh, unicode::Block::Tirhuta, unicode::Block::Toto, unicode::Block::Transport_and_Map_Symbols, unicode::Block::Ugaritic, unicode::Block::Unified_Canadian_Aboriginal_Syllabics, unicode::Block::Unified_Canadian_Aboriginal_Syllabics_Extended, unicode::Block::Unified_Canadian_Aboriginal_Syllabics_Extended_A, unicode::Block::Vai, unicode::Block::Variation_Selectors, unicode::Block::Variation_Selectors_Supplement, unicode::Block::Vedic_Extensions, unicode::Block::Vertical_Forms, unicode::Block::Vithkuqi, unicode::Block::Wancho, unicode::Block::Warang_Citi, unicode::Block::Yezidi, unicode::Block::Yi_Radicals, unicode::Block::Yi_Syllables, unicode::Block::Yijing_Hexagram_Symbols, unicode::Block::Zanabazar_Square, unicode::Block::Znamenny_Musical_Notation };
static constexpr char const* n_Block[] = { "Unspecified", "Adlam", "Aegean_Numbers", "Ahom", "Alchemical_Symbols", "Alphabetic_Presentation_Forms", "Anatolian_Hieroglyphs", "Ancient_Greek_Musical_Notation", "Ancient_Greek_Numbers", "Ancient_Symbols", "Arabic", "Arabic_Extended_A", "Arabic_Extended_B", "Arabic_Extended_C", "Arabic_Mathematical_Alphabetic_Symbols", "Arabic_Presentation_Forms_A", "Arabic_Presentation_Forms_B", "Arabic_Supplement", "Armenian", "Arrows", "Avestan", "Balinese", "Bamum", "Bamum_Supplement", "Basic_Latin", "Bassa_Vah", "Batak", "Bengali", "Bhaiksuki", "Block_Elements", "Bopomofo", "Bopomofo_Extended", "Box_Drawing", "Brahmi", "Braille_Patterns", "Buginese", "Buhid", "Byzantine_Musical_Symbols", "CJK_Compatibility", "CJK_Compatibility_Forms", "CJK_Compatibility_Ideographs", "CJK_Compatibility_Ideographs_Supplement", "CJK_Radicals_Supplement", "CJK_Strokes", "CJK_Symbols_and_Punctuation", "CJK_Unified_Ideographs", "CJK_Unified_Ideographs_Extension_A", "CJK_Unified_Ideographs_Extension_B", "CJK_Unified_Ideographs_Extension_C", "CJK_Unified_Ideographs_Extension_D", "CJK_Unified_Ideographs_Extension_E", "CJK_Unified_Ideographs_Extension_F", "CJK_Unified_Ideographs_Extension_G", "CJK_Unified_Ideographs_Extension_H", "CJK_Unified_Ideographs_Extension_I", "Carian", "Caucasian_Albanian", "Chakma", "Cham", "Cherokee", "Cherokee_Supplement", "Chess_Symbols", "Chorasmian", "Combining_Diacritical_Marks", "Combining_Diacritical_Marks_Extended", "Combining_Diacritical_Marks_Supplement", "Combining_Diacritical_Marks_for_Symbols", "Combining_Half_Marks", "Common_Indic_Number_Forms", "Control_Pictures", "Coptic", "Coptic_Epact_Numbers", "Counting_Rod_Numerals", "Cuneiform", "Cuneiform_Numbers_and_Punctuation", "Currency_Symbols", "Cypriot_Syllabary", "Cypro_Minoan", "Cyrillic", "Cyrillic_Extended_A", "Cyrillic_Extended_B", "Cyrillic_Extended_C", "Cyrillic_Extended_D", "Cyrillic_Supplement", "Deseret", "Devanagari", "Devanagari_Extended", "Devanagari_Extended_A", "Dingbats", "Dives_Akuru", "Dogra", "Domino_Tiles", "Duployan", "Early_Dynastic_Cuneiform", "Egyptian_Hieroglyph_Format_Controls", "Egyptian_Hieroglyphs", "Elbasan", "Elymaic", "Emoticons", "Enclosed_Alphanumeric_Supplement", "Enclosed_Alphanumerics", "Enclosed_CJK_Letters_and_Months", "Enclosed_Ideographic_Supplement", "Ethiopic", "Ethiopic_Extended", "Ethiopic_Extended_A", "Ethiopic_Extended_B", "Ethiopic_Supplement", "General_Punctuation", "Geometric_Shapes", "Geometric_Shapes_Extended", "Georgian", "Georgian_Extended", "Georgian_Supplement", "Glagolitic", "Glagolitic_Supplement", "Gothic", "Grantha", "Greek_Extended", "Greek_and_Coptic", "Gujarati", "Gunjala_Gondi", "Gurmukhi", "Halfwidth_and_Fullwidth_Forms", "Hangul_Compatibility_Jamo", "Hangul_Jamo", "Hangul_Jamo_Extended_A", "Hangul_Jamo_Extended_B", "Hangul_Syllables", "Hanifi_Rohingya", "Hanunoo", "Hatran", "Hebrew", "High_Private_Use_Surrogates", "High_Surrogates", "Hiragana", "IPA_Extensions", "Ideographic_Description_Characters", "Ideographic_Symbols_and_Punctuation", "Imperial_Aramaic", "Indic_Siyaq_Numbers", "Inscriptional_Pahlavi", "Inscriptional_Parthian", "Javanese", "Kaithi", "Kaktovik_Numerals", "Kana_Extended_A", "Kana_Extended_B", "Kana_Supplement", "Kanbun", "Kangxi_Radicals", "Kannada", "Katakana", "Katakana_Phonetic_Extensions", "Kawi", "Kayah_Li", "Kharoshthi", "Khitan_Small_Script", "Khmer", "Khmer_Symbols", "Khojki", "Khudawadi", "Lao", "Latin_1_Supplement", "Latin_Extended_A", "Latin_Extended_Additional", "Latin_Extended_B", "Latin_Extended_C", "Latin_Extended_D", "Latin_Extended_E", "Latin_Extended_F", "Latin_Extended_G", "Lepcha", "Letterlike_Symbols", "Limbu", "Linear_A", "Linear_B_Ideograms", "Linear_B_Syllabary", "Lisu", "Lisu_Supplement", "Low_Surrogates", "Lycian", "Lydian", "Mahajani", "Mahjong_Tiles", "Makasar", "Malayalam", "Mandaic", "Manichaean", "Marchen", "Masaram_Gondi", "Mathematical_Alphanumeric_Symbols", "Mathematical_Operators", "Mayan_Numerals", "Medefaidrin", "Meetei_Mayek", "Meetei_Mayek_Extensions", "Mende_Kikakui", "Meroitic_Cursive", "Meroitic_Hieroglyphs", "Miao", "Miscellaneous_Mathematical_Symbols_A", "Miscellaneous_Mathematical_Symbols_B", "Miscellaneous_Symbols", "Miscellaneous_Symbols_and_Arrows", "Miscellaneous_Symbols_and_Pictographs", "Miscellaneous_Technical", "Modi", "Modifier_Tone_Letters", "Mongolian", "Mongolian_Supplement", "Mro", "Multani", "Musical_Symbols", "Myanmar", "Myanmar_Extended_A", "Myanmar_Extended_B", "NKo", "Nabataean", "Nag_Mundari", "Nandinagari", "New_Tai_Lue", "Newa", "Number_Forms", "Nushu", "Nyiakeng_Puachue_Hmong", "Ogham", "Ol_Chiki", "Old_Hungarian", "Old_Italic", "Old_North_Arabian", "Old_Permic", "Old_Persian", "Old_Sogdian", "Old_South_Arabian", "Old_Turkic", "Old_Uyghur", "Optical_Character_Recognition", "Oriya", "Ornamental_Dingbats", "Osage", "Osmanya", "Ottoman_Siyaq_Numbers", "Pahawh_Hmong", "Palmyrene", "Pau_Cin_Hau", "Phags_pa", "Phaistos_Disc", "Phoenician", "Phonetic_Extensions", "Phonetic_Extensions_Supplement", "Playing_Cards", "Private_Use_Area", "Psalter_Pahlavi", "Rejang", "Rumi_Numeral_Symbols", "Runic", "Samaritan", "Saurashtra", "Sharada", "Shavian", "Shorthand_Format_Controls", "Siddham", "Sinhala", "Sinhala_Archaic_Numbers", "Small_Form_Variants", "Small_Kana_Extension", "Sogdian", "Sora_Sompeng", "Soyombo", "Spacing_Modifier_Letters", "Specials", "Sundanese", "Sundanese_Supplement", "Superscripts_and_Subscripts", "Supplemental_Arrows_A", "Supplemental_Arrows_B", "Supplemental_Arrows_C", "Supplemental_Mathematical_Operators", "Supplemental_Punctuation", "Supplemental_Symbols_and_Pictographs", "Supplementary_Private_Use_Area_A", "Supplementary_Private_Use_Area_B", "Sutton_SignWriting", "Syloti_Nagri", "Symbols_and_Pictographs_Extended_A", "Symbols_for_Legacy_Computing", "Syriac", "Syriac_Supplement", "Tagalog", "Tagbanwa", "Tags", "Tai_Le", "Tai_Tham", "Tai_Viet", "Tai_Xuan_Jing_Symbols", "Takri", "Tamil", "Tamil_Supplement", "Tangsa", "Tangut", "Tangut_Components", "Tangut_Supplement", "Telugu", "Thaana", "Thai", "Tibetan", "Tifinagh", "Tirhuta", "Toto", "Transport_and_Map_Symbols", "Ugaritic", "Unified_Canadian_Aboriginal_Syllabics", "Unified_Canadian_Aboriginal_Syllabics_Extended", "Unified_Canadian_Aboriginal_Syllabics_Extended_A", "Vai", "Variation_Selectors", "Variation_Selectors_Supplement", "Vedic_Extensions", "Vertical_Forms", "Vithkuqi", "Wancho", "Warang_Citi", "Yezidi", "Yi_Radicals", "Yi_Syllables", "Yijing_Hexagram_Symbols", "Zanabazar_Square", "Znamenny_Musical_Notation" };
static constexpr unicode::EastAsianWidth v_EastAsianWidth[] = { unicode::EastAsianWidth::Unspecified, unicode::EastAsianWidth::Ambiguous, unicode::EastAsianWidth::FullWidth, unicode::EastAsianWidth::HalfWidth, unicode::EastAsianWidth::Neutral, unicode::EastAsianWidth::Narrow, unicode::EastAsianWidth::Wide };
static constexpr char const* n_EastAsianWidth[] = { "Unspecified", "Ambiguous", "FullWidth", "HalfWidth", "Neutral", "Narrow", "Wide" };
static constexpr unicode::Core_Property v_Core_Property[] = { unicode::Core_Property::Alphabetic, unicode::Core_Property::Case_Ignorable, unicode::Core_Property::Cased, unicode::Core_Property::Changes_When_Casefolded, unicode::Core_Property::Changes_When_Casemapped, unicode::Core_Property::Changes_When_Lowercased, unicode::Core_Property::Changes_When_Titlecased, unicode::Core_Property::Changes_When_Uppercased, unicode::Core_Property::Default_Ignorable_Code_Point, unicode::Core_Property::Grapheme_Base, unicode::Core_Property::Grapheme_Extend, unicode::Core_Property::Grapheme_Link, unicode::Core_Property::ID_Continue, unicode::Core_Property::ID_Start, unicode::Core_Property::Lowercase, unicode::Core_Property::Math, unicode::Core_Property::Uppercase, unicode::Core_Property::XID_Continue, unicode::Core_Property::XID_Start };
static constexpr char const* n_Core_Property[] = { "Alphabetic", "Case_Ignorable", "Cased", "Changes_When_Casefolded", "Changes_When_Casemapped", "Changes_When_Lowercased", "Changes_When_Titlecased", "Changes_When_Uppercased", "Default_Ignorable_Code_Point", "Grapheme_Base", "Grapheme_Extend", "Grapheme_Link", "ID_Continue", "ID_Start", "Lowercase", "Math", "Uppercase", "XID_Continue", "XID_Start" };
static constexpr unicode::Plane v_Plane[] = { unicode::Plane::Unassigned, unicode::Plane::Basic_Multilingual_Plane, unicode::Plane::Supplementary_Ideographic_Plane, unicode::Plane::Supplementary_Multilingual_Plane, unicode::Plane::Supplementary_Private_Use_Area_Plane, unicode::Plane::Supplementary_Special_purpose_Plane, unicode::Plane::Tertiary_Ideographic_Plane };
static constexpr char const* n_Plane[] = { "Unassigned", "Basic_Multilingual_Plane", "Supplementary_Ideographic_Plane", "Supplementary_Multilingual_Plane", "Supplementary_Private_Use_Area_Plane", "Supplementary_Special_purpose_Plane", "Tertiary_Ideographic_Plane" };
static constexpr unicode::PresentationStyle v_PresentationStyle[] = { unicode::PresentationStyle::Text, unicode::PresentationStyle::Emoji };
static constexpr char const* n_PresentationStyle[] = { "Text", "Emoji" };
static constexpr unicode::EmojiSegmentationCategory v_EmojiSegmentationCategory[] = { unicode::EmojiSegmentationCategory::Invalid, unicode::EmojiSegmentationCategory::Emoji, unicode::EmojiSegmentationCategory::EmojiTextPresentation, unicode::EmojiSegmentationCategory::EmojiEmojiPresentation, unicode::EmojiSegmentationCategory::EmojiModifierBase, unicode::EmojiSegmentationCategory::EmojiModifier, unicode::EmojiSegmentationCategory::EmojiVSBase, unicode::EmojiSegmentationCategory::RegionalIndicator, unicode::EmojiSegmentationCategory::KeyCapBase, unicode::EmojiSegmentationCategory::CombiningEnclosingKeyCap, unicode::EmojiSegmentationCategory::CombiningEnclosingCircleBackslash, unicode::EmojiSegmentationCategory::ZWJ, unicode::EmojiSegmentationCategory::VS15, unicode::EmojiSegmentationCategory::VS16, unicode::EmojiSegmentationCategory::TagBase, unicode::EmojiSegmentationCategory::TagSequence, unicode::EmojiSegmentationCategory::TagTerm };
static constexpr char const* n_EmojiSegmentationCategory[] = { "Invalid", "Emoji", "EmojiTextPresentation", "EmojiEmojiPresentation", "EmojiModifierBase", "EmojiModifier", "EmojiVSBase", "RegionalIndicator", "KeyCapBase", "CombiningEnclosingKeyCap", "CombiningEnclosingCircleBackslash", "ZWJ", "VS15", "VS16", "TagBase", "TagSequence", "TagTerm" };
#define VF_ENUMS(X) X(Age) X(Bidi_Class) X(Bidi_Paired_Bracket_Type) X(Canonical_Combining_Class) X(Decomposition_Type) X(East_Asian_Width) X(Grapheme_Cluster_Break) X(Hangul_Syllable_Type) X(Indic_Conjunct_Break) X(Indic_Positional_Category) X(Indic_Syllabic_Category) X(Jamo_Short_Name) X(Joining_Group) X(Joining_Type) X(Line_Break) X(NFC_Quick_Check) X(NFKC_Quick_Check) X(Numeric_Type) X(Sentence_Break) X(Vertical_Orientation) X(Word_Break) X(General_Category) X(Script) X(Block) X(EastAsianWidth) X(Core_Property) X(Plane) X(PresentationStyle) X(EmojiSegmentationCategory)
