prop("C01", "UTF-8, UTF-16 and UTF-32 conversions are lossless and agree",
  "Every sequence of Unicode scalar values has exactly one encoding in UTF-8, UTF-16 and UTF-32, and every conversion interface (string, iterator, byte-streaming, C) between any two of them produces exactly that encoding and decodes it back to the same scalar values. A streaming decoder reports a codepoint exactly at its last byte, and only there.",
  ["inputs", "configurations"], "all texts of scalar values, all conversion interfaces, all vector widths the library dispatches on",
  "Tests convert a handful of fixed strings; an error in one bit of one length class, at one block offset or in one of the parallel implementations needs every scalar value at every position.",
  ["utf8.h", "utf8.cpp", "convert.h", "convert.cpp", "convert256.cpp", "convert512.cpp", "convert_simd_impl.h", "intrinsics.h", "capi.cpp"],
  [("encoder/decoder templates", "convert.h"), ("UTF-8 decoding state machine", "utf8.h"), ("one-shot encoder and decoder", "utf8.cpp"), ("vectorised ASCII prefix", "convert_simd_impl.h")],
  "Every text of up to 3 (thorough: 4) scalar values, in every interface and both wide dispatches; texts of 70 and 300 alternating scalar values of 10 kinds between arbitrary ones; other longer texts are outside the bound.",
  ["to_utf8", "from_utf8", "convert_to", "encoder/decoder", "u8u32_stream_convert_run"], [("utf8_decoder_state", "open codepoint of the streaming decoder", "utf8.h")])
prop("C02", "Decoders survive arbitrary bytes and resynchronise",
  "For every byte or code unit string, however malformed or truncated, decoding terminates, never reads outside the input, yields no more codepoints than input units, and the string, iterator and streaming interfaces yield the same codepoints. After any malformed bytes the next well-formed multi-byte codepoint is decoded correctly, with an open sequence reported invalid exactly once; ill-formed UTF-16 and UTF-32 never produces a surrogate or a value above U+10FFFF in UTF-16/UTF-32 output.",
  ["inputs", "histories"], "all byte strings, UTF-16 unit strings and 32-bit value strings, including every truncation",
  "Malformed input is a space of its own: tests try a few broken strings, while overreads and lost synchronisation depend on the exact bytes around the end of the buffer.",
  ["utf8.h", "utf8.cpp", "convert.h", "convert_simd_impl.h"], [("UTF-8 decoding state machine", "utf8.h"), ("decoder<char16_t>, decoder<char>", "convert.h")],
  "All byte strings of up to 6 (thorough 8) bytes in buffers of exactly that size, all recovery histories of up to 5 (6) bytes, all UTF-16 strings up to 4 (5) units, UTF-32 values of 0..0x7FFFFF and 0xFF800000..0xFFFFFFFF.",
  ["from_utf8", "convert_to", "decoder"], [("utf8_decoder_state", "open codepoint of the streaming decoder", "utf8.h")])
prop("C03", "Vectorised conversion equals the scalar definition",
  "Converting UTF-8 text to UTF-16 or UTF-32 gives the same result whichever vector width (128, 256 or 512 bits) the processor selects, for every length of the text and every position of its non-ASCII characters, and never touches memory outside the input and output.",
  ["inputs", "configurations"], "all texts around the block sizes of each vector width, all positions of a non-ASCII scalar value, all three widths",
  "Tests run only the width of the machine they run on, on few lengths; block-boundary errors need a particular length, offset and width.",
  ["convert_simd_impl.h", "convert256.cpp", "convert512.cpp", "convert.h", "intrinsics.h"], [("block loop and tail", "convert_simd_impl.h"), ("vector primitives", "intrinsics.h")],
  "Lengths listed in the evidence for each width (up to 260 bytes); text is ASCII plus at most one or two other scalar values at any offset.", ["convert_to"])
prop("C04", "Vectorised ASCII scan equals the scalar definition",
  "The scanner for plain ASCII runs returns the length of the longest prefix made only of bytes 0x20..0x7F that fits the column limit, the same for every vector width, and reads nothing outside the text.",
  ["inputs", "configurations"], "all byte strings around the block sizes, all column limits, all three vector widths",
  "Which byte at which lane stops the scan, and how the limit falls into a block, are 256^n combinations; only one width runs on a given machine.",
  ["scan_simd_impl.h", "scan256.cpp", "scan512.cpp", "intrinsics.h", "scan.cpp"], [("block loop, mask and tail", "scan_simd_impl.h"), ("vector primitives", "intrinsics.h")],
  "Lengths listed in the evidence for each width: arbitrary bytes up to 67, one arbitrary byte anywhere up to 514.", ["scan_text"])
prop("C05", "Vector width is only raised where processor and OS support it",
  "For every combination of processor feature bits and operating system state, the vector width chosen is 512 only if AVX-512 F, BW and BITALG and OS support for opmask, ZMM and YMM state are all reported, 256 only if AVX2 and OS support for YMM state are reported, and otherwise 128; feature words the processor does not report are not consulted, and the widest supported width is chosen.",
  ["configurations"], "all values of the CPUID leaves and of XCR0",
  "A test runs on one processor; the wrong choice is an illegal instruction on another.",
  ["simd_detector.cpp", "simd_detector.h"], [("CPUID/XGETBV feature detection", "simd_detector.cpp")],
  "All CPUID leaf 0, 1, 7 register bits the code consults and all XCR0 values; cpuid and xgetbv instructions are replaced by unconstrained values.", ["max_simd_size"])
prop("C06", "C API conversion stays inside the caller's buffer",
  "The C conversion of UTF-32 to UTF-8 writes exactly the encoding of the text when it fits the given capacity, and otherwise reports failure having written only whole leading codepoints; in no case does it write behind the capacity, whatever 32-bit values the text holds. The byte-streaming C converter ignores bytes that cannot begin a codepoint, writes its output exactly when a codepoint is complete, and keeps the streams of different handles apart.",
  ["inputs"], "all texts and all capacities, all byte strings",
  "Exact-fit and one-short capacities differ for each combination of encoded lengths.",
  ["capi.cpp", "capi.h", "convert.h"], [("u32u8_convert", "capi.cpp"), ("u8u32_stream_convert_run", "capi.cpp")],
  "Texts of up to 4 (5) scalar values, every capacity from 0 to two more than needed; streams of up to 7 (9) bytes.", ["u32u8_convert", "u8u32_stream_convert_run"])
prop("C07", "The C API serves C programs: linkage and codepoint tag bits",
  "The C header is usable from C: a C program compiles against it, links with the library, and gets from its functions for counting and measuring clusters and for converting exactly what the C++ interfaces give. For every 32-bit value, the validity macro is true exactly for Unicode scalar values, and the macros for the eleven unused high bits read, set or clear exactly the bit asked for, leave the codepoint alone, and clear all of them when asked to, whatever expressions their arguments are.",
  ["inputs"], "all 32-bit values and bit indexes; all texts up to the bounds, called from a C translation unit",
  "No test is written in C or uses the macros; a wrong bit needs a particular value and index, a missing parenthesis a particular argument expression.",
  ["capi.h", "capi.cpp"], [("u32_is_valid_codepoint, u32_unused_bit_*", "capi.h"), ("declarations for C", "capi.h")],
  "Macros: every pair of 32-bit values combined in the argument, indexes 0..10. Functions: texts of up to 2 (3) codepoints, 2 in UTF-8. That the header compiles and links as C is checked with gcc before the client is encoded.", ["u32_is_valid_codepoint", "u32_unused_bit_get", "u32_gc_count", "u8_gc_width"])
prop("C08", "UTF-8 text interfaces tolerate malformed input",
  "For every byte string, well-formed or not, the interfaces that take UTF-8 text (grapheme segmentation, cluster counting and width, case conversion and caseless comparison, normalization, quick check, streaming normalization) terminate and read nothing outside the text. The functions on whole strings give what their UTF-32 counterparts give for the decoded text. The grapheme segmenter and the streaming normalizer deliver every malformed sequence, also one cut off by the end of the text, as U+FFFD, and otherwise the decoded codepoints, with the cluster boundaries and the normalized form of that text.",
  ["inputs", "histories"], "all byte strings and mixtures of scalar values and malformed sequences up to the bounds",
  "Each interface has its own decoding loop or buffer, and what matters is where exactly in a cluster or a combining sequence the malformed bytes stand, and how the text ends.",
  ["utf8_grapheme_segmenter.h", "utf8.cpp", "convert.h", "capi.cpp", "case_mapping.cpp", "normalization.cpp"], [("iterator::consumeCodepoint", "utf8_grapheme_segmenter.h"), ("utf8_normalizer::feed, flush", "normalization.cpp")],
  "Any 3 (4) bytes for segmentation and width, any 1 to 2 for the others; 2 pieces that are any scalar value or any malformed sequence (segmentation, width; 1 for the others); 3 pieces out of 9 scalar values and 5 malformed sequences everywhere. What the decoders make of malformed bytes is taken from from_utf8 and convert_to, which C02 decides.",
  ["utf8_grapheme_segmenter", "utf8_normalizer", "normalize", "to_uppercase", "casefold_compare", "u8_gc_count"], [("utf8_normalizer::_utf8State", "open sequence between chunks", "normalization.h")])
prop("G01", "Grapheme cluster boundaries follow UAX #29",
  "For every sequence of codepoints, the incremental boundary functions, the UTF-32 and UTF-8 grapheme segmenters and the C cluster count place boundaries exactly where UAX #29 rules GB1 to GB999 (with GB9c and GB11) place them on the UCD property values, and the clusters tile the text. Values beyond U+10FFFF are handled without reading out of bounds.",
  ["inputs", "histories"], "all codepoint sequences up to the bounds, through every segmentation interface",
  "GraphemeBreakTest has 1187 samples; the state machine's history (regional indicator parity, emoji and conjunct state) can be wrong for sequences no sample has.",
  ["grapheme_segmenter.h", "grapheme_segmenter.cpp", "utf8_grapheme_segmenter.h", "capi.cpp", "codepoint_properties.h", "tablegen/multistage_generator.cpp"],
  [("incremental rules", "grapheme_segmenter.cpp"), ("segmenters", "utf8_grapheme_segmenter.h")],
  "Sequences of up to 14 (24) codepoints for the incremental functions, 4 (6) for the segmenter, 2 (3) for UTF-8; texts with 300 (UTF-8: 20) alternating codepoints of 18 kinds behind the first; reference tables are parsed from the UCD text files by independent code.",
  ["grapheme_process_breakable", "grapheme_segmenter", "utf8_grapheme_segmenter", "u32_gc_count"], [("grapheme_segmenter_state", "rule history", "grapheme_segmenter.h")])
prop("W01", "Word boundaries follow UAX #29",
  "For every sequence of codepoints, the word segmenter and the incremental word boundary function place boundaries exactly where UAX #29 rules WB1 to WB999 place them on the UCD property values, including look-ahead across ignored characters, and the words tile the text in order without empty words.",
  ["inputs", "histories"], "all codepoint sequences up to the bounds",
  "Lookahead and lookbehind interact with ignored characters and regional indicator parity; the sampled test strings cover few combinations.",
  ["word_segmenter.h", "word_segmenter.cpp", "codepoint_properties.h"], [("incremental rules", "word_segmenter.cpp"), ("word_segmenter", "word_segmenter.h")],
  "Sequences of any codepoints up to 8 (process functions) and 4 (segmenter); texts with up to 300 alternating codepoints behind the first; others as listed in the evidence.", ["word_process_breakable", "word_segmenter"], [("word_segmenter_state", "rule history", "word_segmenter.h")])
prop("D01", "Display width of codepoints and clusters follows one definition",
  "The column width of every codepoint is the one its UCD properties prescribe, and the width of every grapheme cluster follows the documented wcwidth rules (variation selectors, ZWJ, modifiers, flags, spacing marks, viramas); the width of a text is the sum over its clusters. The UTF-32, UTF-8, incremental and C interfaces agree on it for every text.",
  ["inputs"], "all codepoints; all codepoint sequences up to the bounds",
  "Tests pin individual clusters; agreement between four interfaces and the rules' interplay hold or fail on sequences nobody listed.",
  ["width.h", "width.cpp", "capi.cpp", "tablegen/multistage_generator.cpp"], [("grapheme_cluster_width_accumulator", "width.cpp"), ("u32_gc_width, u8_gc_width", "capi.cpp")],
  "All codepoints; clusters up to the lengths in the evidence.", ["width", "grapheme_cluster_width", "u32_gc_width", "u8_gc_width"], [("grapheme_cluster_width_accumulator", "running measurement", "width.h")])
prop("T01", "Terminal text scan respects the column limit and stops at controls",
  "For every byte string and column limit, scanning stops before the first C0 control and before any C1 control byte at a character boundary, never reports more columns than the limit, and reports exactly the sum of the display widths of the clusters it consumed (an ASCII character, DEL included, counts one column and always begins a cluster; an invalid sequence counts one column). It stops early only where the next cluster would exceed the limit, reads nothing outside the text and leaves a resumable position inside it, behind whatever was consumed and any incomplete sequence at the end.",
  ["inputs"], "all byte strings and column limits up to the bounds, for every vector width",
  "The interplay of the ASCII fast path, cluster growth at the limit, malformed bytes and controls is combinatorial; tests list examples.",
  ["scan.h", "scan.cpp", "scan_simd_impl.h"], [("scan_text two-state loop", "scan.cpp"), ("scan_for_text_nonascii", "scan.cpp")],
  "Byte strings and texts up to the lengths in the evidence.", ["scan_text"], [("scan_state", "resumable decoding and cluster state", "scan.h")])
prop("T02", "Terminal text scan gives the same columns however input is chunked",
  "For every text and every way of cutting its bytes into consecutive calls with the same scan state, or of resuming a call that stopped at its column limit, the column counts reported by the calls add up to the count of a single call over the whole text (except for columns that an earlier call had reported for a cluster a later variation selector narrows), each call's result begins where the previous one ended, the final positions agree, and the resulting states are the same.",
  ["inputs", "histories"], "all texts and all chunk boundaries up to the bounds",
  "Chunk boundaries inside a codepoint or a cluster depend on how the pty delivers bytes; tests try a few cuts.",
  ["scan.h", "scan.cpp"], [("scan_state carried across calls", "scan.h"), ("reportedClusterWidth", "scan.cpp")],
  "Texts up to the lengths in the evidence, every cut.", ["scan_text"], [("scan_state", "resumable decoding and cluster state", "scan.h")])
prop("T03", "Terminal text scan hands every consumed byte over exactly once",
  "For every byte string and limit, the ASCII runs, grapheme clusters and invalid-sequence notices delivered to the receiver cover the consumed bytes in order, without gap or overlap apart from invalid bytes, every cluster is delivered with its width (a cluster that begins with the last ASCII character of a run is delivered without that character, with the width of the whole cluster), and the widths delivered, counting such a character once, add up to the reported columns. The result does not depend on the receiver.",
  ["inputs"], "all byte strings and column limits up to the bounds",
  "A dropped or doubled cluster appears only for particular mixes of ASCII, marks, malformed bytes and limits.",
  ["scan.h", "scan.cpp"], [("flushOpenCluster and the receiver calls", "scan.cpp")],
  "Byte strings and texts up to the lengths in the evidence.", ["grapheme_cluster_receiver"], [("scan_state", "resumable decoding and cluster state", "scan.h")])
prop("R01", "Script runs are tiled and consistently assigned",
  "For every text, script segmentation reports strictly increasing run ends that finish at the end of the text; within a run all characters that are not Common or Inherited have the reported script among their script and script extensions; a run of Common and Inherited characters only is reported as Common, Inherited or a script from their extensions. Runs are maximal: a run ends only before a character whose scripts are disjoint from what its characters still share.",
  ["inputs", "histories"], "all codepoint sequences up to the bounds",
  "Intersections of script extension sets along a run are histories; tests have a dozen strings.",
  ["script_segmenter.h", "script_segmenter.cpp", "support.h"], [("mergeSets, getScriptsFor", "script_segmenter.cpp")],
  "Sequences up to the lengths in the evidence.", ["script_segmenter::consume"], [("currentScriptSet_", "scripts still possible for the run", "script_segmenter.h")])
prop("R02", "Emoji presentation runs follow the emoji grammar",
  "For every text, emoji segmentation reports consecutive non-empty segments that cover the whole text, alternating text and emoji presentation, and a segment has emoji presentation exactly when it consists of sequences the emoji grammar of UTS #51 gives emoji presentation.",
  ["inputs"], "all codepoint sequences up to the bounds",
  "The scanner is a generated automaton; which sequences it accepts is decided by transitions tests reach only in part.",
  ["emoji_segmenter.h", "emoji_segmenter.cpp", "emoji_presentation_scanner.rl", "emoji_presentation_scanner.c"], [("emoji presentation scanner", "emoji_presentation_scanner.rl"), ("consume_once", "emoji_segmenter.cpp")],
  "Sequences up to the lengths in the evidence; the grammar is re-implemented from the .rl definition's regular expressions.", ["emoji_segmenter::consume"])
prop("R03", "Combined runs are the common refinement of script and presentation runs",
  "For every text, the combined run segmentation yields consecutive non-empty ranges that tile the text, whose boundaries are exactly the union of script run ends and presentation run ends, each carrying the properties of the script run and presentation run it lies in.",
  ["inputs"], "all codepoint sequences up to the bounds",
  "Tests check a few mixed strings.",
  ["run_segmenter.h", "script_segmenter.h", "emoji_segmenter.h"], [("run_segmenter::consume", "run_segmenter.h")],
  "Sequences up to the lengths in the evidence.", ["run_segmenter::consume"])
prop("N01", "Normalization produces the forms of UAX #15",
  "For every text, NFC, NFD, NFKC and NFKD results equal the ones UAX #15 defines on the UCD data: full decomposition, canonical ordering, and composition excluding the full composition exclusions; Hangul is composed and decomposed algorithmically. The UTF-8 interface gives the same text.",
  ["inputs"], "all codepoint sequences up to the bounds, all four forms",
  "Ordering and blocking depend on sequences of combining classes; samples cover few, and NormalizationTest.txt is not run.",
  ["normalization.h", "normalization.cpp", "tablegen/case_norm_generator.cpp"], [("decompose, canonical order, compose", "normalization.cpp"), ("generated tables", "tablegen/case_norm_generator.cpp")],
  "Sequences up to the lengths in the evidence.", ["normalize", "canonical_combining_class", "canonical_decomposition", "hangul_compose", "hangul_decompose"])
prop("N02", "Normalization is stable and equivalence-preserving",
  "For every text, normalizing a normalized text changes nothing, normalized output is recognised as normalized in that form, a text is reported normalized exactly if normalizing leaves it unchanged, canonically equivalent texts have the same NFC and NFD, and the compatibility forms absorb the canonical ones.",
  ["inputs"], "all codepoint sequences up to the bounds, all four forms",
  "Idempotence and agreement are relations between runs on every input; tests check them on samples.",
  ["normalization.h", "normalization.cpp"], [("normalize, quick_check, is_normalized", "normalization.cpp")],
  "Sequences up to the lengths in the evidence.", ["normalize", "is_normalized", "quick_check", "is_canonically_equivalent"])
prop("N03", "Quick check never contradicts full normalization",
  "For every text and form, a quick check answer of Yes means normalizing leaves the text unchanged and No means it changes the text; the per-codepoint quick check values, combining classes, decompositions and composition exclusions equal the UCD's for every codepoint.",
  ["inputs"], "all codepoints; all codepoint sequences up to the bounds, all four forms",
  "A wrong entry among 1.1 million codepoints or a missed ordering violation is invisible to samples.",
  ["normalization.h", "normalization.cpp", "tablegen/case_norm_generator.cpp"], [("quick_check", "normalization.cpp"), ("lookup tables", "tablegen/case_norm_generator.cpp")],
  "All codepoints; sequences up to the lengths in the evidence.", ["quick_check", "nfc_quick_check", "nfd_quick_check", "nfkc_quick_check", "nfkd_quick_check"])
prop("N04", "Streaming normalization equals batch normalization",
  "For every text and form, feeding it codepoint by codepoint (or as UTF-8 in any chunks) to the streaming normalizer and flushing yields, concatenated, exactly the batch result, and after a flush or reset the normalizer behaves as new.",
  ["inputs", "histories"], "all texts and chunkings up to the bounds, all four forms",
  "Whether a boundary is safe depends on what follows; tests feed a few texts.",
  ["normalization.h", "normalization.cpp"], [("normalizer::is_boundary", "normalization.cpp"), ("utf8_normalizer::feed", "normalization.cpp")],
  "Sequences up to the lengths in the evidence.", ["normalizer::feed", "normalizer::flush", "utf8_normalizer"], [("_pending", "codepoints held back", "normalization.h")])
prop("M01", "Case mappings equal the UCD's, for codepoints and strings",
  "For every codepoint the simple and full upper, lower, title and fold mappings equal the UCD's unconditional ones; for every text the string operations equal mapping character by character (title case per word: first cased letter titled, later ones lowered), and the UTF-8 and UTF-32 operations agree. The case predicates (cased, case-ignorable, changes when mapped) agree with the UCD and the mappings, and values beyond U+10FFFF map to themselves.",
  ["inputs"], "all codepoints; all texts up to the bounds",
  "Tests check a few dozen mappings of 1.1 million codepoints.",
  ["case_mapping.h", "case_mapping.cpp", "tablegen/case_norm_generator.cpp"], [("lookup_simple, lookup_full", "case_mapping.cpp"), ("generated tables", "tablegen/case_norm_generator.cpp")],
  "All codepoints; strings up to the lengths in the evidence.", ["simple_uppercase", "full_uppercase", "to_uppercase", "to_titlecase", "casefold"])
prop("M02", "Case-insensitive comparison is an order compatible with folding",
  "For all texts, case-insensitive comparison is zero exactly if the case foldings are equal, has the sign of the codepoint-wise comparison of the foldings, is antisymmetric, and case folding is idempotent; the UTF-8 and UTF-32 comparisons agree.",
  ["inputs"], "all pairs of texts up to the bounds",
  "Relations between pairs of inputs; tests compare a few pairs.",
  ["case_mapping.h", "case_mapping.cpp"], [("casefold_compare", "case_mapping.cpp")],
  "Pairs of texts up to the lengths in the evidence.", ["casefold_compare", "casefold_equals", "casefold"])
prop("U01", "Property lookups return the UCD's value for every codepoint",
  "For every codepoint, the range-table queries (general category, script, script extensions, block, plane, core properties, grapheme cluster break, East Asian width, emoji properties, bidi mirroring, age names) return the value the Unicode Character Database lists (and the query's unspecified value where it lists none), and every 32-bit value beyond U+10FFFF is answered without reading out of bounds.",
  ["inputs"], "all 32-bit values",
  "Tests check a few codepoints; the tables hold thousands of ranges and a binary search over each.",
  ["ucd.h", "ucd_private.h", "tablegen/ucd_api_generator.cpp", "tablegen/ucd_parser.cpp"], [("binary search", "ucd_private.h"), ("generated range tables", "tablegen/ucd_api_generator.cpp")],
  "All codepoints and values up to 0x7FFFFF and from 0xFF800000.", ["general_category::get", "script", "script_extensions", "block", "plane", "contains", "is_emoji", "bidi_mirroring_glyph"])
prop("U02", "The compact property table equals the UCD and the range tables",
  "For every codepoint, every field of the multistage property record (category, script, break classes, widths, age, emoji class, flags) equals the Unicode Character Database's value and agrees with the corresponding range-table query; values beyond U+10FFFF are answered without reading out of bounds.",
  ["inputs"], "all 32-bit values",
  "One wrong block index spoils 256 codepoints nobody samples.",
  ["codepoint_properties.h", "multistage_table_view.h", "multistage_table_generator.h", "tablegen/multistage_generator.cpp"], [("multistage_table_view::get", "multistage_table_view.h"), ("table construction", "multistage_table_generator.h")],
  "All codepoints and values up to 0x7FFFFF and from 0xFF800000.", ["codepoint_properties::get"])
prop("U03", "Codepoint names are the UCD's",
  "For every codepoint, the name lookup returns the name the Unicode Character Database lists for it (for a listed range, the listed pattern; nothing for codepoints without a name), with the value of U+0000 for values out of range, and the lookup never reads out of bounds.",
  ["inputs"], "all codepoints",
  "Tests check a few names.",
  ["codepoint_properties.h", "tablegen/multistage_generator.cpp"], [("names multistage table", "tablegen/multistage_generator.cpp")],
  "All codepoints.", ["codepoint_properties::name"])

prop("U04", "Every property value prints as its name",
  "For every value of every property enumeration (and presentation style and emoji category), stream output and std::format write exactly the UCD's name of the value (the library's own name where the UCD has none), so two values never print alike; stream output of a number that is no value of the enumeration writes that number in parentheses.",
  ["inputs"], "all values of every enumeration, and numbers that are no value",
  "Tests print a handful of values; over 900 values have a name, in generated code nobody reads.",
  ["tablegen/enum_generator.cpp", "tablegen/enum_utils.h", "emoji_segmenter.h"], [("generated operator<< and formatters", "tablegen/enum_generator.cpp")],
  "All values of every enumeration; numbers that are no value up to the bound in the evidence.", ["operator<<", "std::formatter"])