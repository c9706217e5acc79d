From c1f6caa3a37574bdfaf44f041035b090debf0017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 01/21] fix: count regional indicators on every grapheme
 segmentation step

The run of regional indicators was only opened by grapheme_process_init() and
dropped behind a Prepend codepoint (GB9b), so a flag after a Prepend was torn
apart, and scan_text(), which goes on past a cluster boundary without
re-initialising the state, measured every indicator but the first as a cluster
of its own.
---
 src/libunicode/grapheme_segmenter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c71e5fa..c2b3dd3 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -42,13 +42,16 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     state.previousProperties = Pb;
 
     {
-        // Set state.ri_counter to zero if the next codepoint is not of category Regional_Indicator.
+        // Count (modulo 2) the run of Regional_Indicator codepoints ending in the next codepoint;
+        // any other codepoint ends the run. The run is maintained on every call, no matter which
+        // rule decides below, so that a run opened behind a Prepend (GB9b) or by a codepoint that
+        // starts a new cluster without grapheme_process_init() is counted, too.
         //
         // We move the state.ri_counter out to help GCC optimize
         // this code to be branchless.
         // Sadly only GCC succeeds in doing this and Clang fails.
         auto const ri_counter = state.ri_counter;
-        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? ri_counter : 0;
+        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? static_cast<uint8_t>((ri_counter + 1) % 2) : 0;
     }
 
     // GB3: Do not break between a CR and LF. Otherwise, break before and after controls.
@@ -143,11 +146,8 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     // GB12/GB13: Do not break within emoji flag sequences.
     // That is, do not break between regional indicator (RI) symbols
     // if there is an odd number of RI characters before the break point.
-    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 1)
-    {
-        state.ri_counter = static_cast<uint8_t>((state.ri_counter + 1) % 2);
+    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 0)
         return false;
-    }
 
     // GB999: Otherwise, break everywhere.
     return true;
-- 
2.43.0


From 587b689e4eb748fa5d55bc1b77f103740281bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 02/21] fix: let GB11 join across exactly one ZWJ

ExtPict Extend* ZWJ x ExtPict allows a single ZWJ. The tracking state survived
any number of them (and Extend behind one), so ExtPict ZWJ ZWJ ExtPict was
taken for one grapheme cluster.
---
 src/libunicode/grapheme_segmenter.cpp | 8 +++++---
 src/libunicode/grapheme_segmenter.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c2b3dd3..7855790 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -90,8 +90,10 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     {
         if (Pb.is_extended_pictographic())
             state.extpic_state = 1;
-        else if ((B == Grapheme_Cluster_Break::Extend || B == Grapheme_Cluster_Break::ZWJ) && prev_extpic_state == 1)
-            ; // keep state - Extend/ZWJ extend the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::Extend && prev_extpic_state == 1)
+            ; // keep state - Extend extends the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::ZWJ && prev_extpic_state == 1)
+            state.extpic_state = 2; // exactly one ZWJ completes the left hand side of GB11
         else
             state.extpic_state = 0;
     }
@@ -140,7 +142,7 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
 
     // GB11: Do not break within emoji modifier sequences or emoji zwj sequences.
     // Full rule: \p{Extended_Pictographic} Extend* ZWJ × \p{Extended_Pictographic}
-    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 1)
+    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 2)
         return false;
 
     // GB12/GB13: Do not break within emoji flag sequences.
diff --git a/src/libunicode/grapheme_segmenter.h b/src/libunicode/grapheme_segmenter.h
index faa0c2d..7e7eec3 100644
--- a/src/libunicode/grapheme_segmenter.h
+++ b/src/libunicode/grapheme_segmenter.h
@@ -41,7 +41,8 @@ struct grapheme_segmenter_state
 
     /// GB11 Extended Pictographic tracking state:
     /// 0 = no ExtPic context
-    /// 1 = saw ExtPic (or ExtPic followed by Extend*/ZWJ chain)
+    /// 1 = saw ExtPic Extend*
+    /// 2 = saw ExtPic Extend* ZWJ (ready for GB11)
     uint8_t extpic_state = 0;
 };
 
-- 
2.43.0


From ef2798e127f84d376b04b1f359b840b849c610bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 03/21] fix: keep marks that do not compose behind their
 starter in NFC and NFKC

compose() held the starter back until the next one and emitted the marks that
did not compose with it first, so NFC of x U+0301 was U+0301 x.
---
 src/libunicode/normalization.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a617c64..809f257 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -202,7 +202,10 @@ namespace
         if (i >= decomposed.size())
             return result;
 
-        char32_t starter = decomposed[i++];
+        // The last starter stays in place in the result, so that marks that do not compose with it
+        // remain behind it.
+        auto starterPosition = result.size();
+        result.push_back(decomposed[i++]);
         uint8_t last_ccc = 0;
 
         while (i < decomposed.size())
@@ -214,24 +217,19 @@ namespace
             char32_t composed = 0;
             if (last_ccc < ccc || last_ccc == 0)
             {
-                composed = try_compose(starter, cp);
+                composed = try_compose(result[starterPosition], cp);
             }
 
             if (composed != 0 && !is_composition_exclusion(composed))
             {
                 // Composition succeeded
-                starter = composed;
-            }
-            else if (ccc == 0)
-            {
-                // New starter
-                result.push_back(starter);
-                starter = cp;
-                last_ccc = 0;
+                result[starterPosition] = composed;
             }
             else
             {
                 // Can't compose, keep the character
+                if (ccc == 0)
+                    starterPosition = result.size(); // New starter
                 result.push_back(cp);
                 last_ccc = ccc;
             }
@@ -239,7 +237,6 @@ namespace
             ++i;
         }
 
-        result.push_back(starter);
         return result;
     }
 
-- 
2.43.0


From 18217b80ddb3bfc7630ea58faf91c8d51610daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 04/21] fix: do not compose U+11A7 as a Hangul trailing jamo

U+11A7 is the index base of the trailing jamo, not one of them: NFC of U+AC00
U+11A7 silently dropped it.
---
 src/libunicode/normalization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 809f257..b47bf1f 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -104,7 +104,8 @@ namespace
         {
             if ((first - hangul::SBase) % hangul::TCount == 0)
             {
-                if (second >= hangul::TBase && second < hangul::TBase + hangul::TCount)
+                // TBase itself is one below the first trailing jamo and does not compose.
+                if (second > hangul::TBase && second < hangul::TBase + hangul::TCount)
                 {
                     // LV + T -> LVT
                     return first + (second - hangul::TBase);
-- 
2.43.0


From 3b562db332c9861f6d99ff70c7281ab0ebeca3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 05/21] fix: report singletons and non-starter decompositions
 as full composition exclusions

is_full_composition_exclusion() only knew CompositionExclusions.txt and was
false for U+0340, U+2126 and every other derived member of the property.
---
 src/libunicode/normalization.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index b47bf1f..b19765d 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -295,7 +295,17 @@ bool is_composition_exclusion(char32_t codepoint) noexcept
 
 bool is_full_composition_exclusion(char32_t codepoint) noexcept
 {
-    return is_composition_exclusion(codepoint);
+    if (is_composition_exclusion(codepoint))
+        return true;
+
+    // Besides the script-specific and post-composition exclusions, canonical singletons
+    // and non-starter decompositions never are the result of a composition.
+    auto const decomposition = find_decomposition(detail::canonical_decomposition_table, codepoint);
+    if (decomposition.empty())
+        return false;
+
+    return decomposition.size() == 1 || canonical_combining_class(codepoint) != 0
+           || canonical_combining_class(decomposition.front()) != 0;
 }
 
 // ============================================================================
-- 
2.43.0


From 090a2c03e581c87f5c45146c4daa60425e8a3bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 06/21] fix: do not split the streaming normalizer before a
 starter that decomposes to marks

U+0F73, U+0F75, U+0F81 and, in NFKD, U+FF9E and U+FF9F are starters whose
decomposition begins with a non-starter, so canonical ordering crosses them:
the streamed NFD or NFKD differed from normalizing the whole text.
---
 src/libunicode/normalization.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index b19765d..4a90ea1 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -555,9 +555,14 @@ bool normalizer::is_boundary(char32_t codepoint) const noexcept
     if (canonical_combining_class(codepoint) != 0)
         return false;
 
-    // For decomposition forms, every starter is a safe boundary
+    // For decomposition forms, a starter is a safe boundary unless its decomposition begins with a
+    // non-starter (such as U+0F73, or U+FF9E in NFKD), which is ordered among the marks before it.
     if (_form == Normalization_Form::NFD || _form == Normalization_Form::NFKD)
-        return true;
+    {
+        std::u32string decomposed;
+        decompose_recursive(codepoint, decomposed, _form == Normalization_Form::NFKD);
+        return canonical_combining_class(decomposed.front()) == 0;
+    }
 
     // For composition forms, a starter is safe only if its quick-check value
     // is Yes (it cannot compose with the preceding segment)
-- 
2.43.0


From 58b2d0db08698aa52630f60ad75b2c7de3954656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 07/21] fix: let u32u8_convert() fill the destination to its
 last byte

dlen is the number of bytes that may be written at most, but a conversion that
fits exactly was rejected with -1.
---
 src/libunicode/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index cb2b105..dafa4dd 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -110,7 +110,7 @@ int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t
         u8_char_t buf[4];
         auto const bufEnd = conv(source[i], buf);
         auto const bufLength = static_cast<size_t>(std::distance(buf, bufEnd));
-        if (!(bufLength < dlen))
+        if (bufLength > dlen)
             return -1;
 
         for (size_t k = 0; k < bufLength; ++k)
-- 
2.43.0


From 54d6e303e7aa59481bbaaee120fd3f1a78ea6ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 08/21] fix: measure an empty sequence as zero columns in
 u32_gc_width()

In the non-modifiable mode the first codepoint of the (empty) first cluster was
read out of bounds, and its width returned.
---
 src/libunicode/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index dafa4dd..c4d9213 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -43,6 +43,9 @@ int u8_gc_count(u8_char_t const* codepoints, size_t size)
 
 int u32_gc_width(u32_char_t const* codepoints, size_t size, int mode)
 {
+    if (!size)
+        return 0;
+
     auto const text = std::u32string_view(reinterpret_cast<char32_t const*>(codepoints), size);
     auto totalWidth = 0;
     auto segmenter = unicode::grapheme_segmenter(text);
-- 
2.43.0


From 26b1d7565ed8756eb7a55c1ba9bf1003bb147bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 09/21] fix: do not read past the end of truncated UTF-8 and
 UTF-16 in convert_to()

The decoders that pull from an iterator read all units of a sequence without
knowing the end: a truncated UTF-8 sequence or a trailing high surrogate was
read out of bounds, after which the loop ran past the end for good.
---
 src/libunicode/convert.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 5b57e0b..6482822 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -342,7 +342,17 @@ OutputIterator convert_to(std::basic_string_view<S> input, OutputIterator output
         encoder<T> write {};
         while (i != e)
         {
-            auto const outChar = read(i);
+            auto outChar = std::optional<char32_t> {};
+            if constexpr (std::is_same_v<S, char>)
+                outChar = read(static_cast<uint8_t>(*i++)); // byte-wise: a truncated sequence ends with the input
+            else
+            {
+                // A high surrogate that ends the input has no low surrogate to be read behind it.
+                if constexpr (sizeof(S) == 2)
+                    if (*i >= 0xD800 && *i < 0xDC00 && std::next(i) == e)
+                        break;
+                outChar = read(i);
+            }
             if (outChar.has_value())
                 output = write(outChar.value(), output);
         }
-- 
2.43.0


From 589b9041970238e8692a7be789f42a31a78e32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 10/21] fix: keep scan_text within maxColumnCount on invalid
 UTF-8, and invalid bytes out of clusters

---
 src/libunicode/scan.cpp | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 70b8aa0..5724f15 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -110,6 +110,18 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         clusterStart = clusterEnd;
     };
 
+    // The codepoint being decoded may have been started by an earlier call. Its first bytes are not
+    // among the ones of this call then, but in the decoder state this call was entered with.
+    auto const stateAtEntry = state;
+    bool codepointResumed = stateAtEntry.utf8.expectedLength != 0;
+
+    // Puts back the codepoint (or invalid sequence) that was decoded last, because it does not fit.
+    auto const putBackCodepoint = [&]() noexcept {
+        input -= byteCount;
+        byteCount = 0;
+        state.utf8 = codepointResumed ? stateAtEntry.utf8 : utf8_decoder_state {};
+    };
+
     while (input != end && count <= maxColumnCount)
     {
         // Stop at a C1 control (0x80..0x9F) sitting at a character boundary: it is a control, not
@@ -118,16 +130,24 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         // part of its multi-byte codepoint.
         if (is_control(*input) || !is_complex(*input) || (state.utf8.expectedLength == 0 && is_c1_control(*input)))
         {
-            // A control ends whatever cluster was open, so hand it over before dropping the state.
-            flushOpenCluster(input);
-
             // Incomplete UTF-8 sequence hit. That's invalid as well.
             if (state.utf8.expectedLength)
             {
+                if (count + 1 > maxColumnCount)
+                {
+                    putBackCodepoint();
+                    break;
+                }
+                flushOpenCluster(input - byteCount);
+                clusterStart = input; // the bytes of the incomplete sequence belong to no cluster
+                byteCount = 0;
                 ++count;
                 receiver.receiveInvalidGraphemeCluster();
                 state.utf8 = {};
             }
+
+            // A control ends whatever cluster was open, so hand it over before dropping the state.
+            flushOpenCluster(input);
             state.lastCodepointHint = 0;
             state.graphemeState = {};
             state.clusterWidth.reset();
@@ -217,11 +237,21 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 state.reportedClusterWidth = updatedWidth;
                 resultEnd = input;
             }
+            codepointResumed = false;
         }
         else
         {
             assert(holds_alternative<Invalid>(result));
+            if (count + 1 > maxColumnCount)
+            {
+                // No column left for the replacement character.
+                putBackCodepoint();
+                break;
+            }
             flushOpenCluster(input - byteCount);
+            clusterStart = input; // the invalid bytes belong to no cluster
+            resultEnd = input;
+            codepointResumed = false;
             count++;
             receiver.receiveInvalidGraphemeCluster();
             clusterWidthCountedHere = 0;
@@ -234,8 +264,8 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         }
     }
 
-    // Hand over whatever cluster the scan ended inside of.
-    flushOpenCluster(input);
+    // Hand over whatever cluster the scan ended inside of, without the bytes of an incomplete codepoint.
+    flushOpenCluster(input - byteCount);
 
     assert(resultStart <= resultEnd);
 
-- 
2.43.0


From c5c2184cd1381008cb686a4644691ffcb704ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 11/21] fix: let scan_text keep a lead byte that ends an
 incomplete UTF-8 sequence

---
 src/libunicode/scan.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 5724f15..dc698fe 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -248,9 +248,11 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 putBackCodepoint();
                 break;
             }
+            // A lead byte ends the sequence in front of it, and has begun the next codepoint already.
+            auto const leadByteCount = static_cast<unsigned>(state.utf8.expectedLength != 0);
             flushOpenCluster(input - byteCount);
-            clusterStart = input; // the invalid bytes belong to no cluster
-            resultEnd = input;
+            clusterStart = input - leadByteCount; // the invalid bytes belong to no cluster
+            resultEnd = clusterStart;
             codepointResumed = false;
             count++;
             receiver.receiveInvalidGraphemeCluster();
@@ -259,8 +261,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
             state.reportedClusterWidth = 0;
             state.lastCodepointHint = 0;
             state.graphemeState = {};
-            state.utf8.expectedLength = 0;
-            byteCount = 0;
+            byteCount = leadByteCount;
         }
     }
 
-- 
2.43.0


From b428574a336f45f34c592361317ca4e274ef9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 12/21] fix: leave scan_text's state untouched by a cluster
 that does not fit

---
 src/libunicode/scan.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index dc698fe..c081220 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -167,7 +167,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
             auto const prevCodepoint = state.lastCodepointHint;
             auto const nextCodepoint = get<Success>(result).value;
             char const* const codepointStart = input - byteCount;
-            byteCount = 0;
+            auto const prevGraphemeState = state.graphemeState;
             state.lastCodepointHint = nextCodepoint;
 
             bool const breakable = [&] {
@@ -188,8 +188,11 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
 
                 if (count + nextWidth > maxColumnCount)
                 {
-                    // Currently scanned grapheme cluster won't fit. Break at its start.
-                    input = codepointStart;
+                    // Currently scanned grapheme cluster won't fit. Break at its start, as if it had
+                    // not been looked at yet.
+                    state.lastCodepointHint = prevCodepoint;
+                    state.graphemeState = prevGraphemeState;
+                    putBackCodepoint();
                     break;
                 }
 
@@ -219,10 +222,22 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                         // back -- a caller cannot render part of one -- and un-count only what this
                         // call contributed to it.
                         count -= clusterWidthCountedHere;
+                        byteCount = 0;
                         input = clusterStart;
-                        resultEnd = clusterStart;
-                        state.clusterWidth.reset();
-                        state.reportedClusterWidth = 0;
+                        if (clusterStart != start)
+                        {
+                            resultEnd = clusterStart;
+                            state.lastCodepointHint = 0;
+                            state.graphemeState = {};
+                            state.clusterWidth.reset();
+                            state.reportedClusterWidth = 0;
+                        }
+                        else
+                        {
+                            // Everything this call has looked at is put back.
+                            resultEnd = resultStart;
+                            state = stateAtEntry;
+                        }
                         break;
                     }
                     count += added;
@@ -237,6 +252,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 state.reportedClusterWidth = updatedWidth;
                 resultEnd = input;
             }
+            byteCount = 0;
             codepointResumed = false;
         }
         else
-- 
2.43.0


From 6352a1fea8454debbc8fa671f116068336d221a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 13/21] fix: do not step scan_text back before the buffer on a
 resumed codepoint

---
 src/libunicode/scan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index c081220..7e2b4fb 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -324,7 +324,7 @@ scan_result scan_text(scan_state& state,
     if (state.utf8.expectedLength != 0)
     {
         result = detail::scan_for_text_nonascii(state, text, maxColumnCount, receiver);
-        text = std::string_view(result.end, static_cast<size_t>(std::distance(result.end, text.data() + text.size())));
+        text.remove_prefix(static_cast<size_t>(std::distance(text.data(), state.next)));
     }
 
     if (text.empty())
-- 
2.43.0


From 7b8f223f5c67586d23fe7a3d3b5f3f255b06b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 14/21] fix: forget transparent codepoints of earlier text in
 word_process_init()

---
 src/libunicode/word_segmenter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/word_segmenter.cpp b/src/libunicode/word_segmenter.cpp
index c3a50d0..b1d840f 100644
--- a/src/libunicode/word_segmenter.cpp
+++ b/src/libunicode/word_segmenter.cpp
@@ -88,6 +88,7 @@ void word_process_init(char32_t firstCodepoint, word_segmenter_state& state) noe
 
     state.raw_prev_wb = wb;
     state.prev_prev_wb = Word_Break::Other;
+    state.saw_transparent = false;
 
     if (is_transparent(wb))
     {
-- 
2.43.0


From c3a109132c6cd0bde6cf61a5b29855ca59ca3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 15/21] fix: drop an incomplete UTF-8 sequence when the
 normalizer is flushed

---
 src/libunicode/normalization.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 4a90ea1..b78c9a6 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -642,6 +642,15 @@ std::string_view utf8_normalizer::flush()
 {
     _utf8Output.clear();
 
+    // A sequence cut off by the end of the input is invalid, and must not reach into the next text.
+    if (_utf8State.expectedLength != 0)
+    {
+        _utf8State = {};
+        auto const segment = _inner.feed(char32_t { 0xFFFD });
+        if (!segment.empty())
+            convert_to<char>(segment, std::back_inserter(_utf8Output));
+    }
+
     auto segment = _inner.flush();
     if (!segment.empty())
         convert_to<char>(segment, std::back_inserter(_utf8Output));
-- 
2.43.0


From 67b303a09bf3d79f911209740f93e3491c60c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:12 +0000
Subject: [PATCH 16/21] fix: unlisted codepoints are East_Asian_Width=Neutral
 in the property records, not Narrow

---
 src/libunicode/codepoint_properties.h            | 2 +-
 src/libunicode/tablegen/multistage_generator.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libunicode/codepoint_properties.h b/src/libunicode/codepoint_properties.h
index 64ff591..f47820e 100644
--- a/src/libunicode/codepoint_properties.h
+++ b/src/libunicode/codepoint_properties.h
@@ -30,7 +30,7 @@ struct LIBUNICODE_PACKED codepoint_properties
     uint8_t flags2 = 0;
     Script script = Script::Unknown;
     Grapheme_Cluster_Break grapheme_cluster_break = Grapheme_Cluster_Break::Other;
-    East_Asian_Width east_asian_width = East_Asian_Width::Narrow;
+    East_Asian_Width east_asian_width = East_Asian_Width::Neutral;
     General_Category general_category = General_Category::Unassigned;
     EmojiSegmentationCategory emoji_segmentation_category = EmojiSegmentationCategory::Invalid;
     Age age = Age::Unassigned;
diff --git a/src/libunicode/tablegen/multistage_generator.cpp b/src/libunicode/tablegen/multistage_generator.cpp
index 5c58c09..0b0aa99 100644
--- a/src/libunicode/tablegen/multistage_generator.cpp
+++ b/src/libunicode/tablegen/multistage_generator.cpp
@@ -392,7 +392,7 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
     {
         auto scriptUnknown = scriptIndex.count("Unknown") ? scriptIndex.at("Unknown") : uint8_t(1);
         auto gcbOther = gcbIndex.count("Other") ? gcbIndex.at("Other") : uint8_t(0);
-        auto eawNarrow = eawIndex.count("Narrow") ? eawIndex.at("Narrow") : uint8_t(0);
+        auto eawNeutral = eawIndex.count("Neutral") ? eawIndex.at("Neutral") : uint8_t(0);
         // General_Category::Unassigned is a member name in the GC enum
         auto gcUnassigned = gcIndex.count("Unassigned") ? gcIndex.at("Unassigned") : uint8_t(0);
         auto incbNone = incbIndex.count("None") ? incbIndex.at("None") : uint8_t(3);
@@ -401,7 +401,7 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
         {
             rec.script = scriptUnknown;
             rec.grapheme_cluster_break = gcbOther;
-            rec.east_asian_width = eawNarrow;
+            rec.east_asian_width = eawNeutral;
             rec.general_category = gcUnassigned;
             rec.indic_conjunct_break = incbNone;
             rec.word_break = wbOther;
-- 
2.43.0


From 8688a250104a087a3db0d7f08ffac8103e5a3387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:38 +0000
Subject: [PATCH 17/21] fix: codepoint names above U+FFFF were looked up in the
 wrong block (8-bit block numbers)

---
 src/libunicode/codepoint_properties.h            | 2 +-
 src/libunicode/codepoint_properties_loader.h     | 2 +-
 src/libunicode/tablegen/multistage_generator.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libunicode/codepoint_properties.h b/src/libunicode/codepoint_properties.h
index f47820e..aab377d 100644
--- a/src/libunicode/codepoint_properties.h
+++ b/src/libunicode/codepoint_properties.h
@@ -87,7 +87,7 @@ struct LIBUNICODE_PACKED codepoint_properties
 
     using names_view = support::multistage_table_view<std::string_view,
                                                       uint32_t,     // source type
-                                                      uint8_t,      // stage 1
+                                                      uint16_t,     // stage 1
                                                       uint16_t,     // stage 2
                                                       256,          // block size
                                                       0x110'000 - 1 // max value
diff --git a/src/libunicode/codepoint_properties_loader.h b/src/libunicode/codepoint_properties_loader.h
index 56fbb5a..8697d1c 100644
--- a/src/libunicode/codepoint_properties_loader.h
+++ b/src/libunicode/codepoint_properties_loader.h
@@ -31,7 +31,7 @@ using codepoint_properties_table = support::multistage_table<codepoint_propertie
 
 using codepoint_names_table = support::multistage_table<std::string,
                                                         uint32_t,     // source type
-                                                        uint8_t,      // stage 1
+                                                        uint16_t,     // stage 1
                                                         uint16_t,     // stage 2
                                                         256,          // block size
                                                         0x110'000 - 1 // max value
diff --git a/src/libunicode/tablegen/multistage_generator.cpp b/src/libunicode/tablegen/multistage_generator.cpp
index 0b0aa99..952d3ff 100644
--- a/src/libunicode/tablegen/multistage_generator.cpp
+++ b/src/libunicode/tablegen/multistage_generator.cpp
@@ -642,7 +642,7 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
 
     std::cout << "[tablegen]   Generating multistage tables (names)...\n";
 
-    using NamesTable = support::multistage_table<std::string, uint32_t, uint8_t, uint16_t, BLOCK_SIZE, CODEPOINT_COUNT - 1>;
+    using NamesTable = support::multistage_table<std::string, uint32_t, uint16_t, uint16_t, BLOCK_SIZE, CODEPOINT_COUNT - 1>;
     NamesTable namesTable {};
     support::generate(names.data(), names.size(), namesTable, std::hash<std::string> {});
 
-- 
2.43.0


From 9301d01d5123fdb482fe2dd632afc155a7956d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:15 +0000
Subject: [PATCH 18/21] fix: let a control end the cluster an earlier scan_text
 call left open

---
 src/libunicode/scan.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 7e2b4fb..dc2d30c 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -338,7 +338,17 @@ scan_result scan_text(scan_state& state,
             case NextState::Trivial: {
                 auto const count = detail::scan_for_text_ascii(text, maxColumnCount - result.count);
                 if (!count)
+                {
+                    // A control ends whatever cluster an earlier call has left open.
+                    if (is_control(text.front()))
+                    {
+                        state.lastCodepointHint = 0;
+                        state.graphemeState = {};
+                        state.clusterWidth.reset();
+                        state.reportedClusterWidth = 0;
+                    }
                     return result;
+                }
                 receiver.receiveAsciiSequence(text.substr(0, count));
 
                 // A cluster does not have to respect the boundary between the two scanners: the last
-- 
2.43.0


From ce0ac4871a73cbfcdfc5e548885dd515f86224fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:35 +0000
Subject: [PATCH 19/21] fix: close the parenthesis of u32_is_valid_codepoint()

---
 src/libunicode/capi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index 8948ba6..bece44b 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -38,7 +38,7 @@ extern "C"
  * Verifies that _p codepoint is a valid codepoint,
  */
 #define u32_is_valid_codepoint(_codepoint) \
-    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF)
+    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF))
 
 /**
  * Extracts the unused higher order bits and moves them bit-wise to the right.
-- 
2.43.0


From 1c314343c20a2f278ee70ef10b2d474040c90ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:35 +0000
Subject: [PATCH 20/21] fix: give the C API C linkage in C++ and keep extern
 "C" from C compilers

---
 src/libunicode/capi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index bece44b..5cf8ade 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -17,7 +17,7 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 extern "C"
 {
 #endif
@@ -215,7 +215,7 @@ extern "C"
      */
     int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t dlen);
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 }
 #endif
 
-- 
2.43.0


From 8c73e4dab8125271a2aaec3e94cbded965c95b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:35 +0000
Subject: [PATCH 21/21] fix: report a UTF-8 sequence cut off by the end as
 U+FFFD, not as U+0000, in utf8_grapheme_segmenter

---
 src/libunicode/utf8_grapheme_segmenter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 37dc094..b834928 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -132,7 +132,8 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
         }
     }
     auto const result = _nextCodepoint;
-    _nextCodepoint = 0;
+    // A sequence cut off by the end of the text is invalid, too.
+    _nextCodepoint = _nextCodepointStart != _end ? ReplacementChar : char32_t { 0 };
     return result;
 }
 
-- 
2.43.0

