"""Which solver queries decide which property."""
import os
from run import Job, Runner
from vf import HARN
from vf import Inconclusive

PROPS = {}
def prop(pid, assumptions=()):
    def deco(f): PROPS[pid] = (f, list(assumptions)); return f
    return deco

def draft(pid, assumptions=()):
    import os
    return prop(pid, assumptions) if os.environ.get("VF_DRAFT") else (lambda f: f)

GB_TUS = ["grapheme_segmenter", "codepoint_properties", "codepoint_properties_data", "ucd", "capi", "convert", "utf8", "width"]
@prop("G01")
def p_gb(tier):
    T = tier == "thorough"
    gcb = ["gcb", "gbm1", "gbm2", "gbm3"]
    j = []
    def add(mode, n, what, required=False, time=200):
        fl = ["--nomerge"] if mode in (2, 4, 5) else []
        j.append(Job("gb-m%d-n%d" % (mode, n), "gb.cpp", GB_TUS, params=[mode, n], refs=gcb, time=time, required=required, bound=what, flags=fl))
    add(0, 8, "every sequence of 8 codepoints (U+0000..U+10FFFF), process functions", True)
    add(0, 24 if T else 14, "long sequences, process functions")
    for n in range(1, 5): add(1, n, "every sequence of %d codepoints, grapheme_segmenter" % n, n <= 3)
    if T: add(1, 5, "every sequence of 5 codepoints, grapheme_segmenter", time=600); add(1, 6, "6", time=700)
    for n in range(1, 3): add(2, n, "every well-formed UTF-8 text of %d codepoints, utf8_grapheme_segmenter" % n, True)
    if T: add(2, 3, "UTF-8 text of 3 codepoints", time=700)
    for n in range(0, 5): add(3, n, "every sequence of %d codepoints, u32_gc_count/u32_grapheme_unbreakable" % n, n <= 3)
    add(6, 4, "grapheme_process_init on a state left by any text of 3 codepoints, then every sequence of 4 codepoints", True)
    add(4, 1, "every UTF-8 text of 1 codepoint, u8_gc_count"); add(4, 2, "every UTF-8 text of 2 codepoints, u8_gc_count")
    for mode, what in ((1, "grapheme_segmenter"), (2, "utf8_grapheme_segmenter on UTF-8"), (3, "u32_gc_count"), (4, "u8_gc_count on UTF-8")):
        for t, k, n, c in ((1, 5, 6, "letters, marks, ZWJ, pictographs and flags"), (2, 6, 6, "Indic conjuncts, prepended and spacing marks"), (3, 7, 5, "jamo, syllables, CR and LF")):
            for m in (n, n + 1) if T else (n,):
                j.append(Job("gb-m%d-n%d-set%d" % (mode, m, t), "gb.cpp", GB_TUS, params=[mode, m, t], refs=gcb, time=300, required=m == n, flags=["--nomerge"], bound="every text of %d out of %d codepoints (%s), %s" % (m, k, c, what)))
    add(5, 2, "arbitrary 32-bit values")
    def long(mode, n, t, k, what, fl, req=True): j.append(Job("gb-m%d-n%d-set%d-x%d" % (mode, n, t, k), "gb.cpp", GB_TUS, params=[mode, n, t, k], refs=gcb, time=300, required=req, flags=fl, bound="every text of %d codepoints%s with %d or %d codepoints x y x y ... behind the first, x and y out of 18, %s" % (n, " out of 5..7" if t else "", k, k + 1, what)))
    for t in (1, 2, 3): long(0, 3, t, 300, "process functions", NM); long(1, 2, t, 300, "grapheme_segmenter", NM); long(2, 2, t, 40, "utf8_grapheme_segmenter", NM)
    return j

CONV_TUS = ["capi", "convert", "convert256", "convert512", "utf8", "grapheme_segmenter", "codepoint_properties", "codepoint_properties_data", "ucd", "width"]
NM = ["--nomerge"]
def conv_job(mode, n, what, required=False, time=240, w=0, rep=0):
    return Job("conv-m%d-n%d%s%s" % (mode, n, "-x%d" % rep if rep else "", "-w%d" % w if w else ""), "conv.cpp", CONV_TUS, params=[mode, n, rep, 0, 0, 0, 0, w], time=time, required=required, bound=what, flags=NM)

@prop("C01", ["wchar_t is 32 bits wide"])
def p_c01(tier):
    T = tier == "thorough"
    j = []
    for n in range(0, 5 if T else 4):
        j.append(conv_job(0, n, "every text of %d scalar values: to_utf8, encoder, from_utf8 (streaming, one-shot), decoder (bytewise, iterator), C API stream" % n, n <= 2, time=600))
    for n in range(0, 5 if T else 4):
        for w in (0, 256, 512) if n in (1, 2) or T else (0,):
            j.append(conv_job(1, n, "every text of %d scalar values: convert_to in all directions, from_utf8(string_view), to_utf8(u32string_view), dispatch width %d" % (n, w or 128), n <= 2, time=600, w=w))
    x = "every text of %d scalar values x y x y ... between two arbitrary ones, x and y out of 10, "
    j += [conv_job(0, 2, x % 70 + "streaming and one-shot coders", True, rep=70)] + [conv_job(1, 2, x % 70 + "convert_to in all directions, dispatch width %d" % (w or 128), True, rep=70, w=w) for w in (0, 256, 512)] + [conv_job(1, 1, "300 scalar values x y x y ... behind an arbitrary one, x and y out of 10, convert_to in all directions", True, rep=300)]
    return j

@prop("C02")
def p_c02(tier):
    T = tier == "thorough"
    j = []
    for n in range(0, 9 if T else 7):
        j.append(conv_job(2, n, "every byte string of %d bytes in a buffer of exactly that size" % n, n <= 4, time=600))
    for n in range(0, 7 if T else 6):
        j.append(conv_job(3, n, "from_utf8 after every string of %d bytes, followed by every scalar of 2 to 4 bytes" % n, n <= 3, time=600))
    for n in range(0, 6 if T else 5):
        j.append(conv_job(4, n, "every UTF-16 string of %d units in a buffer of exactly that size" % n, n <= 3, time=600))
    for n in range(1, 4 if T else 3):
        j.append(conv_job(5, n, "every UTF-32 string of %d values from 0..0x7FFFFF and 0xFF800000..0xFFFFFFFF" % n, n <= 1, time=600))
    j.append(conv_job(2, 2, "every two bytes with 70 bytes x y x y ... between them, x and y out of 7, in a buffer of exactly that size", True, rep=70))
    j.append(conv_job(4, 2, "every two UTF-16 units with 70 units x y x y ... between them, x and y out of 8, in a buffer of exactly that size", True, rep=70))
    return j

SIMD_TUS = ["convert", "convert256", "convert512", "scan256", "scan512", "utf8"]
SSE = ["-msse4.1"]
@prop("C03", ["the x86-64 intrinsic paths (LIBUNICODE_USE_INTRINSICS); the std::simd and NEON variants are not compiled here"])
def p_c03(tier):
    T = tier == "thorough"
    j = []
    for mode, nm in ((0, "UTF-32"), (1, "UTF-16")):
        for w, rs in ((128, [(0, 20), (21, 40), (41, 60)] + ([(61, 80), (81, 100)] if T else [])), (256, [(0, 20), (21, 40), (41, 60), (61, 70), (94, 100)] + ([(71, 93), (126, 132)] if T else [])), (512, [(0, 30), (31, 50), (51, 62), (63, 70), (126, 132)] + ([(71, 90), (91, 110), (111, 125), (190, 194)] if T else []))):
            for lo, hi in rs:
                j.append(Job("simd-to%s-w%d-%d..%d" % (nm[-2:], w, lo, hi), "simd.cpp", SIMD_TUS, params=[mode, w, lo, hi], time=600, required=True, defs=SSE, flags=NM,
                             bound="every text of %d..%d bytes made of ASCII and at most one other scalar at any offset, to %s, %d-bit path" % (lo, hi, nm, w)))
        for w, lo, hi in ((128, 18, 20), (256, 33, 34), (512, 65, 65)) + (((128, 0, 17), (128, 30, 36), (256, 64, 66), (512, 66, 68)) if T else ()):
            j.append(Job("simd-to%s-w%d-%d..%d-two" % (nm[-2:], w, lo, hi), "simd.cpp", SIMD_TUS, params=[mode, w, lo, hi, 1], time=600, required=w < 512, defs=SSE, flags=NM,
                         bound="every text of %d..%d bytes made of ASCII and at most two other scalars at any offset, to %s, %d-bit path" % (lo, hi, nm, w)))
        for w, n in ((128, 129), (128, 260), (256, 260), (512, 260)):
            j.append(Job("simd-to%s-w%d-%d" % (nm[-2:], w, n), "simd.cpp", SIMD_TUS, params=[mode, w, n, n], time=600, required=True, defs=SSE, flags=NM,
                         bound="every text of %d bytes made of ASCII and at most one other scalar at any offset, to %s, %d-bit path" % (n, nm, w)))
    return j

@prop("C04", ["the x86-64 intrinsic paths (LIBUNICODE_USE_INTRINSICS); the std::simd and NEON variants are not compiled here"])
def p_c04(tier):
    T = tier == "thorough"
    j = []
    for w, rs in ((128, [(0, 19), (20, 28), (29, 34)] + ([(35, 42), (43, 50)] if T else [])), (256, [(0, 31), (32, 38)] + ([(39, 50), (63, 70)] if T else [])), (512, [(0, 40), (63, 67)] + ([(41, 62), (68, 76), (127, 131)] if T else []))):
        for lo, hi in rs:
            j.append(Job("scan-w%d-%d..%d" % (w, lo, hi), "simd.cpp", SIMD_TUS, params=[2, w, lo, hi, 0], time=700, required=lo < 40, defs=SSE, flags=[],
                         bound="every string of %d..%d bytes, no column limit, %d-bit path" % (lo, hi, w)))
    for w in (128, 256, 512):
        for lo, hi in ((0, 70), (71, 132), (190, 194), (255, 258), (512, 514)):
            j.append(Job("scan-w%d-%d..%d-one" % (w, lo, hi), "simd.cpp", SIMD_TUS, params=[3, w, lo, hi, 0], time=700, required=True, defs=SSE, flags=NM,
                         bound="every text of %d..%d bytes with at most one control, non-ASCII byte or other ASCII character anywhere, no column limit, %d-bit path" % (lo, hi, w)))
        j.append(Job("scanlimit-w%d-67-one" % w, "simd.cpp", SIMD_TUS, params=[3, w, 67, 67, 1], time=700, required=True, defs=SSE, flags=NM,
                     bound="every text of 67 bytes with at most one control, non-ASCII byte or other ASCII character anywhere, every column limit, %d-bit path" % w))
    for w, lo, hi in ((128, 17, 21), (256, 33, 36), (512, 65, 67)):
        j.append(Job("scanlimit-w%d-%d..%d" % (w, lo, hi), "simd.cpp", SIMD_TUS, params=[2, w, lo, hi, 1], time=700, required=True, defs=SSE, flags=[],
                     bound="every string of %d..%d bytes, column limits around the length, %d-bit path" % (lo, hi, w)))
    return j

WB_TUS = ["word_segmenter", "codepoint_properties", "codepoint_properties_data"]
@prop("W01")
def p_wb(tier):
    T = tier == "thorough"
    j = []
    def add(mode, n, what, required=False, time=300):
        j.append(Job("wb-m%d-n%d" % (mode, n), "wb.cpp", WB_TUS, params=[mode, n], refs=["wb", "wbm1", "wbm2"], time=time, required=required, bound=what, flags=NM if mode in (1, 2) else []))
    for n in (6, 8) + ((10, 14) if T else ()): add(0, n, "every sequence of %d codepoints, word_process_init/word_process_breakable with all following text" % n, n <= 6, 700)
    add(3, 4, "word_process_init on a state left by any text of 3 codepoints, then every sequence of 4 codepoints", True)
    for n in range(0, 5): add(1, n, "every sequence of %d codepoints, word_segmenter" % n, n <= 3)
    if T: add(1, 5, "every sequence of 5 codepoints, word_segmenter", time=700); add(1, 6, "every sequence of 6 codepoints, word_segmenter", time=700)
    for t, c in ((1, "letters, digits, middle punctuation, marks and pictographs"), (2, "flags, Hebrew letters, quotes, blanks, ZWJ and connectors")):
        for n in (7, 8) if T else (6,):
            j.append(Job("wb-m1-n%d-set%d" % (n, t), "wb.cpp", WB_TUS, params=[1, n, t], refs=["wb", "wbm1", "wbm2"], time=500, required=n < 8, flags=NM, bound="every text of %d out of 6 codepoints (%s), word_segmenter" % (n, c)))
    for mode, n, t, k, what in ((0, 3, 1, 300, "process functions"), (0, 3, 2, 300, "process functions"), (1, 3, 1, 300, "word_segmenter"), (1, 3, 2, 300, "word_segmenter")):
        j.append(Job("wb-m%d-n%d-set%d-x%d" % (mode, n, t, k), "wb.cpp", WB_TUS, params=[mode, n, t, k], refs=["wb", "wbm1", "wbm2"], time=400, required=True, flags=NM if t else [], bound="every text of %d codepoints%s with %d or %d codepoints x y x y ... behind the first, x and y out of 16, %s" % (n, " out of 6" if t else "", k, k + 1, what)))
    for n in (1, 2): add(2, n, "every sequence of %d values from 0..0x7FFFFF and 0xFF800000..0xFFFFFFFF, word_segmenter" % n, n == 1)
    return j

@prop("D01")
def p_width(tier):
    T = tier == "thorough"
    j = []
    def add(mode, n, what, required=False, time=300, fl=()):
        j.append(Job("width-m%d-n%d" % (mode, n), "width.cpp", GB_TUS, params=[mode, n], refs=["gcb", "w", "wm1", "wm2"], time=time, required=required, bound=what, flags=fl))
    add(0, 1, "every codepoint", True)
    add(4, 1, "every value from 0..0x7FFFFF and 0xFF800000..0xFFFFFFFF", True, fl=NM)
    for n in (0, 1, 2, 3) + ((4,) if T else ()): add(1, n, "every sequence of %d codepoints: accumulator after every step and grapheme_cluster_width" % n, n <= 3)
    for n in (4, 5) + ((6, 7) if T else ()): add(5, n, "every sequence of %d codepoints, accumulator" % n, n <= 4, 700 if T else 300)
    for n in (0, 1, 2) + ((3,) if T else ()): add(2, n, "every text of %d codepoints: u32_gc_width, both modes" % n, n <= 2, 700)
    for t, c in ((2, "an emoji, a keycap base, variation selectors, ZWJ and a modifier"), (3, "flags, Indic letters and signs, a mark, a letter")):
        for mode, n, what in ((2, 5, "u32_gc_width, both modes"), (3, 5, "UTF-8: grapheme_cluster_width, u8_gc_width, both modes"), (1, 6, "accumulator and grapheme_cluster_width")):
            for m in (n, n + 1) if T else (n,):
                j.append(Job("width-m%d-n%d-set%d" % (mode, m, t - 1), "width.cpp", GB_TUS, params=[mode, m, t], refs=["gcb", "w", "wm1", "wm2"], time=400, required=m == n, flags=NM, bound="every text of %d out of 6 codepoints (%s), %s" % (m, c, what)))
    for mode, n, t, k, what in ((5, 3, 2, 300, "accumulator"), (5, 3, 3, 300, "accumulator"), (1, 2, 2, 70, "accumulator and grapheme_cluster_width"), (1, 2, 3, 70, "accumulator and grapheme_cluster_width"), (2, 2, 2, 40, "u32_gc_width, both modes"), (2, 2, 3, 40, "u32_gc_width, both modes")):
        j.append(Job("width-m%d-n%d-set%d-x%d" % (mode, n, t, k), "width.cpp", GB_TUS, params=[mode, n, t, k], refs=["gcb", "w", "wm1", "wm2"], time=400, required=True, flags=NM if t else [], bound="every text of %d codepoints%s with %d or %d codepoints x y x y ... behind the first, x and y out of 14, %s" % (n, " out of 6" if t else "", k, k + 1, what)))
    for n in (0, 1, 2): add(3, n, "every UTF-8 text of %d codepoints: grapheme_cluster_width, u8_gc_width, both modes" % n, n <= 1, 700, NM)
    return j

NORM_TUS = ["normalization", "convert", "utf8"]
NREF = ["ccc", "nfd", "nfdx", "nfkd", "nfkdx", "comp", "compm", "normprop", "rawd", "rawdx", "rawk", "rawkx",
        "npartc", "npartk", "nfirst", "nsecond", "nmixc", "nmixk", "ntinyc", "ntinyk", "nminic", "nminik", "nmicro", "nhangul", "nnuk", "nhanb"]
FORM = ["NFC", "NFD", "NFKC", "NFKD"]
CL = ["--clean"]
SETS = {"any": 0, "part": 12, "mix": 16, "tiny": 18, "mini": 20, "micro": 22, "hangul": 23, "nukta": 24, "hanb": 25}
SETTXT = {"any": "any codepoint", "part": "any codepoint that takes part in normalization or is next to one", "mix": "a representative set of 77 (94) codepoints",
          "micro": "a letter, three marks of two classes and a composite", "hangul": "four jamo, a syllable and a mark" , "hanb": "the ends of the ranges of jamo and syllables and their neighbours", "nukta": "two-part vowel signs and a nukta",
          "tiny": "a representative set of 34 (39) codepoints", "mini": "a representative set of 15 (17) codepoints"}
def norm_job(mode, n, form, what, first="any", rest=None, fix=0, required=False, time=300, fl=NM, mem=3, extra=0, nm=""):
    compat = form >= 2 if mode not in (16, 19, 22) else form >= (2 if mode == 16 else 1)
    s = lambda x: SETS[x] + (1 if x not in ("any", "micro", "hangul", "nukta", "hanb") and compat else 0)
    rest = rest or first
    if n: what += "; first codepoint: " + SETTXT[first] + ("" if n == 1 else "; the others: " + SETTXT[rest] + (" (the last %d case by case)" % fix if fix else ""))
    name = nm or FORM[form] if mode not in (16, 19, 22) else "r%d" % form
    return Job("norm-m%d-n%d%s-%s-%s%s" % (mode, n, "" if not extra else "_%d" % extra, name, first, "" if rest == first else "-" + rest), "norm.cpp", NORM_TUS, params=[mode, n, form, s(first), fix, s(rest), extra],
               refs=NREF, time=time, required=required, bound=what, flags=fl, mem=mem)

@prop("N01")
def p_n01(tier):
    T = tier == "thorough"
    j = []
    for f in (2, 0, 3, 1):
        c = f in (0, 2); N = "every text of %d codepoints, normalize to " + FORM[f]
        j.append(norm_job(10, 1, f, N % 1, required=f != 2, fl=CL, mem=12 if f == 2 else 5))
        j.append(norm_job(10, 3, f, N % 3, "mini", fix=1 if c else 0, required=True))
        j.append(norm_job(10, 2, f, N % 2, "part", ("tiny", None, "mini", "mini")[f], 0 if f == 1 else 1, required=True))
        if c:
            for n, b in ((2, "adjacent"), (3, "with U+0323 or U+0334 between"), (4, "with U+0334 U+200B between")):
                j.append(norm_job(15, n, f, "every pair of a first and a second part of any canonical composition, " + b + ", normalize to " + FORM[f], required=True))
        j.append(norm_job(11, 1, f, "every UTF-8 text of 1 codepoint, normalize to " + FORM[f]))
        j.append(norm_job(10, 0, f, "empty text", required=True))
    for f in range(4):
        j.append(norm_job(11, 2, f, "UTF-8 texts of 2 codepoints, normalize to " + FORM[f], "mini"))
        j.append(norm_job(10, 3, f, "texts of 3 codepoints, normalize to " + FORM[f], "tiny", time=200))
        j.append(norm_job(10, 4, f, "texts of 4 codepoints, normalize to " + FORM[f], "mini", time=200))
        j.append(norm_job(11, 3, f, "UTF-8 texts of 3 codepoints, normalize to " + FORM[f], "mini"))
        if T:
            j.append(norm_job(10, 3, f, "texts of 3 codepoints, normalize to " + FORM[f], "mix", time=750))
            j.append(norm_job(10, 5, f, "texts of 5 codepoints, normalize to " + FORM[f], "mini", fix=1, time=750))
            j.append(norm_job(10, 2, f, "texts of 2 codepoints, normalize to " + FORM[f], "part", "mix", fix=1, time=750))
        w = "normalize to " + FORM[f]
        j.append(norm_job(10, 6, f, "texts of 6 codepoints, " + w, "micro", required=True))
        j.append(norm_job(10, 6, f, "texts of 6 codepoints, " + w, "hangul", required=True))
        j.append(norm_job(10, 7, f, "texts of 7 codepoints, " + w, "nukta", required=True))
        j.append(norm_job(10, 3, f, "texts of 3 codepoints, " + w, "hanb", required=True))
        j.append(norm_job(20, 1, f, "texts of 1 codepoint with 300 marks behind it, every interface, " + FORM[f], "mini", required=True, extra=300))
        j.append(norm_job(11, 5, f, "UTF-8 texts of 5 codepoints, " + w, "micro"))
        j.append(norm_job(20, 3, f, "texts of 3 codepoints with 18 marks behind each, every interface, " + FORM[f], "mini", "micro", required=True, extra=18))
        if T:
            j.append(norm_job(10, 7, f, "texts of 7 codepoints, " + w, "micro", time=750))
            j.append(norm_job(10, 8, f, "texts of 8 codepoints, " + w, "hangul", time=750))
    j.append(norm_job(2, 1, 0, "every codepoint, hangul_decompose and back", required=True, nm="hangul"))
    j.append(norm_job(3, 3, 0, "every three codepoints, hangul_compose", required=True, nm="hangul"))
    return j

@prop("N02")
def p_n02(tier):
    T = tier == "thorough"
    j = []
    for f in (2, 0, 3, 1):
        w = "normalize twice, is_normalized and quick_check of the result, " + FORM[f]
        j.append(norm_job(13, 3, f, w, "mini", fix=2, required=True))
        j.append(norm_job(13, 2, f, w, "part", "mini", 1))
        j.append(norm_job(13, 1, f, w, "part", required=True))
        w = "is_normalized against the reference, " + FORM[f]
        j.append(norm_job(12, 3, f, w, "mini", fix=1, required=True))
        j.append(norm_job(13, 2, f, w, "part", "tiny", 1))
        j.append(norm_job(13, 3, f, w, "tiny", fix=2))
        j.append(norm_job(13, 5, f, w, "micro", required=True))
        j.append(norm_job(13, 5, f, w, "hangul", required=True))
        j.append(norm_job(13, 2, f, w, "hanb", required=True))
        if T: j.append(norm_job(13, 6, f, w, "micro", time=700))
        if T: j.append(norm_job(13, 4, f, w, "mini", fix=2, time=700))
        if T: j.append(norm_job(13, 3, f, w, "mix", fix=2, time=700))
    for r in range(6):
        w = "%s of the %s of a text" % ((("NFC", "NFD"), ("NFD", "NFC"), ("NFKC", "NFC"), ("NFKC", "NFKD"), ("NFKD", "NFC"), ("NFKD", "NFKC"))[r])
        j.append(norm_job(16, 1, r, w, "part", required=True))
        j.append(norm_job(16, 2, r, w, "tiny", fix=1, required=True))
        j.append(norm_job(16, 3, r, w, "hanb", required=True))
        j.append(norm_job(16, 3, r, w, "mini", fix=2, time=600))
        j.append(norm_job(16, 2, r, w, "part", "tiny", fix=1, time=600))
        if T: j.append(norm_job(16, 3, r, w, "tiny", fix=2, time=700))
        if T: j.append(norm_job(16, 4, r, w, "mini", fix=3, time=700))
    for r in (0, 1):
        j.append(norm_job(19, 1, r, "equivalence of two texts", "part", extra=1))
        j.append(norm_job(19, 1, r, "equivalence of two texts", "mini", extra=2, required=True))
        j.append(norm_job(22, 1, r, "equivalence of two UTF-8 texts", "part" if T else "tiny", extra=1, time=700))
        for n, m, x in ((1, 2, "mini"), (2, 2, "micro"), (3, 2, "hangul")): j.append(norm_job(22, n, r, "equivalence of two UTF-8 texts", x, extra=m, required=True))
        j.append(norm_job(19, 2, r, "equivalence of two texts", "mini", extra=2))
        j.append(norm_job(19, 2, r, "equivalence of two texts", "tiny", extra=1))
        if T: j.append(norm_job(19, 2, r, "equivalence of two texts", "tiny", extra=2, time=700))
        if T: j.append(norm_job(19, 3, r, "equivalence of two texts", "mini", extra=3, fix=1, time=700))
    return j

@prop("N03")
def p_n03(tier):
    T = tier == "thorough"
    j = [norm_job(0, 1, 0, "properties of every codepoint", required=True, fl=CL, nm="properties"), norm_job(1, 1, 0, "canonical decomposition of every codepoint", required=True, fl=CL, nm="decomposition"),
         norm_job(1, 1, 2, "compatibility decomposition of every codepoint", required=True, fl=CL, nm="decomposition-k")]
    for f in (2, 0, 3, 1):
        w = "quick_check and is_normalized, " + FORM[f]
        j.append(norm_job(12, 1, f, w, required=False, fl=CL, mem=12 if f == 2 else 5))
        j.append(norm_job(12, 1, f, w, "part", required=True))
        j.append(norm_job(12, 2, f, w, "part", "tiny", 1, required=True))
        j.append(norm_job(12, 3, f, w, "mini", fix=1, required=True))
        j.append(norm_job(12, 3, f, w, "tiny", fix=1, time=300))
        j.append(norm_job(12, 4, f, w, "mini", fix=1, time=300))
        j.append(norm_job(12, 6, f, w, "micro", required=True))
        j.append(norm_job(12, 6, f, w, "hangul", required=True))
        j.append(norm_job(12, 3, f, w, "hanb", required=True))
        j.append(norm_job(21, 1, f, w + ", UTF-8", required=True))
        j.append(norm_job(21, 1, f, w + ", UTF-8", "part", required=True))
        for n in (2, 3): j.append(norm_job(21, n, f, w + ", UTF-8", "mini", required=True))
        j.append(norm_job(20, 2, f, "texts of 2 codepoints with 20 marks behind each, every interface, " + FORM[f], "micro", required=True, extra=20))
        if T: j.append(norm_job(12, 7, f, w, "micro", time=700))
        if T: j.append(norm_job(12, 3, f, w, "mix", fix=1, time=700))
        if T: j.append(norm_job(12, 5, f, w, "mini", fix=2, time=700))
    return j

@prop("N04")
def p_n04(tier):
    T = tier == "thorough"
    j = []
    for f in (2, 0, 3, 1):
        w = "streaming codepoint by codepoint, twice, with flush and reset, " + FORM[f]
        j.append(norm_job(14, 3, f, w, "mini", fix=1, required=True, time=400))
        j.append(norm_job(14, 2, f, w, "part", "mini", 1))
        j.append(norm_job(14, 1, f, w, "part", required=True))
        w = "streaming UTF-8 in two (up to 2 codepoints: three) chunks cut anywhere, after nothing, a flushed or reset prefix, or a flushed text, " + FORM[f]
        j.append(norm_job(17, 1, f, w, "tiny", required=True))
        j.append(norm_job(17, 2, f, w, "mini", fix=1, required=True))
        if T: j.append(norm_job(17, 3, f, w, "mini", fix=2, time=750))
        j.append(norm_job(17, 2, f, w, "tiny", fix=1))
        j.append(norm_job(14, 3, f, w, "tiny", fix=1))
        j.append(norm_job(14, 5, f, "streaming codepoint by codepoint, twice, with flush and reset, " + FORM[f], "micro", required=True))
        j.append(norm_job(14, 5, f, "streaming codepoint by codepoint, twice, with flush and reset, " + FORM[f], "hangul", required=True))
        j.append(norm_job(17, 3, f, w, "micro", required=True))
        j.append(norm_job(14, 3, f, "streaming codepoint by codepoint, twice, with flush and reset, " + FORM[f], "hanb", required=True))
        j.append(norm_job(20, 1, f, "texts of 1 codepoint with 70 marks behind it, every interface, " + FORM[f], "mini", required=True, extra=70))
        j.append(norm_job(20, 3, f, "texts of 3 codepoints with 18 marks behind each, every interface, " + FORM[f], "mini", "micro", required=True, extra=18))
        if T: j.append(norm_job(17, 4, f, w, "micro", time=750))
        if T: j.append(norm_job(14, 4, f, w, "mini", fix=1, time=700))
        if T: j.append(norm_job(17, 3, f, w, "tiny", fix=2, time=700))
    return j

CASE_TUS = ["case_mapping", "word_segmenter", "codepoint_properties", "codepoint_properties_data", "ucd", "convert", "utf8"]
CREF = ["caseu", "casel", "caset", "casef", "fullu", "fulll", "fullt", "fullf", "casex", "caseprop", "wb", "casetiny", "casemini", "casemicro"]
CSETS = {"any": 0, "tiny": 11, "mini": 12, "micro": 13}
def case_job(mode, n, what, set="any", fix=0, m=0, required=False, time=300, fl=NM, mem=3, run=0):
    if set != "any": what += " from %d codepoints covering each kind of mapping" % {"tiny": 48, "mini": 16, "micro": 5}[set]
    if run: what += ", with %d ASCII characters behind each" % run
    return Job("case-m%d-n%d%s-%s%s" % (mode, n, "_%d" % m if mode in (10, 11) else "", set, "-r%d" % run if run else ""), "case.cpp", CASE_TUS, params=[mode, n, CSETS[set], fix, m, run], refs=CREF, time=time, required=required, bound=what, flags=fl, mem=mem)

@prop("M01")
def p_m01(tier):
    T = tier == "thorough"
    j = [case_job(0, 1, "all mappings and case predicates of every codepoint", required=True, fl=CL), case_job(1, 1, "32-bit values that are no codepoints", required=True)]
    for k, w in enumerate(("to_uppercase", "to_lowercase", "to_titlecase", "casefold")):
        for n in (0, 1): j.append(case_job(2 + k, n, "every text of %d codepoints, %s" % (n, w), required=True))
        j.append(case_job(2 + k, 2, "every text of 2 codepoints, %s" % w))
        j.append(case_job(2 + k, 3, "texts of 3 codepoints, %s" % w, "tiny"))
        j.append(case_job(6 + k, 1, "every UTF-8 text of 1 codepoint, %s" % w, required=True))
        j.append(case_job(6 + k, 2, "UTF-8 texts of 2 codepoints, %s" % w, "tiny"))
        j.append(case_job(6 + k, 3, "UTF-8 texts of 3 codepoints, %s" % w, "mini"))
    for k, w in enumerate(("to_uppercase", "to_lowercase", "to_titlecase", "casefold")):
        j.append(case_job(2 + k, 3, "texts of 3 codepoints, %s" % w, "mini", run=9, required=True))
        j.append(case_job(6 + k, 2, "UTF-8 texts of 2 codepoints, %s" % w, "mini", run=33, required=True))
        j.append(case_job(2 + k, 2, "texts of 2 codepoints, %s" % w, "mini", run=66, required=True))
    for n in (6, 7) if T else (6,): j.append(case_job(4, n, "texts of %d codepoints, to_titlecase" % n, "micro", required=n == 6))
    j.append(case_job(8, 5, "UTF-8 texts of 5 codepoints, to_titlecase", "micro"))
    j.append(case_job(4, 4, "texts of 4 codepoints, to_titlecase", "mini"))
    j.append(case_job(4, 5, "texts of 5 codepoints, to_titlecase", "mini"))
    for k, w in enumerate(("to_uppercase", "to_lowercase", "to_titlecase", "casefold")) if T else ():
        j.append(case_job(2 + k, 3, "every text of 3 codepoints, %s" % w, time=750))
        j.append(case_job(6 + k, 2, "every UTF-8 text of 2 codepoints, %s" % w, time=750))
    if T: j.append(case_job(4, 4, "texts of 4 codepoints, to_titlecase", "tiny", time=750))
    return j

@prop("M02")
def p_m02(tier):
    T = tier == "thorough"
    j = []
    for mode, w in ((10, "UTF-32"), (11, "UTF-8")):
        for n, m in ((0, 0), (0, 1), (1, 1)): j.append(case_job(mode, n, "every pair of %s texts of %d and %d codepoints" % (w, n, m), m=m, required=mode == 10))
        for n, m in ((1, 2), (2, 2))[:2 if T or mode == 10 else 1]: j.append(case_job(mode, n, "pairs of %s texts of %d and %d codepoints" % (w, n, m), "tiny", m=m, time=750))
        for n, m in ((2, 2), (1, 3), (2, 3), (3, 3))[:4 if T or mode == 10 else 2]: j.append(case_job(mode, n, "pairs of %s texts of %d and %d codepoints" % (w, n, m), "mini", m=m))
    for mode, w in ((10, "UTF-32"), (11, "UTF-8")):
        j.append(case_job(mode, 1, "pairs of %s texts of 1 and 1 codepoints" % w, "tiny", m=1, run=17))
        j.append(case_job(mode, 2, "pairs of %s texts of 2 and 1 codepoints" % w, "mini", m=1, run=8))
        j.append(case_job(mode, 3, "pairs of %s texts of 3 and 3 codepoints" % w, "micro", m=3, required=True))
    j.append(case_job(12, 1, "folding twice, every text of 1 codepoint", required=True))
    j.append(case_job(12, 2, "folding twice, every text of 2 codepoints"))
    j.append(case_job(12, 3, "folding twice, texts of 3 codepoints", "tiny"))
    return j

@prop("C05", ["the highest basic CPUID leaf is between 1 and 0x40", "x86-64; cpuid and xgetbv answer the same whenever they are asked in one call of max_simd_size"])
def p_c05(tier):
    return [Job("detect", "cpu.cpp", ["simd_detector"], params=[0], time=200, required=True, bound="every value of the CPUID leaves and of XCR0", flags=NM)]

@prop("C06")
def p_c06(tier):
    T = tier == "thorough"
    j = [conv_job(6, n, "every text of %d scalar values and every capacity up to two more than needed, u32u8_convert" % n, True) for n in range(0, 6 if T else 5)]
    j.append(conv_job(6, 2, "texts of 70 scalar values x y x y ... between two arbitrary ones, x and y out of 10, and capacities from five less to two more than needed, u32u8_convert", True, rep=70))
    j.append(conv_job(6, 1, "texts of 9 scalar values x y x y ... behind an arbitrary one, x and y out of 10, and every capacity up to two more than needed, u32u8_convert", True, rep=9))
    j += [conv_job(7, n, "every %d values from 0..0x7FFFFF and 0xFF800000..0xFFFFFFFF and every capacity, u32u8_convert" % n, True) for n in range(1, 4 if T else 3)]
    j += [conv_job(8, n, "every string of %d bytes%s, u8u32_stream_convert_run" % (n, ", in turns to two streams" if n <= 3 else ""), True) for n in range(1, 10 if T else 8)]
    return j

@prop("C07")
def p_c07(tier):
    T = tier == "thorough"
    tus = GB_TUS + ["convert256", "convert512", os.path.join(HARN, "cuser.c")]
    def job(mode, n, what, req=True): return Job("capic-m%d-n%d" % (mode, n), "capic.cpp", tus, params=[mode, n], time=300, required=req, flags=NM if mode else [], bound=what)
    return [job(0, 0, "the codepoint macros, arguments a ^ b and i + j, for every two 32-bit values a, b and every bit index")] \
        + [job(1, n, "every text of %d codepoints, cluster count and widths called from C" % n) for n in range(0, 4 if T else 3)] \
        + [job(2, n, "every UTF-8 text of %d scalar values, count, widths and both converters called from C" % n) for n in range(0, 3)]

ANY_TUS = GB_TUS + ["convert256", "convert512", "case_mapping", "normalization", "word_segmenter"]
@prop("C08")
def p_c08(tier):
    T = tier == "thorough"
    j = []
    def add(mode, n, k, what, pieces=0, req=True): j.append(Job("any8-m%d-n%d-k%d%s" % (mode, n, k, ("", "-pieces", "-mix")[pieces]), "utf8any.cpp", ANY_TUS, params=[mode, n, pieces, k], time=350 if not T else 700, required=req, flags=NM, bound=("every string of %d bytes, ", "every text of %d pieces out of 9 scalar values and 5 malformed sequences, ", "every text of %d pieces, each any scalar value or any malformed sequence, ")[pieces] % n + what))
    for n in range(0, 5 if T else 4): add(0, n, 0, "utf8_grapheme_segmenter"); add(1, n, 0, "u8_gc_count, u8_gc_width")
    for n in range(2, 5 if T else 4): add(0, n, 0, "utf8_grapheme_segmenter", 1); add(1, n, 0, "u8_gc_count, u8_gc_width", 1)
    for n in (1, 2): add(0, n, 0, "utf8_grapheme_segmenter", 2); add(1, n, 0, "u8_gc_count, u8_gc_width", 2)
    if T: add(0, 3, 0, "utf8_grapheme_segmenter", 2)
    for k, w in enumerate(("to_uppercase", "to_lowercase", "to_titlecase", "casefold")):
        add(2, 1, k, w)
        if T or k != 2: add(2, 1, k, w, 2)
        if T: add(2, 2, k, w, req=False)
        for n in range(2, 5 if T else 4): add(2, n, k, w, 1)
    for n, k in ((1, 1), (1, 2), (2, 1)): add(3, n, k, "compared with every other of %d, ignoring case" % k, 1)
    add(3, 1, 1, "compared with every other of 1, ignoring case"); add(3, 2, 2, "compared with every other of 2, ignoring case", 1)
    for f in range(4):
        if T or f < 2: add(4, 1, f, "normalize, quick_check, is_normalized, " + FORM[f], 2, False); add(5, 1, f, "fed to utf8_normalizer in two chunks, " + FORM[f], 2, False)
        add(4, 1, f, "normalize, quick_check, is_normalized, " + FORM[f]); add(5, 1, f, "fed to utf8_normalizer in two chunks, " + FORM[f])
        if T: add(4, 2, f, "normalize, quick_check, is_normalized, " + FORM[f], req=False); add(5, 2, f, "fed to utf8_normalizer in two chunks, " + FORM[f], req=False)
        for n in range(2, 5 if T else 4): add(4, n, f, "normalize, quick_check, is_normalized, " + FORM[f], 1); add(5, n, f, "fed to utf8_normalizer in two chunks, " + FORM[f], 1)
    return j

SCAN_TUS = ["scan", "scan256", "scan512", "utf8", "grapheme_segmenter", "width", "codepoint_properties", "codepoint_properties_data", "ucd", "convert", "convert256", "convert512"]
SCAN_REF = ["gcb", "w", "tok", "tokmini", "tokmicro"]
SCAN_SET = {"bytes": (0, "every string of %d bytes without complete 4-byte sequences"), "scalars": (1, "every UTF-8 text of %d scalar values"), "tok": (2, "every text of %d pieces out of 25 codepoints, controls and malformed bytes"),
            "mini": (3, "every text of %d pieces out of 15 codepoints, controls and malformed bytes"),
            "micro": (4, "every text of %d pieces out of 5 codepoints and a lead byte")}
def scan_job(mode, n, set, what, run=0, ev=0, w=0, required=False, time=300, rep=0):
    b = SCAN_SET[set][1] % n + (" behind %d ASCII characters" % run if run else "") + (" with %d pieces x y x y ... behind the first, x and y out of 7" % rep if rep else "") + (what.replace("every", "near 0, the end or the middle of the text, every") if rep else what) + (", %d-bit ASCII scan" % w if w else "")
    return Job("scan-m%d-n%d-%s%s%s" % (mode, n, set, "-r%d" % run if run else "-x%d" % rep if rep else "", "-w%d" % w if w else ""), "scan.cpp", SCAN_TUS, params=[mode, n, SCAN_SET[set][0], run, ev, rep, 0, w], refs=SCAN_REF, time=time, required=required, bound=b, flags=NM, defs=SSE)
def scan_jobs(mode, what, ev, T):
    j = [scan_job(mode, n, "bytes", what, ev=ev, required=True) for n in (0, 1, 2, 3)]
    j += [scan_job(mode, n, "tok", what, ev=ev, required=True) for n in (1, 2)] + [scan_job(mode, 3, "mini", what, ev=ev, required=True), scan_job(mode, 1, "scalars", what, ev=ev, required=True)]
    j += [scan_job(mode, 2, "mini", what, run, ev, w, required=True) for run, w in ((15, 128), (17, 128), (33, 256), (65, 512))]
    j += [scan_job(mode, 4, "micro", what, ev=ev), scan_job(mode, 1, "micro", what, ev=ev, rep=67, required=True)]
    if mode != 2: j += [scan_job(mode, 4, "bytes", what, ev=ev)]
    if T: j += [scan_job(mode, 3, "tok", what, ev=ev, time=750), scan_job(mode, 4, "mini", what, ev=ev, time=750), scan_job(mode, 2, "scalars", what, ev=ev, time=750), scan_job(mode, 5, "bytes", what, ev=ev, time=750)]
    return j
SCAN_ASM = ["the text is contiguous in memory and a call resumes at state.next, as scan_text's callers do"]

@prop("T01")
def p_t01(tier): return scan_jobs(0, ", every column limit", 0, tier == "thorough")

@prop("T02", SCAN_ASM)
def p_t02(tier): return scan_jobs(1, ", cut at every byte", 0, tier == "thorough") + scan_jobs(2, ", every column limit, then resumed without limit", 0, tier == "thorough") \
    + [scan_job(3, n, "bytes", ", cut at every two bytes", required=True) for n in (2, 3)] + [scan_job(3, n, set, ", cut at every two bytes", required=True) for n, set in ((1, "scalars"), (2, "mini"), (3, "micro"))]

@prop("T03")
def p_t03(tier): return scan_jobs(0, ", every column limit, events delivered", 1, tier == "thorough")

UCD_TUS = ["codepoint_properties", "codepoint_properties_data", "ucd"]
UREF = ["ugc", "uscript", "ublock", "ugcb", "ueaw", "ucore", "uplane", "uage", "uwb", "uemoji", "umirror", "uscx", "uscxx", "uesc", "w"]
def ucd_job(name, mode, what, p=(0,), fl=CL):
    return Job(name, "ucd.cpp", UCD_TUS, params=[mode] + list(p), refs=UREF, required=True, time=300, bound=what, flags=fl)
BEYOND = ("0x110000..0x7FFFFF", "0xFF800000..0xFFFFFFFF")

@prop("U01", ["the Unicode data of the build is 15.1.0, the version installed here"])
def p_u01(tier):
    j = [ucd_job("ranges-%d" % k, 0, "every codepoint: " + w, (k,)) for k, w in enumerate(("general category, script, block, cluster break, East Asian width, plane", "emoji, bidi and core properties", "membership in each general category"))]
    j.append(ucd_job("extensions", 1, "every codepoint: script extensions", fl=NM))
    j += [ucd_job("beyond-%d" % k, 2, "every value in " + BEYOND[k], (k,)) for k in (0, 1)]
    j += [ucd_job("age-%d" % n, 3, "every string of %d bytes: make_age" % n, (n,), NM) for n in range(0, 13 if tier == "thorough" else 8)]
    return j

@prop("U02", ["the Unicode data of the build is 15.1.0, the version installed here"])
def p_u02(tier):
    return [ucd_job("record", 4, "every codepoint, every field")] + [ucd_job("record-beyond-%d" % k, 5, "every value in " + BEYOND[k], (k,)) for k in (0, 1)]

@prop("U03", ["the Unicode data of the build is 15.1.0, the version installed here", "reads behind one string literal into the next are not seen by the encoding (the lookup itself reads only the tables)"])
def p_u03(tier):
    f = CL + ["--poolstrings"]
    def job(name, mode, what, p):
        return Job(name, "ucd.cpp", UCD_TUS + ["codepoint_properties_names"], params=[mode] + list(p), refs=UREF + ["uname", "unamex"], required=True, time=300, bound=what, flags=f)
    return [job("name-%X" % a, 7, "every codepoint U+%04X..U+%04X" % (a, b), (a, b)) for a, b in ((0, 0x3FFF), (0x4000, 0xABFF), (0xAC00, 0xFFFF), (0x10000, 0x1FFFF), (0x20000, 0x10FFFF))] + \
           [job("name-beyond-%d" % k, 8, "every value in " + BEYOND[k], (k,)) for k in (0, 1)]

@prop("U04", ["the Unicode data of the build is 15.1.0, the version installed here", "std::ostream and <format> are replaced by stand-ins that record the text they are given"])
def p_u04(tier):
    return [Job("names", "names.cpp", ["emoji_segmenter"], params=[0], required=True, time=300, bound="every value of 29 enumerations, stream output and std::format", flags=CL + ["--poolstrings"]),
            Job("numbers", "names.cpp", ["emoji_segmenter"], params=[1], required=True, time=300, bound="every 8-bit (Block: 16-bit) number that is no value, stream output", flags=NM)]

SEG_TUS = ["script_segmenter", "emoji_segmenter", "codepoint_properties", "codepoint_properties_data", "ucd"]
SEG_REF = ["uscript", "uscb0", "uscb1", "uscb2", "uesc", "scrsmall", "scrmini", "emoall", "emoscr", "emoseq", "emoseq2", "emoseq3", "scrmicro", "scrmicro2", "mixmicro"]
SEG_SET = {"any": (0, "any codepoint"), "small": (5, "34 codepoints with different scripts and script extensions"), "mini": (6, "13 codepoints with different scripts and script extensions"),
           "emo": (7, "16 codepoints, one of each emoji segmentation category"), "mix": (8, "12 codepoints with different scripts and presentations"),
           "seq": (9, "9 codepoints that form long emoji sequences"), "seq2": (10, "6 codepoints that form long emoji sequences"), "seq3": (11, "5 codepoints that form long flag and tag sequences"),
           "micro": (12, "5 codepoints (Latin, Common, Japanese, two marks with extensions)"), "micro2": (13, "5 codepoints (Arabic, Syriac, Thaana and marks they share)"), "mixmicro": (14, "5 codepoints (Latin, Greek, Common, emoji, a variation selector)")}
def seg_job(mode, n, set, anyat=0, required=False, time=300, rep=0):
    what = "every text of %d codepoints, each " % n + SEG_SET[set][1] if n else "the empty text"
    if anyat: what += ", any codepoint at position " + ", ".join(str(k) for k in range(n) if anyat >> k & 1)
    if rep: what += ", with %d or %d codepoints x y x y ... behind the first, x and y out of %d" % (rep, rep + 1, (11, 12, 7)[mode])
    return Job("seg-m%d-n%d-%s%s" % (mode, n, set, "-a%d" % anyat if anyat else "-x%d" % rep if rep else ""), "seg.cpp", SEG_TUS, params=[mode, n, SEG_SET[set][0], 0, anyat, rep], refs=SEG_REF, time=time, required=required, bound=what, flags=NM)

@prop("R01", ["the Unicode data of the build is 15.1.0, the version installed here"])
def p_r01(tier):
    j = [seg_job(0, 0, "any", required=True), seg_job(0, 1, "any", required=True), seg_job(0, 2, "small", required=True), seg_job(0, 3, "small", required=True), seg_job(0, 4, "mini")]
    j += [seg_job(0, 2, "mini", a, True) for a in (1, 2)] + [seg_job(0, 6, "micro", required=True), seg_job(0, 6, "micro2", required=True)] + [seg_job(0, 2, m, required=True, rep=70) for m in ("micro", "micro2")]
    if tier == "thorough": j += [seg_job(0, 2, "small", 1), seg_job(0, 2, "small", 2)] + [seg_job(0, 3, "mini", a, time=750) for a in (1, 2, 4)] + [seg_job(0, 5, "mini", time=750)]
    return j

@prop("R02", ["the Unicode data of the build is 15.1.0, the version installed here"])
def p_r02(tier):
    j = [seg_job(1, 0, "any", required=True), seg_job(1, 1, "any", required=True), seg_job(1, 2, "any", required=True)] + [seg_job(1, n, "emo", required=True) for n in (3, 4)]
    j += [seg_job(1, 5, "emo", time=400), seg_job(1, 6, "seq2", required=True), seg_job(1, 6, "seq3", required=True)]
    j += [seg_job(1, 5, "seq3", a, True) for a in (4, 8)] + [seg_job(1, 3, "emo", a, True) for a in (1, 2, 4)] + [seg_job(1, 2, m, required=True, rep=70) for m in ("seq2", "seq3")]
    if tier == "thorough": j += [seg_job(1, 3, "any", time=700), seg_job(1, 6, "seq", time=750), seg_job(1, 7, "seq2", time=750), seg_job(1, 7, "seq3", time=750)]
    return j

@prop("R03", ["the Unicode data of the build is 15.1.0, the version installed here"])
def p_r03(tier):
    j = [seg_job(2, 0, "any", required=True), seg_job(2, 1, "any", time=400), seg_job(2, 2, "small", required=True), seg_job(2, 3, "mini", required=True), seg_job(2, 3, "mix", required=True), seg_job(2, 4, "mix"), seg_job(2, 5, "mixmicro", required=True), seg_job(2, 2, "mixmicro", required=True, rep=70)]
    if tier == "thorough": j += [seg_job(2, 2, "mix", a, time=750) for a in (1, 2)] + [seg_job(2, 3, "small", time=750), seg_job(2, 5, "mix", time=750), seg_job(2, 4, "mini", time=750)]
    return j

def run(pid, tier, only=None):
    f, assumptions = PROPS[pid]
    jobs = f(tier)
    if only: jobs = [j for j in jobs if only in j.name]
    try:
        return Runner(pid, tier, jobs, 780 if tier == "thorough" else 420, assumptions).main()
    except Inconclusive as e:
        print("NO ANSWER property=%s %s" % (pid, e)); return 2
