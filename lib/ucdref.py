"""Reference tables computed from the Unicode Character Database text files alone (never from the library)."""
import array, bz2, functools, hashlib, os, re
from vf import UCD_DIR, CACHE, Inconclusive

MAX = 0x110000

def lines(path):
    with open(os.path.join(UCD_DIR, path), encoding="utf-8") as f:
        for l in f:
            yield l

def rows(path, missing=False):
    """yields (lo, hi, [fields]); @missing lines first when asked for"""
    out = []
    for l in lines(path):
        m = re.match(r"#\s*@missing:\s*(.*)", l)
        if m:
            if missing:
                f = [x.strip() for x in m.group(1).split(";")]
                lo, _, hi = f[0].partition("..")
                out.append((int(lo, 16), int(hi or lo, 16), f[1:]))
            continue
        l = l.split("#")[0].strip()
        if not l or ";" not in l: continue
        f = [x.strip() for x in l.split(";")]
        lo, _, hi = f[0].partition("..")
        if not re.fullmatch(r"[0-9A-Fa-f]{4,6}", lo): continue
        out.append((int(lo, 16), int(hi or lo, 16), f[1:]))
    return out

def prop_set(path, name):
    s = bytearray(MAX)
    for lo, hi, f in rows(path):
        if f[0] == name:
            for c in range(lo, hi + 1): s[c] = 1
    return s

def enum(path, default, values, missing=False):
    """values: name -> number"""
    t = array.array("I", [values[default]]) * MAX
    for lo, hi, f in rows(path, missing):
        v = values.get(f[0])
        if v is None: continue
        for c in range(lo, hi + 1): t[c] = v
    return t

@functools.lru_cache(None)
def unicode_data():
    """cp -> list of fields (ranges expanded)"""
    d = {}; first = None
    for l in lines("UnicodeData.txt"):
        f = l.rstrip("\n").split(";")
        c = int(f[0], 16)
        if f[1].endswith(", First>"): first = (c, f); continue
        if f[1].endswith(", Last>"):
            for x in range(first[0], c + 1): d[x] = f
            continue
        d[c] = f
    return d

GCB = {"Other": 0, "CR": 1, "LF": 2, "Control": 3, "Extend": 4, "ZWJ": 5, "Regional_Indicator": 6, "Prepend": 7, "SpacingMark": 8, "L": 9, "V": 10, "T": 11, "LV": 12, "LVT": 13}
INCB = {"None": 0, "Consonant": 1, "Extend": 2, "Linker": 3}

def t_gcb():
    t = enum("auxiliary/GraphemeBreakProperty.txt", "Other", GCB)
    ep = prop_set("emoji/emoji-data.txt", "Extended_Pictographic")
    for lo, hi, f in rows("DerivedCoreProperties.txt"):
        if f[0] == "InCB":
            for c in range(lo, hi + 1): t[c] |= INCB[f[1]] << 8
    for c in range(MAX):
        if ep[c]: t[c] |= 1 << 16
    return t

WB = {"Other": 0, "CR": 1, "LF": 2, "Newline": 3, "Extend": 4, "ZWJ": 5, "Format": 6, "Regional_Indicator": 7, "Katakana": 8, "Hebrew_Letter": 9, "ALetter": 10,
      "Single_Quote": 11, "Double_Quote": 12, "MidNumLet": 13, "MidLetter": 14, "MidNum": 15, "Numeric": 16, "ExtendNumLet": 17, "WSegSpace": 18}

def t_wb():
    t = enum("auxiliary/WordBreakProperty.txt", "Other", WB)
    ep = prop_set("emoji/emoji-data.txt", "Extended_Pictographic")
    for c in range(MAX):
        if ep[c]: t[c] |= 1 << 16
    return t

EAW = {"N": 0, "A": 1, "H": 2, "W": 3, "F": 4, "Na": 5}
@functools.lru_cache(None)
def eaw():
    return enum("EastAsianWidth.txt", "N", EAW, missing=True)

@functools.lru_cache(None)
def gc():
    d = unicode_data()
    return [d[c][2] if c in d else "Cn" for c in range(MAX)]

def emoji_bases():
    s = bytearray(MAX)
    for lo, hi, f in rows_seq("emoji/emoji-variation-sequences.txt"):
        s[lo] = 1
    return s

def rows_seq(path):
    for l in lines(path):
        l = l.split("#")[0].strip()
        if not l: continue
        f = [x.strip() for x in l.split(";")]
        cps = [int(x, 16) for x in f[0].split()]
        yield cps[0], cps[-1], f[1:]

def t_w():
    """display width of a codepoint (bits 0-1), Extended_Pictographic or regional indicator (8), regional indicator (9), virama (10), spacing mark (11), emoji variation base (12)"""
    g, e, gcb = gc(), eaw(), t_gcb()
    pres = prop_set("emoji/emoji-data.txt", "Emoji_Presentation")
    hst = prop_set("HangulSyllableType.txt", "V"), prop_set("HangulSyllableType.txt", "T")
    vir = prop_set("IndicSyllabicCategory.txt", "Virama"), prop_set("IndicSyllabicCategory.txt", "Invisible_Stacker")
    base = emoji_bases()
    t = array.array("I", [0]) * MAX
    for c in range(MAX):
        zero = g[c] in ("Cc", "Me", "Cf", "Zl", "Mn", "Zp", "Mc", "Cs")
        w = 0 if zero else 2 if pres[c] or e[c] in (3, 4) else 1
        b = gcb[c] & 0xFF
        if (g[c] == "Cf" and b == GCB["Prepend"]) or c == 0xAD: w = 1
        if hst[0][c] or hst[1][c]: w = 0
        ri = b == GCB["Regional_Indicator"]
        t[c] = w | ((gcb[c] >> 16 & 1) | ri) << 8 | ri << 9 | (vir[0][c] | vir[1][c]) << 10 | (g[c] == "Mc") << 11 | base[c] << 12
    return t

# ---- normalization
@functools.lru_cache(None)
def raw_decomp():
    """cp -> (type or None, [targets])"""
    out = {}
    for c, f in unicode_data().items():
        if f[5]:
            p = f[5].split()
            ty = p.pop(0)[1:-1] if p[0].startswith("<") else None
            out[c] = (ty, [int(x, 16) for x in p])
    return out

@functools.lru_cache(None)
def ccc():
    return {c: int(f[3]) for c, f in unicode_data().items() if f[3] != "0"}

def hangul_full(c):
    i = c - 0xAC00
    return [0x1100 + i // 588, 0x1161 + i % 588 // 28] + ([0x11A7 + i % 28] if i % 28 else [])

@functools.lru_cache(None)
def full_decomp(compat):
    raw, out = raw_decomp(), {}
    def go(c):
        if 0xAC00 <= c <= 0xD7A3: return hangul_full(c)
        d = raw.get(c)
        if not d or (d[0] and not compat): return [c]
        return [y for x in d[1] for y in go(x)]
    for c in raw:
        g = go(c)
        if g != [c]: out[c] = g
    for c in range(0xAC00, 0xD7A4): out[c] = hangul_full(c)
    # canonical ordering inside one mapping is left to the ordering step
    return out

def flat(d, with_ccc):
    k = ccc()
    t, x, pos = array.array("I", [0]) * MAX, [], {}
    for c, g in sorted(d.items()):
        key = tuple(g)
        if key not in pos:
            pos[key] = len(x); x.extend(y | (k.get(y, 0) << 24 if with_ccc else 0) for y in g)
        t[c] = pos[key] << 5 | len(g)
    return t, array.array("I", x + [0] * 32)

def t_ccc():
    t = array.array("I", [0]) * MAX
    for c, v in ccc().items(): t[c] = v
    return t
def t_nfd(): return flat(full_decomp(False), True)[0]
def t_nfdx(): return flat(full_decomp(False), True)[1]
def t_nfkd(): return flat(full_decomp(True), True)[0]
def t_nfkdx(): return flat(full_decomp(True), True)[1]

def raw_table(compat):
    d = {c: g for c, (ty, g) in raw_decomp().items() if ty is None or compat}
    for c in range(0xAC00, 0xD7A4): d[c] = hangul_full(c)
    return d
def t_rawd(): return flat(raw_table(False), False)[0]
def t_rawdx(): return flat(raw_table(False), False)[1]
def t_rawk(): return flat(raw_table(True), False)[0]
def t_rawkx(): return flat(raw_table(True), False)[1]

@functools.lru_cache(None)
def comp_classes():
    excl = prop_set("DerivedNormalizationProps.txt", "Full_Composition_Exclusion")
    first, second, m = {}, {}, {}
    for c, (ty, g) in sorted(raw_decomp().items()):
        if ty is None and len(g) == 2 and not excl[c]:
            a = first.setdefault(g[0], len(first) + 1); b = second.setdefault(g[1], len(second) + 1)
            m[a, b] = c
    assert len(second) < 256
    return first, second, m
def t_comp():
    first, second, _ = comp_classes()
    t = array.array("I", [0]) * MAX
    for c, v in first.items(): t[c] |= v
    for c, v in second.items(): t[c] |= v << 16
    return t
def t_compm():
    first, second, m = comp_classes()
    t = array.array("I", [0]) * ((len(first) + 1) * 256)
    for (a, b), c in m.items(): t[a * 256 + b] = c
    return t

DT = ["none", None, "circle", "compat", "final", "font", "fraction", "initial", "isolated", "medial", "narrow", "noBreak", "small", "square", "sub", "super", "vertical", "wide"]
def t_normprop():
    ex = prop_set("CompositionExclusions.txt", "")if False else bytearray(MAX)
    for l in lines("CompositionExclusions.txt"):
        l = l.split("#")[0].strip()
        if l:
            lo, _, hi = l.partition("..")
            for c in range(int(lo, 16), int(hi or lo, 16) + 1): ex[c] = 1
    full = prop_set("DerivedNormalizationProps.txt", "Full_Composition_Exclusion")
    t = array.array("I", [0]) * MAX
    raw = raw_decomp()
    for c in range(MAX):
        d = raw.get(c)
        dt = 1 if 0xAC00 <= c <= 0xD7A3 else 0 if d is None else 1 if d[0] is None else DT.index(d[0])
        t[c] = ex[c] | full[c] << 1 | dt << 8
    for lo, hi, f in rows("DerivedNormalizationProps.txt"):
        sh = {"NFC_QC": 2, "NFKC_QC": 4, "NFD_QC": 6, "NFKD_QC": 7}.get(f[0])
        if sh is not None:
            for c in range(lo, hi + 1): t[c] |= {"N": 1, "M": 2}[f[1]] << sh
    return t

def participants(compat, small):
    """codepoints that normalization treats specially, their neighbours, and a few it does not"""
    s = set(ccc())
    for c, (ty, g) in raw_decomp().items():
        if ty is None or compat: s.add(c)
    first, second, _ = comp_classes()
    s |= set(first) | set(second)
    if not small: s |= {x for c in list(s) for x in (c - 1, c + 1)}
    s |= set(range(0x10FF, 0x1114)) | set(range(0x1160, 0x1177)) | set(range(0x11A6, 0x11C4)) | {0, 0x61, 0x0100, 0xABFF, 0xD7A4, 0xD800, 0xDFFF, 0xFFFF, 0x10000, 0x10FFFF}
    for l in ((0, 1, 9, 18) if not small else (0, 18)):
        for v in (range(21) if not small else (0, 1, 20)):
            for t in (range(28) if not small else (0, 1, 2, 27)): s.add(0xAC00 + (l * 21 + v) * 28 + t)
    s = sorted(x for x in s if 0 <= x < MAX)
    return array.array("I", [len(s)] + s)
def t_npartc(): return participants(False, False)
def t_npartk(): return participants(True, False)
def t_npartcs(): return participants(False, True)

MIX = [0x0, 0x3C, 0x41, 0x61, 0x6F, 0x73, 0x75, 0xC5, 0xDC, 0xE0, 0x1EA1, 0x1E63, 0x1D5, 0x3B1, 0x338, 0x300, 0x301, 0x304, 0x305, 0x307, 0x308, 0x31B, 0x323, 0x327, 0x345, 0x340, 0x344, 0x374, 0x93C, 0x928, 0x929, 0x94D, 0x958, 0x9C7, 0x9BE, 0x9D7, 0x9CB,
       0xCC6, 0xCC2, 0xCD5, 0xCCA, 0xCCB, 0xDD9, 0xDCA, 0xDCF, 0xDDD, 0xF43, 0xF71, 0xF72, 0xF73, 0xF81, 0x1100, 0x1112, 0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2, 0x1F02, 0x1F82, 0x1FD3, 0x212B, 0x2ADC, 0x3046, 0x304B, 0x3099, 0xAC00, 0xAC01, 0xAC1C, 0xD788, 0xD7A3,
       0xFB1D, 0xFB2C, 0x11099, 0x110BA, 0x1D15E, 0x10FFFF]
MIXK = [0xA0, 0xA8, 0x132, 0x17F, 0x1C4, 0x385, 0xF77, 0x2126, 0x3131, 0x314F, 0x326E, 0x3310, 0x321D, 0xFB01, 0xFF76, 0xFF9E, 0xFDFA]
TINY = [0x61, 0x73, 0x75, 0xDC, 0x1E63, 0x300, 0x301, 0x304, 0x307, 0x308, 0x323, 0x338, 0x345, 0x344, 0x3B1, 0x9C7, 0x9BE, 0x958, 0xDD9, 0xDCA, 0xDCF, 0xF71, 0xF73, 0x1100, 0x1161, 0x11A7, 0x11A8, 0xAC00, 0xAC01, 0x3099, 0x304B, 0x212B, 0x2ADC, 0x1D15E]
TINYK = [0x17F, 0x1C4, 0x3310, 0xFB01, 0xFF9E]
MINI = [0x75, 0xDC, 0x1D5, 0x304, 0x308, 0x323, 0x334, 0x344, 0x958, 0x9BE, 0x9C7, 0x1100, 0x1161, 0x11A8, 0xAC00]
def t_nmicro(): return array.array("I", [5, 0x61, 0x301, 0x316, 0x323, 0x1EA5])
def t_nhangul(): return array.array("I", [6, 0x1100, 0x1161, 0x11A7, 0x11A8, 0xAC00, 0x302E])
def t_nhanb(): return array.array("I", [18, 0x10FF, 0x1100, 0x1112, 0x1113, 0x1160, 0x1161, 0x1175, 0x1176, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0xABFF, 0xAC00, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4])
def t_nnuk(): return array.array("I", [5, 0x9C7, 0x9BE, 0x9D7, 0x9BC, 0x9CB])
def t_nminic(): return array.array("I", [len(MINI)] + sorted(MINI))
def t_nminik(): return array.array("I", [len(MINI) + 2] + sorted(MINI + [0x1C4, 0xFB01]))
def t_ntinyc(): return array.array("I", [len(TINY)] + sorted(TINY))
def t_ntinyk(): return array.array("I", [len(TINY) + len(TINYK)] + sorted(TINY + TINYK))
def t_nmixc(): return array.array("I", [len(MIX)] + sorted(MIX))
def t_nmixk(): return array.array("I", [len(MIX) + len(MIXK)] + sorted(MIX + MIXK))
def t_nfirst():
    f = sorted(comp_classes()[0]); return array.array("I", [len(f)] + f)
def t_nsecond():
    f = sorted(comp_classes()[1]); return array.array("I", [len(f)] + f)

# ---- case mapping: simple mappings as differences, full mappings as sequences (length | position << 5) in casex
@functools.lru_cache(None)
def simple_case():
    up, lo, ti, fo = {}, {}, {}, {}
    for c, f in unicode_data().items():
        if f[12]: up[c] = int(f[12], 16)
        if f[13]: lo[c] = int(f[13], 16)
        if f[14]: ti[c] = int(f[14], 16)
        elif f[12]: ti[c] = int(f[12], 16)
    for l in lines("CaseFolding.txt"):
        f = [x.strip() for x in l.split("#")[0].split(";")]
        if len(f) >= 3 and f[1] in "CS": fo[int(f[0], 16)] = int(f[2], 16)
    return up, lo, ti, fo
@functools.lru_cache(None)
def full_case():
    out = [{c: [x] for c, x in m.items()} for m in simple_case()]
    for l in lines("SpecialCasing.txt"):
        f = [x.strip() for x in l.split("#")[0].split(";")]
        if len(f) < 5 or f[4]: continue
        c = int(f[0], 16); q = [[int(x, 16) for x in f[k].split()] for k in (1, 2, 3)]
        out[1][c], out[2][c], out[0][c] = q
    for l in lines("CaseFolding.txt"):
        f = [x.strip() for x in l.split("#")[0].split(";")]
        if len(f) >= 3 and f[1] in "CF": out[3][int(f[0], 16)] = [int(x, 16) for x in f[2].split()]
    x, pos, tabs = [], {}, []
    for m in out:
        t = array.array("I", [0]) * MAX
        for c, g in sorted(m.items()):
            if g == [c]: continue
            key = tuple(g)
            if key not in pos: pos[key] = len(x); x.extend(g)
            t[c] = pos[key] << 5 | len(g)
        tabs.append(t)
    return tabs, array.array("I", x + [0] * 8)
def t_cases(k):
    t = array.array("I", [0]) * MAX
    for c, x in simple_case()[k].items(): t[c] = (x - c) & 0xFFFFFFFF
    return t
def t_caseu(): return t_cases(0)
def t_casel(): return t_cases(1)
def t_caset(): return t_cases(2)
def t_casef(): return t_cases(3)
def t_fullu(): return full_case()[0][0]
def t_fulll(): return full_case()[0][1]
def t_fullt(): return full_case()[0][2]
def t_fullf(): return full_case()[0][3]
def t_casex(): return full_case()[1]
def t_caseprop():
    """cased letter (bit 0), Case_Ignorable (bit 1)"""
    g = gc(); ig = prop_set("DerivedCoreProperties.txt", "Case_Ignorable")
    return array.array("I", [(g[c] in ("Lu", "Ll", "Lt")) | ig[c] << 1 for c in range(MAX)])
CASETINY = [0x20, 0x27, 0x2E, 0x31, 0x41, 0x61, 0x73, 0xDF, 0x130, 0x131, 0x149, 0x17F, 0x1C4, 0x1C5, 0x1C6, 0x1F0, 0x300, 0x307, 0x345, 0x390, 0x3A3, 0x3C2, 0x3C3, 0x587, 0x5D0, 0x10D0, 0x13A0, 0x1C90, 0x1E9E, 0x1F80, 0x1F88, 0x1FB3, 0x212A, 0x2170, 0x24B6, 0x30AB, 0xA640, 0xAB70, 0xFB00, 0xFB03, 0xFB13, 0xFF21, 0x10400, 0x10428, 0x1E900, 0x1E922, 0x1F1E6, 0x10FFFF]
def t_casetiny(): return array.array("I", [len(CASETINY)] + CASETINY)
CASEMINI = [0x20, 0x27, 0x41, 0x61, 0xDF, 0x130, 0x1C5, 0x307, 0x390, 0x3C2, 0x5D0, 0x1E9E, 0x212A, 0xAB70, 0xFB03, 0x10400]
def t_gbm1(): return listed([0x61, 0x301, 0x200D, 0x1F468, 0x1F1E6])
def t_gbm2(): return listed([0x915, 0x94D, 0x200D, 0x93C, 0x600, 0x903])
def t_gbm3(): return listed([0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0xD, 0xA])
def t_wbm1(): return listed([0x61, 0x2E, 0x35, 0x301, 0x27, 0x1F468])
def t_wbm2(): return listed([0x1F1E6, 0x5D0, 0x22, 0x20, 0x200D, 0x5F])
def t_wm1(): return listed([0x231A, 0x23, 0xFE0E, 0xFE0F, 0x200D, 0x1F3FB])
def t_wm2(): return listed([0x1F1E6, 0x915, 0x94D, 0x903, 0x301, 0x61])
def t_casemicro(): return array.array("I", [5, 0x27, 0x61, 0x20, 0x307, 0x1C4])
def t_casemini(): return array.array("I", [len(CASEMINI)] + CASEMINI)

# ---- property lookups: tables hold positions in the name lists below; harness/ref_enum.h maps positions to the library's enumerators by name
def aliases(prop):
    """short -> long name of the values of a property"""
    out = {}
    for l in lines("PropertyValueAliases.txt"):
        f = [x.strip() for x in l.split("#")[0].split(";")]
        if len(f) >= 3 and f[0] == prop: out[f[1]] = f[2]
    return out
def names_gc(): return ["Unspecified"] + sorted(n for a, n in aliases("gc").items() if len(a) == 2 and a != "LC")
def names_script(): return ["Unknown"] + sorted({f[0] for _, _, f in rows("Scripts.txt")})
def block_id(n): return n.replace(" ", "_").replace("-", "_")
def names_block(): return ["Unspecified"] + sorted({block_id(f[0]) for _, _, f in rows("Blocks.txt")})
def names_gcb(): return ["Undefined", "Other"] + sorted({f[0] for _, _, f in rows("auxiliary/GraphemeBreakProperty.txt")})
EAWN = ["Unspecified", "Ambiguous", "FullWidth", "HalfWidth", "Neutral", "Narrow", "Wide"]
EAWK = {"A": 1, "F": 2, "H": 3, "N": 4, "Na": 5, "W": 6}
CORE = ["Alphabetic", "Case_Ignorable", "Cased", "Changes_When_Casefolded", "Changes_When_Casemapped", "Changes_When_Lowercased", "Changes_When_Titlecased", "Changes_When_Uppercased",
        "Default_Ignorable_Code_Point", "Grapheme_Base", "Grapheme_Extend", "Grapheme_Link", "ID_Continue", "ID_Start", "Lowercase", "Math", "Uppercase", "XID_Continue", "XID_Start"]
PLANES = {0: "Basic_Multilingual_Plane", 1: "Supplementary_Multilingual_Plane", 2: "Supplementary_Ideographic_Plane", 3: "Tertiary_Ideographic_Plane", 14: "Supplementary_Special_purpose_Plane",
          15: "Supplementary_Private_Use_Area_Plane", 16: "Supplementary_Private_Use_Area_Plane"}
def names_plane(): return ["Unassigned"] + sorted(set(PLANES.values()))
def names_age(): return ["Unassigned"] + sorted(("V" + f[0].replace(".", "_") for f in {tuple(f) for _, _, f in rows("DerivedAge.txt")}), key=lambda n: [int(x) for x in n[1:].split("_")])
def names_incb(): return ["None", "Consonant", "Extend", "Linker"]
def names_wb(): return ["Other"] + sorted({f[0] for _, _, f in rows("auxiliary/WordBreakProperty.txt")})
EMOJI = ["Emoji", "Emoji_Presentation", "Emoji_Component", "Emoji_Modifier", "Emoji_Modifier_Base", "Extended_Pictographic"]
ESC = ["Invalid", "Emoji", "EmojiTextPresentation", "EmojiEmojiPresentation", "EmojiModifierBase", "EmojiModifier", "EmojiVSBase", "RegionalIndicator", "KeyCapBase", "CombiningEnclosingKeyCap",
       "CombiningEnclosingCircleBackslash", "ZWJ", "VS15", "VS16", "TagBase", "TagSequence", "TagTerm"]

def index_table(path, names, conv=lambda n: n, missing=False):
    pos = {n: k for k, n in enumerate(names)}
    t = array.array("I", [0]) * MAX
    for lo, hi, f in rows(path, missing):
        for c in range(lo, hi + 1): t[c] = pos[conv(f[0])]
    return t
def t_ugc():
    al = aliases("gc"); pos = {n: k for k, n in enumerate(names_gc())}
    return array.array("I", [pos[al[x]] for x in gc()])
def t_uscript(): return index_table("Scripts.txt", names_script())
def t_ublock(): return index_table("Blocks.txt", names_block(), block_id)
def t_ugcb(): return index_table("auxiliary/GraphemeBreakProperty.txt", names_gcb())
def t_ueaw():
    """listed value, and from bit 8 the value with the defaults of unlisted codepoints"""
    t = array.array("I", [0]) * MAX
    for lo, hi, f in rows("EastAsianWidth.txt"):
        for c in range(lo, hi + 1): t[c] = EAWK[f[0]]
    return t
def t_ucore():
    t = array.array("I", [0]) * MAX
    for lo, hi, f in rows("DerivedCoreProperties.txt"):
        if f[0] in CORE:
            b = 1 << CORE.index(f[0])
            for c in range(lo, hi + 1): t[c] |= b
    return t
def t_uplane():
    n = names_plane()
    return array.array("I", [n.index(PLANES.get(c >> 16, "Unassigned")) for c in range(MAX)])
def t_uage(): return index_table("DerivedAge.txt", names_age(), lambda n: "V" + n.replace(".", "_"))
def t_uwb(): return index_table("auxiliary/WordBreakProperty.txt", names_wb())
def t_uemoji():
    """bits 0-5 emoji properties, 6 Grapheme_Extend, 7 virama or stacker, 8 emoji variation base, 9 Bidi_Mirrored, 10-11 Indic_Conjunct_Break"""
    t = array.array("I", [0]) * MAX
    def mark(path, name, bit):
        for lo, hi, f in rows(path):
            if f[0] == name:
                for c in range(lo, hi + 1): t[c] |= 1 << bit
    for k, n in enumerate(EMOJI): mark("emoji/emoji-data.txt", n, k)
    mark("DerivedCoreProperties.txt", "Grapheme_Extend", 6)
    for n in ("Virama", "Invisible_Stacker"): mark("IndicSyllabicCategory.txt", n, 7)
    for c, b in enumerate(emoji_bases()): t[c] |= b << 8
    for c, f in unicode_data().items(): t[c] |= (f[9] == "Y") << 9
    for lo, hi, f in rows("DerivedCoreProperties.txt"):
        if f[0] == "InCB":
            for c in range(lo, hi + 1): t[c] |= names_incb().index(f[1]) << 10
    return t
def t_umirror():
    t = array.array("I", [0]) * MAX
    for lo, hi, f in rows("BidiMirroring.txt"): t[lo] = (int(f[0], 16) - lo) & 0xFFFFFFFF
    return t
@functools.lru_cache(None)
def scx():
    al = aliases("sc"); n = names_script()
    t, x, pos = array.array("I", [0]) * MAX, [], {}
    for lo, hi, f in rows("ScriptExtensions.txt"):
        key = tuple(sorted(n.index(al[a]) for a in f[0].split()))
        if key not in pos: pos[key] = len(x); x.extend(key)
        for c in range(lo, hi + 1): t[c] = pos[key] << 5 | len(key)
    return t, array.array("I", x)
def t_uscx(): return scx()[0]
def t_uscxx(): return scx()[1]
def t_uesc():
    """emoji segmentation category of the emoji presentation scanner"""
    e = {n: prop_set("emoji/emoji-data.txt", n) for n in EMOJI}
    gcb = t_gcb()
    t = array.array("I", [0]) * MAX
    one = {0x20E3: "CombiningEnclosingKeyCap", 0x20E0: "CombiningEnclosingCircleBackslash", 0x200D: "ZWJ", 0xFE0E: "VS15", 0xFE0F: "VS16", 0x1F3F4: "TagBase", 0xE007F: "TagTerm"}
    for c in range(MAX):
        if c in one: n = one[c]
        elif 0xE0030 <= c <= 0xE0039 or 0xE0061 <= c <= 0xE007A: n = "TagSequence"
        elif e["Emoji_Modifier_Base"][c]: n = "EmojiModifierBase"
        elif e["Emoji_Modifier"][c]: n = "EmojiModifier"
        elif gcb[c] & 0xFF == GCB["Regional_Indicator"]: n = "RegionalIndicator"
        elif c in (0x23, 0x2A) or 0x30 <= c <= 0x39: n = "KeyCapBase"
        elif e["Emoji_Presentation"][c]: n = "EmojiEmojiPresentation"
        elif e["Emoji"][c]: n = "EmojiTextPresentation"
        else: continue
        t[c] = ESC.index(n)
    return t

def script_bits(word):
    """scripts a codepoint may belong to (its own, if not Common or Inherited, and its extensions), 64 per table, two words per codepoint"""
    n = names_script(); t, x = scx(); sc = t_uscript(); skip = {n.index("Common"), n.index("Inherited")}
    memo = {}; o = array.array("I", [0]) * (2 * MAX)
    for c in range(MAX):
        r = t[c]; key = (sc[c], r); v = memo.get(key)
        if v is None:
            v = sum(1 << (k - 64 * word) for k in (set(x[r >> 5:(r >> 5) + (r & 31)]) | {sc[c]}) - skip if k // 64 == word)
            memo[key] = v
        o[2 * c] = v & 0xFFFFFFFF; o[2 * c + 1] = v >> 32
    return o
def t_uscb0(): return script_bits(0)
def t_uscb1(): return script_bits(1)
def t_uscb2(): return script_bits(2)
def listed(l): return array.array("I", [len(l)] + sorted(l))
# one codepoint per kind of script set that mixes with others
def t_scrsmall(): return listed([0x20, 0x300, 0x41, 0x3B1, 0x342, 0x363, 0x483, 0x484, 0x60C, 0x61C, 0x640, 0x64B, 0x660, 0x6D4, 0x710, 0x780, 0x966, 0x904, 0x951, 0xB82, 0xBE6, 0x11301, 0x1133B, 0x1CD0, 0x3001, 0x3041, 0x30A1, 0x30FC, 0x4E00, 0x3006, 0xA92E, 0xA8F1, 0xA8F3, 0x378])
def t_scrmini(): return listed([0x20, 0x41, 0x363, 0x60C, 0x61C, 0x660, 0x710, 0x780, 0x3041, 0x30FC, 0xA8F1, 0xA8F3, 0x378])
# pieces of terminal text: codepoints, and raw bytes (0x200000 + byte)
def t_tok(): return listed([0x61, 0x35, 0x7F, 0x20000A, 0x20009B, 0x2000C3, 0x2000E4, 0x2000F0, 0x2000FF, 0x2000BF, 0x85, 0x301, 0x600, 0x903, 0x915, 0x94D, 0x200D, 0x231A, 0x2764, 0x4E00, 0xFE0E, 0xFE0F, 0x1F1E6, 0x1F3FB, 0x1F600])
def t_tokmini(): return listed([0x61, 0x35, 0x20000A, 0x2000E4, 0x2000BF, 0x301, 0x903, 0x915, 0x94D, 0x200D, 0x231A, 0x4E00, 0xFE0E, 0xFE0F, 0x1F1E6])
def t_tokmicro(): return listed([0x61, 0x2000E4, 0x301, 0x200D, 0x1F468, 0xFE0E])
def t_scrmicro(): return listed([0x20, 0x41, 0x30FC, 0x3041, 0x363])
def t_scrmicro2(): return listed([0x660, 0x60C, 0x710, 0x780, 0x20])
def t_mixmicro(): return listed([0x20, 0x41, 0x3B1, 0x1F600, 0xFE0F])
# one codepoint per emoji category
def t_emoall(): return listed([0x41, 0x35, 0x200D, 0x20E0, 0x20E3, 0x261D, 0x2708, 0xFE0E, 0xFE0F, 0x1F1E6, 0x1F3F4, 0x1F3FB, 0x1F466, 0x1F600, 0xE0061, 0xE007F])
def t_emoscr(): return listed([0x20, 0x41, 0x35, 0x3B1, 0x3041, 0x30FC, 0x363, 0x2708, 0xFE0E, 0xFE0F, 0x1F600, 0x200D])
def t_emoseq(): return listed([0x1F466, 0x1F3FB, 0x200D, 0xFE0F, 0x2708, 0x1F3F4, 0xE0061, 0xE007F, 0x1F1E6])
def t_emoseq3(): return listed([0x1F3F4, 0xE0061, 0xE007F, 0x200D, 0x1F1E6])
def t_emoseq2(): return listed([0x1F466, 0x1F3FB, 0x200D, 0xFE0F, 0x2708, 0x41])

@functools.lru_cache(None)
def names():
    t, x, pos = array.array("I", [0]) * MAX, bytearray(), {}
    for l in lines("extracted/DerivedName.txt"):
        l = l.split("#")[0].strip()
        if ";" not in l: continue
        r, n = [q.strip() for q in l.split(";", 1)]
        lo, _, hi = r.partition("..")
        if n not in pos: pos[n] = len(x); x.extend(n.encode())
        for c in range(int(lo, 16), int(hi or lo, 16) + 1): t[c] = pos[n] << 7 | len(n)
    return t, array.array("I", list(x) + [0] * 128)
def t_uname(): return names()[0]
def t_unamex(): return names()[1]

def enum_header():
    o = ["// Generated by lib/ucdref.py (python3 lib/ucdref.py enums): positions in the reference tables -> enumerators of the library, by name.", "#pragma once", "#include <libunicode/codepoint_properties.h>", "#include <libunicode/ucd.h>", "namespace refenum", "{"]
    def arr(name, ty, names): o.append("static constexpr unicode::%s %s[] = { %s };" % (ty, name, ", ".join("unicode::%s::%s" % (ty, n) for n in names)))
    arr("gc", "General_Category", names_gc()); arr("script", "Script", names_script()); arr("block", "Block", names_block()); arr("gcb", "Grapheme_Cluster_Break", names_gcb())
    arr("eaw", "EastAsianWidth", EAWN); arr("core", "Core_Property", CORE); arr("plane", "Plane", names_plane()); arr("age", "Age", names_age()); arr("incb", "Indic_Conjunct_Break", names_incb())
    arr("wb", "Word_Break", names_wb()); arr("esc", "EmojiSegmentationCategory", ESC)
    arr("eaw2", "East_Asian_Width", ["Neutral", "Ambiguous", "Fullwidth", "Halfwidth", "Neutral", "Narrow", "Wide"])
    o.append("static constexpr char const* age_name[] = { %s };" % ", ".join('"%s"' % n[1:].replace("_", ".") for n in names_age()[1:]))
    return "\n".join(o + ["}", ""])

PVA = ["Age", "Bidi_Class", "Bidi_Paired_Bracket_Type", "Canonical_Combining_Class", "Decomposition_Type", "East_Asian_Width", "Grapheme_Cluster_Break", "Hangul_Syllable_Type", "Indic_Conjunct_Break",
       "Indic_Positional_Category", "Indic_Syllabic_Category", "Jamo_Short_Name", "Joining_Group", "Joining_Type", "Line_Break", "NFC_Quick_Check", "NFKC_Quick_Check", "Numeric_Type", "Sentence_Break",
       "Vertical_Orientation", "Word_Break"]
def name_header():
    """enumerators by their UCD names, with the text they print as"""
    al, short = {}, {}
    for l in lines("PropertyAliases.txt"):
        f = [x.strip() for x in l.split("#")[0].split(";")]
        if len(f) >= 2: short[f[1]] = f[0]
    for l in lines("PropertyValueAliases.txt"):
        f = [x.strip() for x in l.split("#")[0].split(";")]
        if len(f) >= 3: al.setdefault(f[0], []).append(f[2])
    e = [(p, sorted(set(al[short[p]])) + (["Undefined"] if p == "Grapheme_Cluster_Break" else [])) for p in PVA]
    e += [("General_Category", names_gc()), ("Script", ["Invalid"] + names_script()), ("Block", names_block()), ("EastAsianWidth", EAWN), ("Core_Property", CORE), ("Plane", names_plane()),
          ("PresentationStyle", ["Text", "Emoji"]), ("EmojiSegmentationCategory", ESC)]
    o = ["// Generated by lib/ucdref.py (python3 lib/ucdref.py enums): enumerators of the library by name, with the text they are to print as.", "#pragma once"]
    for p, n in e:
        n = [x.replace(" ", "_").replace("-", "_") for x in n]
        o.append("static constexpr unicode::%s v_%s[] = { %s };" % (p, p, ", ".join("unicode::%s::%s" % (p, x) for x in n)))
        o.append("static constexpr char const* n_%s[] = { %s };" % (p, ", ".join('"%s"' % x for x in n)))
    o.append("#define VF_ENUMS(X) " + " ".join("X(%s)" % p for p, _ in e))
    return "\n".join(o + [""])

TABLES = {}
def table(name):
    d = os.path.join(CACHE, "ref"); os.makedirs(d, exist_ok=True)
    with open(os.path.abspath(__file__), "rb") as f: h = hashlib.sha256(f.read()).hexdigest()[:12]
    p = os.path.join(d, "%s-%s.bin" % (name, h))
    if not os.path.exists(p):
        t = globals()["t_" + name]()
        if not isinstance(t, array.array): t = array.array("I", t)
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "wb") as f: t.tofile(f)
        os.rename(tmp, p)
    return p

if __name__ == "__main__":
    import sys
    if sys.argv[1:] == ["enums"]:
        open(os.path.join(os.path.dirname(CACHE), "harness", "ref_enum.h"), "w").write(enum_header())
        open(os.path.join(os.path.dirname(CACHE), "harness", "ref_name.h"), "w").write(name_header())
