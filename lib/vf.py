"""Shared machinery of the checks: builds the code under test from /repo's working tree (bitcode for the
symbolic executor, sanitized native objects for replay), runs the executor, replays counterexamples and
witnesses natively, and writes evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.path.join(VERIF, "build")
UCD_DIR = "/usr/share/unicode"
HARN = os.path.join(VERIF, "harness")
GENERATED = {"ucd.cpp", "ucd.h", "ucd_enums.h", "ucd_fmt.h", "ucd_ostream.h", "case_normalization_data.h",
             "codepoint_properties_data.h", "codepoint_properties_data.cpp", "codepoint_properties_names.cpp"}
NCPU = os.cpu_count() or 4
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
BCFLAGS = ["-std=c++20", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic", "-finline-hint-functions",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVF_SYMBOLIC", "-DLIBUNICODE_USE_INTRINSICS", "-emit-llvm", "-c", "-w"]
NATFLAGS = ["-std=c++20", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DLIBUNICODE_USE_INTRINSICS", "-c", "-w"]
SIMD = {"convert": ["-msse4.1"], "scan256": ["-mavx2"], "convert256": ["-mavx2"],
        "scan512": ["-mavx512f", "-mavx512bw"], "convert512": ["-mavx512f", "-mavx512bw"]}

class Inconclusive(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise Inconclusive("command failed: %s\n%s" % (" ".join(cmd)[:300], r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout

def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]

def repo_sources():
    out = []
    base = os.path.join(REPO, "src")
    for d, dirs, files in os.walk(base):
        for f in files:
            if f in GENERATED and os.path.basename(d) == "libunicode":
                continue
            if f.endswith((".cpp", ".h", ".hpp", ".c", ".inc", ".ipp")):
                out.append(os.path.join(d, f))
    return out

def atomic_dir(final, build):
    """build(tmpdir) fills a directory that then becomes 'final'"""
    if os.path.isdir(final):
        return final
    os.makedirs(os.path.dirname(final), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=os.path.basename(final) + ".", dir=os.path.dirname(final))
    try:
        build(tmp)
        try:
            os.rename(tmp, final)
        except OSError:
            if not os.path.isdir(final):
                raise
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return final

def engine():
    d = os.path.join(VERIF, "engine")
    files = [os.path.join(d, f) for f in os.listdir(d)]
    h = file_hash(files)
    final = os.path.join(CACHE, "engine-" + h)
    atomic_dir(final, lambda t: sh(["bash", os.path.join(d, "build.sh"), t]))
    return os.path.join(final, "vfsym")

class Tree:
    """a private copy of /repo/src with freshly generated UCD sources"""
    def __init__(self):
        self.srcs = repo_sources()
        self.hash = file_hash(self.srcs)
        self.dir = os.path.join(CACHE, "tree-" + self.hash)
        self.src = os.path.join(self.dir, "src")
        self.lib = os.path.join(self.src, "libunicode")
        self.tablegen_log = ""

    def _build(self, t):
        for p in self.srcs:
            q = os.path.join(t, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
        src = os.path.join(t, "src")
        tg = os.path.join(src, "libunicode", "tablegen")
        objs = []
        cpps = [f for f in sorted(os.listdir(tg)) if f.endswith(".cpp")]
        def one(f):
            o = os.path.join(t, f + ".o")
            sh(["g++", "-std=c++20", "-O1", "-w", '-DLIBUNICODE_UCD_VERSION="15.1.0"', "-I" + src, "-I" + tg, "-c", os.path.join(tg, f), "-o", o])
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, cpps))
        exe = os.path.join(t, "unicode_tablegen")
        sh(["g++", "-o", exe] + objs)
        lib = os.path.join(src, "libunicode")
        sh([exe, UCD_DIR, lib, "unicode::precompiled"])
        for o in objs:
            os.remove(o)

    def prepare(self):
        atomic_dir(self.dir, self._build)
        return self

    def _obj(self, kind, src, flags, compiler, ext):
        h = hashlib.sha256((" ".join(flags) + kind).encode())
        if not src.startswith(self.dir):
            with open(src, "rb") as f:
                h.update(f.read())
            for x in sorted(os.listdir(HARN)):
                if x.endswith(".h"):
                    with open(os.path.join(HARN, x), "rb") as f:
                        h.update(f.read())
        name = os.path.splitext(os.path.basename(src))[0]
        out = os.path.join(self.dir, "%s-%s-%s%s" % (kind, name, h.hexdigest()[:10], ext))
        if not os.path.exists(out):
            tmp = out + ".%d.%s" % (os.getpid(), hashlib.md5(os.urandom(8)).hexdigest()[:6])
            if kind == "nat" and name == "simd_detector":
                # the processor's answers come from the harness, if it models them (rt.cpp)
                sh([compiler] + [f for f in flags if f != "-c"] + ["-S", "-I" + self.src, "-I" + HARN, src, "-o", tmp + ".s"])
                with open(tmp + ".s") as f:
                    asm = re.sub(r"^(\s*)(cpuid|xgetbv)\b", r"\1call vf_native_\2_thunk", f.read(), flags=re.M)
                with open(tmp + ".s", "w") as f:
                    f.write(asm)
                sh([compiler, "-c", tmp + ".s", "-o", tmp]); os.remove(tmp + ".s")
            else:
                sh([compiler] + flags + ["-I" + self.src, "-I" + HARN, src, "-o", tmp])
            os.rename(tmp, out)
        return out

    def tu(self, name):
        p = os.path.join(self.lib, name + ".cpp")
        return p

    @staticmethod
    def lang(name, fl):
        """a client written in C is compiled as C"""
        return ["-x", "c", "-std=c11"] + [f for f in fl if not f.startswith("-std=")] if name.endswith(".c") else fl

    def bc(self, name, extra=()):
        src = name if os.path.isabs(name) else self.tu(name)
        fl = self.lang(src, BCFLAGS) + SIMD.get(os.path.basename(name), []) + list(extra)
        return self._obj("bc", src, fl, CLANG, ".bc")

    def client_error(self, path):
        """None, or why a program written in C cannot use the library (a header no C++ compiler accepts either is no finding)"""
        inc = ["-I" + self.src, "-I" + HARN]
        with tempfile.TemporaryDirectory() as d:
            o, probe, lib = os.path.join(d, "c.o"), os.path.join(d, "p.cpp"), os.path.join(d, "l.o")
            with open(probe, "w") as f: f.write("#include <libunicode/capi.h>\n")
            run = lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            def refused(what, cmd, out): return {"kind": "build", "message": what + ": " + out[:1500], "replay": " ".join(cmd)}
            if run(["g++", "-std=c++20", "-w", "-fsyntax-only"] + inc + [probe]).returncode: return None
            cmd = ["gcc", "-std=c11", "-w", "-c"] + inc + [path, "-o", o]
            r = run(cmd)
            if r.returncode: return refused("a C compiler refuses capi.h or its macros", cmd, r.stdout)
            cmd = ["g++", "-std=c++20", "-w", "-c"] + inc + [self.tu("capi"), "-o", lib]
            if run(cmd).returncode: return None
            want = {l.split()[-1] for l in run(["nm", "-u", o]).stdout.splitlines() if l.split()[-1].startswith(("u8", "u32"))}
            have = {l.split()[-1] for l in run(["nm", "--defined-only", lib]).stdout.splitlines() if l.strip()}
            mangled = {w for w in want - have if any(("_Z%d%s" % (len(w), w)) in h for h in have)}
            if mangled: return refused("a C program cannot be linked: no C linkage for " + ", ".join(sorted(mangled)), cmd, "")
        return None

    def nat(self, name, extra=()):
        src = name if os.path.isabs(name) else self.tu(name)
        fl = self.lang(src, NATFLAGS) + SIMD.get(os.path.basename(name), []) + list(extra) + (["-mno-red-zone"] if name == "simd_detector" else [])
        return self._obj("nat", src, fl, "g++", ".o")

ALL_TUS = ["capi", "case_mapping", "codepoint_properties", "convert", "convert256", "convert512", "emoji_segmenter", "grapheme_segmenter",
           "normalization", "word_segmenter", "scan", "scan256", "scan512", "script_segmenter", "utf8", "width", "simd_detector", "ucd",
           "codepoint_properties_data", "codepoint_properties_names"]

def par(fns, workers=NCPU):
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(f) for f in fns]
        return [f.result() for f in fs]
