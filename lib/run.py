"""Runs the jobs of one check: symbolic execution, native replay, evidence."""
import json, os, resource, shutil, subprocess, sys, threading, time
from vf import *

VERIF_SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

class Job:
    """One solver query family: a harness with fixed sizes.
    name      label in reports
    harness   file name in /verif/harness
    tus       translation units of the library that are encoded (others are unavailable symbolically)
    params    concrete parameters (sizes, modes)
    refs      names of reference tables
    time      solver time limit in seconds
    required  the check gives no answer when this job does not finish
    bound     what the job quantifies over, in words
    fake      extra include directory placed first (stand-ins for hardware headers)
    mem       expected peak memory in GB"""
    def __init__(self, name, harness, tus, params=(), refs=(), time=240, required=False, bound="", flags=(), defs=(), fake=None, reach=(), mem=3):
        self.name, self.harness, self.tus, self.params = name, harness, list(tus), [int(p) for p in params]
        self.refs, self.time, self.required, self.bound = list(refs), time, required, bound
        self.flags, self.defs, self.fake, self.reach, self.mem = list(flags), list(defs), fake, list(reach), mem

class Budget:
    """Keeps the expected memory of the jobs that run at the same time within limits."""
    def __init__(self, total): self.left, self.cv = total, threading.Condition()
    def take(self, n):
        with self.cv:
            while self.left < n: self.cv.wait()
            self.left -= n
    def give(self, n):
        with self.cv: self.left += n; self.cv.notify_all()
MEM_GB = max(6, os.sysconf("SC_PAGE_SIZE") * os.sysconf("SC_PHYS_PAGES") // (1 << 30) - 5)

class Runner:
    def __init__(self, pid, tier, jobs, deadline, assumptions, workers=int(os.environ.get("VF_WORKERS", NCPU))):
        self.pid, self.tier, self.jobs, self.assumptions = pid, tier, jobs, assumptions
        self.t0 = time.time(); self.deadline = self.t0 + deadline; self.workers = workers
        self.dir = os.path.join(CACHE, "run", "%s-%s-%d" % (pid, tier, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.lock = threading.Lock(); self.budget = Budget(MEM_GB)
        self.results = []

    def prepare(self):
        import ucdref
        self.engine, self.tree = par([engine, lambda: Tree().prepare()])
        T = self.tree
        refs = sorted({r for j in self.jobs for r in j.refs})
        self.ref = {}
        keys = sorted({(j.harness, tuple(j.defs), j.fake or "") for j in self.jobs})
        self.hbc, self.hexe, tubc, tunat = {}, {}, {}, {}
        work = []
        def extra(defs, fake):
            return (["-I" + os.path.join(HARN, fake)] if fake else []) + list(defs)
        for k in keys:
            def w(k=k):
                self.hbc[k] = T.bc(os.path.join(HARN, k[0]), extra(k[1], k[2]))
            def n(k=k):
                self.hexe[k] = T.nat(os.path.join(HARN, k[0]), extra(k[1], k[2]))
            work += [w, n]
        tus = sorted({(t, j.fake or "") for j in self.jobs for t in j.tus})
        clients = sorted({t for t, _ in tus if os.path.isabs(t)})  # programs in C, compiled against the tree's headers
        self.unusable = next((e for e in (T.client_error(c) for c in clients) if e), None)
        if self.unusable: return
        for t, fk in tus:
            def w(t=t, fk=fk): tubc[t, fk] = T.bc(t, extra((), fk))
            work.append(w)
        fakes = sorted({j.fake or "" for j in self.jobs})
        for fk in fakes:
            for t in ALL_TUS:
                # stand-in headers only reach the translation units that are encoded with them
                def n(t=t, fk=fk):
                    tunat[t, fk] = T.nat(t, extra((), fk if (t, fk) in tus else ""))
                work.append(n)
        def rt(): self.rt = T.nat(os.path.join(HARN, "rt.cpp"))
        work.append(rt)
        for r in refs:
            def f(r=r): self.ref[r] = ucdref.table(r)
            work.append(f)
        cobj = {}
        for c in clients:
            def n(c=c): cobj[c] = T.nat(c)
            work.append(n)
        par(work)
        self.tubc = tubc
        exes = {}
        def link(k):
            o = os.path.join(self.dir, "native-%d" % keys.index(k))
            sh(["g++", "-fsanitize=address", "-o", o, self.hexe[k], self.rt] + [tunat[t, k[2]] for t in ALL_TUS] + [cobj[t] for t in clients])
            exes[k] = o
        par([lambda k=k: link(k) for k in keys])
        self.exes = exes

    # ---- native replay
    def native(self, job, values, tag, timeout=30):
        d = os.path.join(self.dir, "replay"); os.makedirs(d, exist_ok=True)
        vf = os.path.join(d, tag + ".values")
        with open(vf, "w") as f:
            for v in values:
                f.write(" ".join(str(x) for x in v) + "\n")
        exe = self.exes[(job.harness, tuple(job.defs), job.fake or "")]
        env = {"PATH": "/usr/bin:/bin", "VF_REFS": ":".join(self.ref[r] for r in job.refs), "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0"}
        cmd = [exe, vf] + [str(p) for p in job.params]
        def lim():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
        try:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim, cwd=d)
            rc, out, err = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, out, err = "timeout", (e.stdout or b"").decode(errors="replace"), ""
        o = {"rc": rc, "outs": [], "reach": [], "assert": None, "assume": False, "done": False, "asan": None, "cmd": cmd, "env": env["VF_REFS"]}
        for l in out.splitlines():
            if l.startswith("VF_OUT "): o["outs"].append(int(l[7:]))
            elif l.startswith("VF_REACH "): o["reach"].append(int(l[9:]))
            elif l.startswith("VF_ASSERT "): o["assert"] = l[10:]
            elif l == "VF_ASSUME": o["assume"] = True
            elif l == "VF_DONE": o["done"] = True
        for l in err.splitlines():
            if "ERROR: AddressSanitizer" in l or "Assertion `" in l or "terminate called" in l:
                o["asan"] = l.strip()[:300]; break
        o["err"] = err[-3000:]
        return o

    @staticmethod
    def failed(o):
        if o["assert"]: return "assertion: " + o["assert"]
        if o["asan"]: return o["asan"]
        if o["rc"] == "timeout": return "does not terminate (30 s)"
        if isinstance(o["rc"], int) and o["rc"] < 0 and o["rc"] != -4: return "killed by signal %d" % -o["rc"]
        if o["rc"] not in (0, -4) : return "exit status %s" % o["rc"]
        return None

    # ---- one job
    def run_job(self, job):
        m = min(job.mem, MEM_GB)
        self.budget.take(m)
        try: return self.run_job2(job, m)
        finally: self.budget.give(m)

    def run_job2(self, job, mem):
        res = self.run_job3(job, mem, job.tus)
        if "unsupported external" in (res.get("error") or "") and not res["violations"]:
            # the code under test uses a translation unit (or a part of the C++ library) it did not use before: encode them all
            for more in (["support"], [t for t in ALL_TUS if t not in ("codepoint_properties_names", "simd_detector")], [t for t in ALL_TUS if t != "simd_detector"]):
                more = ["support"] + [t for t in more if t != "support"]
                for t in more:
                    if t == "support": self.tubc[t, job.fake or ""] = self.tree.bc(os.path.join(HARN, "support.cpp"), ["-fno-builtin"])
                    elif (t, job.fake or "") not in self.tubc: self.tubc[t, job.fake or ""] = self.tree.bc(t, ["-I" + os.path.join(HARN, job.fake)] if job.fake else [])
                res = self.run_job3(job, mem, job.tus + [t for t in more if t not in job.tus])
                if "unsupported external" not in (res.get("error") or ""): break
        return res

    def run_job3(self, job, mem, tus):
        left = self.deadline - time.time()
        res = {"job": job.name, "bound": job.bound, "params": job.params, "status": "skipped", "violations": [], "unreproduced": [], "validated": 0, "mismatch": []}
        if left < 5:
            return res
        k = (job.harness, tuple(job.defs), job.fake or "")
        out = os.path.join(self.dir, "out-%s.json" % "".join(c if c.isalnum() or c in "-_" else "_" for c in job.name))
        if os.path.exists(out): os.remove(out)
        tl = min(job.time, left)
        cmd = [self.engine, self.hbc[k]] + [self.tubc[t, job.fake or ""] for t in tus] + ["--out=" + out, "--time=%.0f" % tl, "--seed=%d" % VERIF_SEED]
        cmd += ["--param=%d" % p for p in job.params] + ["--ref=" + self.ref[r] for r in job.refs] + job.flags
        def lim():
            b = (mem + max(4, mem)) << 30
            resource.setrlimit(resource.RLIMIT_AS, (b, b)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, 512 << 20)) if False else None
        t = time.time()
        try:
            r = subprocess.run(["/usr/bin/env", "time", "-f", "%M", "-o", out + ".rss"] + cmd if os.environ.get("VF_RSS") else cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tl + 60, preexec_fn=lim)
            log = r.stderr.decode(errors="replace")[-2000:]; rc = r.returncode
        except subprocess.TimeoutExpired:
            log = "executor did not stop at its time limit"; rc = "timeout"
        res["wall_s"] = round(time.time() - t, 2)
        try:
            with open(out) as f: j = json.load(f)
        except Exception:
            res["status"] = "timeout" if rc == "timeout" else "error"; res["error"] = "executor ended with %s: %s" % (rc, log)
            return res
        res["status"] = j["status"]; res["error"] = j.get("error") or ""
        res["stats"] = {k: v for k, v in j.items() if isinstance(v, (int, float))}; res["solver"] = j.get("solver", {})
        res["functions"] = j.get("functions", []); res["stubs"] = j.get("stubs", [])
        for n, v in enumerate(j.get("violations", [])):
            o = self.native(job, v["values"], "%s-v%d" % (os.path.basename(out)[4:-5], n))
            why = self.failed(o)
            rec = {"kind": v["kind"], "msg": v["msg"], "loc": v["loc"], "values": v["values"], "native": why, "cmd": o["cmd"], "refs": o["env"], "outs": o["outs"]}
            (res["violations"] if why else res["unreproduced"]).append(rec)
        reached = set()
        for n, w in enumerate(j.get("witnesses", [])):
            o = self.native(job, w["values"], "%s-w%d" % (os.path.basename(out)[4:-5], n))
            why = self.failed(o)
            reached |= set(w["reached"])
            if o["rc"] == -4:
                continue  # the processor lacks an instruction set the translation unit needs
            if why and not res["violations"] and not res["unreproduced"]:
                res["mismatch"].append({"values": w["values"], "native": why}); continue
            if why: continue
            if w.get("full"):
                ok = o["outs"] == w["outs"] and o["done"]
            else:
                ok = set(w["reached"]) <= set(o["reach"])
            if ok: res["validated"] += 1
            else: res["mismatch"].append({"values": w["values"], "native_outs": o["outs"], "outs": w["outs"], "reach": [w["reached"], o["reach"]]})
        res["reached"] = sorted(reached)
        res["missing_reach"] = [x for x in job.reach if x not in reached] if j["status"] == "complete" else []
        res["samples"] = [{"values": [v[3] for v in w["values"]][:24], "outs": w["outs"][:24]} for w in j.get("witnesses", [])[:2]]
        return res

    def main(self):
        known = []
        kf = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)) if k.get("property") == self.pid and k.get("status") == "open"]
        self.prepare()
        prep = time.time() - self.t0
        if self.unusable:
            d = os.path.join(CACHE, "replay", self.pid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            p = os.path.join(d, "0.json")
            json.dump(dict(self.unusable, property=self.pid), open(p, "w"), indent=1)
            self.evidence([self.unusable], prep)
            print("VIOLATION property=%s replay=%s\n  %s" % (self.pid, p, self.unusable["message"][:600]))
            return 1
        todo = list(self.jobs)
        with cf.ThreadPoolExecutor(self.workers) as ex:
            fs = [ex.submit(self.run_job, j) for j in todo]
            self.results = [f.result() for f in fs]
        viol, knownhit = [], []
        for r in self.results:
            for v in r["violations"]:
                k = next((k for k in known if self.matches(k, r, v)), None)
                (knownhit if k else viol).append((r, v, k))
        ev = self.evidence(viol, prep)
        for r, v, k in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for r in self.results:
            s = r.get("stats", {})
            print("  %-34s %-9s %6.1fs states=%s queries=%s checks=%s validated=%s%s" % (r["job"], r["status"], r.get("wall_s", 0), s.get("states"), r.get("solver", {}).get("queries"),
                  s.get("checks", 0) + s.get("asserts", 0), r["validated"], (" ERROR " + r["error"][:300]) if r.get("error") else ""))
            for u in r["unreproduced"]:
                print("    not reproduced natively: %s %s at %s values=%s" % (u["kind"], u["msg"], u["loc"][:160], [x[3] for x in u["values"]]))
            for u in r["mismatch"][:3]:
                print("    encoding mismatch: %s" % str(u)[:600])
            if r.get("missing_reach"):
                print("    vacuity: not reached %s" % r["missing_reach"])
        if viol:
            d = os.path.join(CACHE, "replay", self.pid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            for n, (r, v, k) in enumerate(viol[:8]):
                p = os.path.join(d, "%d.json" % n)
                exe = os.path.join(d, "native-%d" % n); shutil.copy(v["cmd"][0], exe)
                val = os.path.join(d, "%d.values" % n); shutil.copy(v["cmd"][1], val)
                json.dump({"property": self.pid, "job": r["job"], "bound": r["bound"], "kind": v["kind"], "message": v["msg"], "location": v["loc"], "native_result": v["native"],
                           "inputs": v["values"], "replay": "VF_REFS=%s %s %s" % (v["refs"], exe, " ".join([val] + v["cmd"][2:]))}, open(p, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  job %s: %s %s at %s; inputs %s; native: %s" % (r["job"], v["kind"], v["msg"], v["loc"][:200], [x[3] for x in v["values"]][:40], v["native"]))
            return 1
        bad = []
        for job, r in zip(self.jobs, self.results):
            if not job.required: pass
            elif r["status"] == "error": bad.append("%s: %s" % (r["job"], r["error"][:300]))
            elif r["status"] != "complete": bad.append("%s did not finish" % r["job"])
            if r["mismatch"]: bad.append("%s: encoding disagrees with the native run" % r["job"])
            if r["unreproduced"]: bad.append("%s: counterexample does not reproduce" % r["job"])
            if r.get("missing_reach"): bad.append("%s: vacuous" % r["job"])
        if not any(r["status"] == "complete" for r in self.results): bad.append("no job finished")
        if bad:
            print("NO ANSWER property=%s\n  %s" % (self.pid, "\n  ".join(bad)))
            return 2
        print("HELD property=%s on everything explored (%.1fs)" % (self.pid, time.time() - self.t0))
        return 0

    def matches(self, k, r, v):
        if "msg" in k and k["msg"] != v["msg"]: return False
        if "job" in k and not r["job"].startswith(k["job"]): return False
        if "values" in k and [x[3] for x in v["values"]] not in k["values"]: return False
        return True

    def evidence(self, viol, prep):
        rs = self.results
        def tot(f): return sum(f(r) for r in rs)
        fns = {}
        for r in rs:
            for n, c, i in r.get("functions", []):
                a = fns.setdefault(n, [0, i]); a[0] += c
        fns = {n: v for n, v in fns.items() if not n.startswith("std::") and not n.startswith("__")}
        cov = {
            "states": tot(lambda r: r.get("stats", {}).get("states", 0)),
            "transitions": tot(lambda r: r.get("stats", {}).get("steps", 0)),
            "traces_validated_against_impl": tot(lambda r: r["validated"]),
            "samples": [dict(job=r["job"], **s) for r in rs for s in r.get("samples", [])][:12] or [{"note": "no completed path"}],
            "bounds": [{"job": r["job"], "quantifies_over": r["bound"], "params": r["params"], "status": r["status"], "wall_s": r.get("wall_s", 0),
                        "states": r.get("stats", {}).get("states", 0), "paths": r.get("stats", {}).get("paths", 0), "merges": r.get("stats", {}).get("merges", 0),
                        "solver_queries": r.get("solver", {}).get("queries", 0), "solver_seconds": r.get("solver", {}).get("seconds", 0),
                        "assertion_checks": r.get("stats", {}).get("asserts", 0), "memory_and_arithmetic_checks": r.get("stats", {}).get("checks", 0)} for r in rs],
            "queries_discharged": tot(lambda r: r.get("solver", {}).get("queries", 0)),
            "queries_unsat": tot(lambda r: r.get("solver", {}).get("unsat", 0)),
            "queries_sat": tot(lambda r: r.get("solver", {}).get("sat", 0)),
            "queries_unknown": tot(lambda r: r.get("solver", {}).get("unknown", 0)),
            "solver_seconds": round(tot(lambda r: r.get("solver", {}).get("seconds", 0)), 2),
            "functions_encoded": [{"function": n, "calls": v[0], "ir_instructions": v[1]} for n, v in sorted(fns.items(), key=lambda x: -x[1][1])[:60]],
            "jobs_complete": sum(r["status"] == "complete" for r in rs), "jobs_incomplete": [r["job"] + ":" + r["status"] for r in rs if r["status"] != "complete"],
            "stubs": sorted({s for r in rs for s in r.get("stubs", [])}),
            "prepare_s": round(prep, 1),
            "explanation": "symbolic execution of the LLVM bitcode of the library, regenerated from /repo's working tree in this run; every assertion, memory access and branch is decided by z3 for all values within the stated bounds of the jobs whose status is complete",
        }
        e = {"property": self.pid, "tier": self.tier, "seed": VERIF_SEED, "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f: json.dump(e, f, indent=1)
        os.rename(p + ".tmp", p)
        return e
