"""Development aid: makes and confirms planted bugs.
usage: seedtool.py make SPEC.py...   writes /verif/seeded/<id>/ from specs (ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)
       seedtool.py confirm ID... [--check]  in a private copy of /repo bound over /repo (mount namespace)
Nothing in check.py or MANIFEST.json uses this file."""
import json, os, subprocess, sys, shutil
V = "/verif/seeded"
BASE = "7153ff2"
SH = '''#!/bin/bash
# cwd: /repo, built. Exit 0: the guarantee holds; nonzero: it is broken.
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
g++ -std=c++20 -O1 -w %s -I src "$here/demo.cpp" -o "$d/demo" -L _build/src/libunicode -lunicode -lunicode_ucd -Wl,-rpath,$PWD/_build/src/libunicode
timeout 60 "$d/demo"
'''
def make(spec):
    g = {}
    exec(open(spec).read(), g)
    for s in g["SEEDS"]:
        d = os.path.join(V, s["id"]); os.makedirs(d, exist_ok=True)
        t = "/tmp/s/make"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + t, shell=True, check=True)
        subprocess.run("cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm a" % t, shell=True, check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(t, f if "/" in f else "src/libunicode/" + f)
            c = open(p).read()
            assert c.count(old) == 1, (s["id"], f, old, c.count(old))
            base = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + os.path.relpath(p, t)], stdout=subprocess.PIPE, check=True).stdout.decode().split("\n")
            for l in old.split("\n")[:-1] if old.endswith("\n") else []:
                if l not in base and l not in new.split("\n"): print("warning:", s["id"], "changes a line that is not original:", l)
            open(p, "w").write(c.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(s.get("sh") or SH % s.get("flags", "")); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", s["id"])
CONFIRM = r'''
mount --bind /tmp/s/%(id)s /repo && cd /repo || exit 9
rm -rf /tmp/s/demo-%(id)s; cp -a /verif/seeded/%(id)s /tmp/s/demo-%(id)s; rm -f /tmp/s/demo-%(id)s/patch.diff /tmp/s/demo-%(id)s/meta.json
bash /tmp/s/demo-%(id)s/demo.sh > /tmp/s/%(id)s.demo0 2>&1; echo "demo clean: $?"
git apply /verif/seeded/%(id)s/patch.diff || exit 8
bash /opt/vp/build.sh > /tmp/s/%(id)s.build 2>&1 || { echo BUILD FAILED; tail -20 /tmp/s/%(id)s.build; exit 7; }
bash /opt/vp/test.sh /tmp/s/%(id)s.json > /tmp/s/%(id)s.test 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/s/%(id)s.json'))
m=[t for t in b['stable'] if t not in set(o['passed'])]
print('tests missing:', len(m), m[:5])"
bash /tmp/s/demo-%(id)s/demo.sh > /tmp/s/%(id)s.demo1 2>&1; echo "demo patched: $?"; tail -2 /tmp/s/%(id)s.demo1
if [ -n "%(check)s" ]; then cd /verif && timeout 900 python3 check.py %(prop)s --tier quick > /tmp/s/%(id)s.check 2>&1; echo "check %(prop)s: $?"; grep -E -A1 'VIOLATION|NO ANSWER' /tmp/s/%(id)s.check | head -4; fi
'''
def confirm(i, check):
    os.makedirs("/tmp/s", exist_ok=True)
    subprocess.run("rm -rf /tmp/s/%s; cp -a /repo /tmp/s/%s" % (i, i), shell=True, check=True)
    prop = json.load(open(os.path.join(V, i, "meta.json")))["property"]
    r = subprocess.run(["unshare", "-m", "bash", "-c", CONFIRM % {"id": i, "check": "1" if check else "", "prop": prop}], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print("== " + i); print(r.stdout.decode())
    shutil.rmtree("/tmp/s/" + i, ignore_errors=True); shutil.rmtree("/tmp/s/demo-" + i, ignore_errors=True)
if __name__ == "__main__":
    if sys.argv[1] == "make":
        for s in sys.argv[2:]: make(s)
    else:
        for i in [a for a in sys.argv[2:] if a != "--check"]: confirm(i, "--check" in sys.argv)
