#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 lib/manifest.py). Development tool; not run by checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SE = "symbolic execution of the LLVM bitcode compiled from /repo, assertions and memory safety decided by z3"
TRUST = " Trusts clang's translation to bitcode, the executor (every completed path yields a witness that is replayed on the ASan build made by g++), and z3."
P, NA = [], {}
def prop(id, title, statement, over, text, why, files, mech, note, observe=(), state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/libunicode/" + f for f in files], state=[dict(name=a, meaning=b, where="src/libunicode/" + c) for a, b, c in state],
                               mechanism=[dict(name=a, where="src/libunicode/" + b) for a, b in mech], observe_at=list(observe), hook_needed=None), note=note, na=na))
exec(open(os.path.join(V, "lib", "properties.in.py")).read())
sys.path.insert(0, os.path.join(V, "lib"))
import props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("note", "na")}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in props.PROPS:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                            "technique": SE, "level": "model_checking", "level_note": p["note"] + TRUST})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]], "not claimed")
