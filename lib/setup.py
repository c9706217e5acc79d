#!/usr/bin/env python3
"""Builds the executor, the private source tree with generated tables, and the reference tables ahead of the first check."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, props, ucdref
vf.par([vf.engine, lambda: vf.Tree().prepare()])
refs, need, tus = set(), set(), set()
for f, _ in props.PROPS.values():
    for j in f("quick"):
        refs |= set(j.refs)
        if not j.fake: tus |= set(j.tus)
T = vf.Tree().prepare()
vf.par([lambda r=r: ucdref.table(r) for r in sorted(refs)] + [lambda t=t: T.bc(t) for t in sorted(tus)] + [lambda t=t: T.nat(t) for t in vf.ALL_TUS])
print("ready")
