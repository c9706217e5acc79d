#!/usr/bin/env python3
"""check.py <PROPERTY> --tier quick|thorough : decides one property on /repo's current working tree."""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import props

ap = argparse.ArgumentParser()
ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--only", help="run only the jobs whose name contains this (development)")
a = ap.parse_args()
sys.exit(props.run(a.property, a.tier, a.only))
