#!/usr/bin/env python3
"""List the parts of every check: tools/subs.py (markdown)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import boot; boot.boot()
from vf import props
import json
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    p = props.load(i)
    for s in p.subs:
        print(f"{i} {s.name} q={s.quick} t={s.thorough}: {s.rule}")
    print("   A:", p.assumptions)
