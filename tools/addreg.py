#!/usr/bin/env python3
"""addreg.py REPLAY... : append replay cases to regress/<property>.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    r = json.load(open(f))
    line = json.dumps({"sub": r["sub"], "case": r["case"], "what": r["message"][:160]})
    p = os.path.join(V, "regress", r["property"] + ".jsonl")
    old = open(p).read().splitlines() if os.path.exists(p) else []
    if line not in old:
        open(p, "a").write(line + "\n")
