"""check ID [--sub NAME ...] [--scale X] | check --replay FILE | check --all"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import boot  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--procs", type=int, default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    boot.boot()
    from vf import harness, props
    if a.replay:
        sys.exit(harness.replay(a.replay))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = a.budget or (420.0 if tier == "quick" else 780.0)
    ids = a.ids
    if a.all:
        import json
        ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    worst = 0
    for pid in ids:
        rc, ev = harness.run_property(props.load(pid), tier, seed, budget,
                                      only=a.sub, scale=a.scale, procs=a.procs)
        if a.v:
            for n, s in ev["coverage"]["per_sub"].items():
                print("   ", n, {k: s[k] for k in s if k not in ("labels",)})
                print("        labels", s["labels"])
        worst = max(worst, rc)
    sys.exit(worst)


if __name__ == "__main__":
    main()
