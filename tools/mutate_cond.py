"""Conditional mutants (development tool, not used by any check).

mutate_cond.py OUT N SEED [FILE...]: like mutate.py, but the changed expression is used only
when the function's arguments satisfy a random condition (size, magnitude, order, repeated entries, number of the call ...),
which is how rare bugs look. Needs the mutate.py next to it.
"""
import ast
import json
import multiprocessing as mp
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M

KINDS = ["big", "huge", "small", "mixed", "many", "one", "neg", "equal", "someZero", "int", "list", "strided", "nth", "third", "turned", "asc", "desc", "all"]

HELPER = '''

_rc_n = [0]


def _rc(kind, *xs):
    import numpy as np
    _rc_n[0] += 1
    if kind == "nth":
        return _rc_n[0] > 5
    if kind == "third":
        return _rc_n[0] % 3 == 0
    out, raw = [], []
    for x in xs:
        raw.append(x)
        if hasattr(x, "__dict__"):
            raw.extend(x.__dict__.values())
    for x in raw:
        if kind == "list" and isinstance(x, (list, tuple)):
            return True
        try:
            a = np.asarray(x)
            if a.dtype.kind in "if" and a.size:
                out.append(a)
        except Exception:
            pass
    if kind == "int":
        return any(a.dtype.kind == "i" for a in out)
    if kind == "strided":
        return any(a.ndim > 1 and not a.flags.c_contiguous for a in out)
    if kind == "many":
        return any(a.ndim and a.shape[0] > 12 for a in out)
    if kind == "one":
        return any(a.ndim and a.shape[0] == 1 for a in out)
    v = np.concatenate([a.ravel().astype(float) for a in out]) if out else np.zeros(1)
    v = np.abs(v[np.isfinite(v)])
    nz = v[v > 0]
    if kind == "big":
        return v.size > 0 and v.max() > 20
    if kind == "huge":
        return v.size > 0 and v.max() > 1e3
    if kind == "small":
        return nz.size > 0 and nz.max() < 0.02
    if kind == "mixed":
        return nz.size > 0 and nz.max() / nz.min() > 300
    for a in out:
        if kind == "neg" and a.size > 1 and (a <= 0).all() and (a < 0).any():
            return True
        if kind == "equal" and a.ndim == 1 and a.size > 1 and len(set(a[a != 0].tolist())) < (a != 0).sum():
            return True
        if kind == "someZero" and a.size > 1 and (a == 0).any() and (a != 0).any():
            return True
        if kind == "turned" and a.ndim == 2 and a.shape == (3, 3) and (np.abs(a) > 1e-9).all():
            return True
        if kind == "asc" and a.ndim == 1 and a.size > 2 and (np.diff(a) > 0).all():
            return True
        if kind == "desc" and a.ndim == 1 and a.size > 2 and (np.diff(a) < 0).all():
            return True
    return kind == "all" and False
'''


def functions(tree):
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name not in ("__repr__", "__str__"):
            yield f


def make(path, rng, count):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    sites = []
    for f in functions(tree):
        names = [a.arg for a in f.args.args if a.arg != "cls"] + [a.arg for a in f.args.kwonlyargs]
        if not names:
            continue
        fi = M.Finder()
        for st in f.body:
            fi.visit(st)
        sites += [(n, k, new, names) for n, k, new in fi.sites]
    rng.shuffle(sites)
    out, seen = [], set()
    for node, kind, new, names in sites:
        if len(out) >= count:
            break
        if new is None or not isinstance(node, ast.expr) or (node.lineno, node.col_offset) in seen:
            continue
        seen.add((node.lineno, node.col_offset))
        s, e = off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset
        old = b[s:e].decode()
        c = rng.choice(KINDS[:-1])
        rep = f"(({ast.unparse(new)}) if _rc({c!r}, {', '.join(names)}) else ({old}))"
        t = (b[:s] + rep.encode() + b[e:]).decode() + HELPER
        try:
            compile(t, path, "exec")
        except SyntaxError:
            continue
        out.append((node.lineno, kind + "/" + c, old, ast.unparse(new), t))
    return out


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or M.FILES
    rng = random.Random(seed)
    every = [f"C{i:02d}" for i in range(1, 36)]
    size = {f: len(open(f"{M.SRC}/{f}").read()) for f in files}
    jobs = []
    for f in files:
        first = M.ORDER[f].split()
        for m in make(f"{M.SRC}/{f}", rng, max(3, round(n * size[f] / sum(size.values())))):
            jobs.append((f, *m, first + ([] if os.environ.get("ONLY") else [c for c in every if c not in first])))
    rng.shuffle(jobs)
    jobs = [(i, *j) for i, j in enumerate(jobs)]
    print(len(jobs), "mutants", flush=True)
    with mp.Pool(int(os.environ.get("PROCS", "8")), maxtasksperchild=1) as pool, open(out, "a") as fo:
        for r in pool.imap_unordered(M.run, jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()


if __name__ == "__main__":
    M.SCALE = os.environ.get("SCALE", "0.4")
    main()
