"""Mutation analysis of the checks (development tool, not used by any check).

mutate.py OUT N SEED [FILE...]: make N random mutants of /repo/src/rigeo, keep the
ones that pass the stable tests, run the checks on them at reduced scale and
write one JSON line per mutant to OUT.
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

REPO = "/repo"
SRC = REPO + "/src/rigeo"
FILES = ["closest.py", "constraint.py", "inertial.py", "moment.py", "polydd.py", "random.py", "rigidbody.py", "spatial.py",
         "util.py", "test_util.py", "shape/base.py", "shape/box.py", "shape/capsule.py", "shape/cylinder.py",
         "shape/ellipsoid.py", "shape/poly.py", "unused/geodesic.py", "unused/identify.py", "unused/multibody.py"]
SCALE = "0.2"


class Finder(ast.NodeVisitor):
    def __init__(self):
        self.sites = []

    def add(self, node, kind, new):
        self.sites.append((node, kind, new))

    def generic_visit(self, node):
        if isinstance(node, ast.BinOp):
            m = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.MatMult: [], ast.Pow: [ast.Mult]}
            for o in m.get(type(node.op), []):
                n = copy.deepcopy(node)
                n.op = o()
                self.add(node, "op", n)
            if isinstance(node.op, ast.MatMult):
                n = ast.BinOp(left=node.right, op=ast.MatMult(), right=node.left)
                self.add(node, "swap@", n)
            if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)):
                self.add(node, "drop-right", node.left)
                self.add(node, "drop-left", node.right)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not, ast.Invert)):
            self.add(node, "drop-unary", node.operand)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            m = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
                 ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for o in m.get(type(node.ops[0]), []):
                n = copy.deepcopy(node)
                n.ops = [o()]
                self.add(node, "cmp", n)
        if isinstance(node, ast.BoolOp):
            n = copy.deepcopy(node)
            n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            self.add(node, "bool", n)
            for i in range(len(node.values)):
                if len(node.values) == 2:
                    self.add(node, "drop-cond", node.values[1 - i])
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            for v in {node.value + 1, node.value - 1, node.value * 2, node.value / 2 if isinstance(node.value, float) else node.value}:
                if v != node.value:
                    self.add(node, "const", ast.Constant(v))
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            self.add(node, "const", ast.Constant(not node.value))
        if isinstance(node, ast.Attribute) and node.attr == "T":
            self.add(node, "drop-T", node.value)
        if isinstance(node, ast.Attribute) and node.attr in ("min", "max", "any", "all", "minimum", "maximum"):
            n = copy.deepcopy(node)
            n.attr = {"min": "max", "max": "min", "any": "all", "all": "any", "minimum": "maximum", "maximum": "minimum"}[node.attr]
            self.add(node, "minmax", n)
        if isinstance(node, ast.Call):
            for i in range(len(node.keywords)):
                n = copy.deepcopy(node)
                del n.keywords[i]
                self.add(node, "drop-kw", n)
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("array", "copy", "abs", "sqrt", "sort", "asarray") and len(node.args) >= 1:
                self.add(node, "drop-call", node.args[0])
            if isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
                self.add(node, "drop-copy", node.func.value)
        if isinstance(node, ast.IfExp):
            self.add(node, "ifexp", node.body)
        super().generic_visit(node)

    def visit_If(self, node):
        self.add(node.test, "if-true", ast.Constant(True))
        self.add(node.test, "if-false", ast.Constant(False))
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.add(node, "drop-stmt", None)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "drop-stmt", None)
        self.generic_visit(node)

    def visit_Assert(self, node):
        return

    def visit_FunctionDef(self, node):
        if node.name in ("__repr__", "__str__"):
            return
        self.generic_visit(node)


def make(path, rng, count):
    """count random mutants of a file: (line, kind, before, after, new source)."""
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    f = Finder()
    f.visit(ast.parse(src))
    sites = f.sites
    rng.shuffle(sites)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    out, seen = [], set()
    for node, kind, new in sites:
        if len(out) >= count:
            break
        s, e = off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset
        old = b[s:e].decode()
        rep = "pass" if new is None else "(" + ast.unparse(new) + ")" if kind not in ("const", "drop-call", "drop-T") else ast.unparse(new)
        t = (b[:s] + rep.encode() + b[e:]).decode()
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, path, "exec")
        except SyntaxError:
            continue
        out.append((node.lineno, kind, old, rep, t))
    return out


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MPLBACKEND="Agg", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    for v in ([d] if isinstance(d, list) else d.values()):
        if isinstance(v, list) and v and isinstance(v[0], str):
            return v
    raise SystemExit("baseline?")


def run(job):
    n, file, line, kind, old, rep, text, order = job
    w = f"/tmp/mut/w{n}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(REPO, w, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    with open(f"{w}/src/rigeo/{file}", "w") as f:
        f.write(text)
    res = dict(n=n, file=file, line=line, kind=kind, old=old[:120], new=rep[:120])
    try:
        env = dict(ENV, PYTHONPATH=f"{w}/src")
        ids = []
        for t in stable():
            m, name = t.split("::", 1)
            ids.append(m.replace(".", "/") + ".py::" + name)
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--tb=no", *ids],
                               cwd=w, env=env, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            res["tests"] = "timeout"
            return res
        if p.returncode != 0:
            res["tests"] = "killed" if p.returncode == 1 else f"rc {p.returncode} {p.stdout[-200:]}"
            return res
        res["tests"] = "survived"
        v = f"/tmp/mut/v{n}"
        shutil.rmtree(v, ignore_errors=True)
        shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "__pycache__", "seeded", "replays", "evidence"))
        os.makedirs(v + "/evidence", exist_ok=True)
        os.makedirs(v + "/replays", exist_ok=True)
        res["ran"], res["odd"] = [], []
        for c in order:
            env = dict(ENV, VF_REPO=w, VERIF_SEED="1")
            try:
                p = subprocess.run([v + "/check", c, "--scale", SCALE, "--procs", "1"], cwd=v, env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                res["odd"].append(c + " timeout")
                continue
            res["ran"].append(c)
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                res["caught"] = c
                res["msg"] = p.stdout.strip().splitlines()[0][:200]
                break
            if p.returncode != 0:
                res["odd"].append(f"{c} rc {p.returncode} {p.stdout[-150:]} {p.stderr[-200:]}")
        shutil.rmtree(v, ignore_errors=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


ORDER = {
    "closest.py": "C17 C18", "constraint.py": "C20 C21 C19 C22", "inertial.py": "C01 C02 C03 C04 C05", "moment.py": "C22 C23",
    "polydd.py": "C15 C14 C16", "random.py": "C24 C25", "rigidbody.py": "C29 C05 C21 C19", "spatial.py": "C04 C05 C30", "util.py": "C28 C08 C05",
    "test_util.py": "C28", "shape/base.py": "C06 C07 C27 C09", "shape/box.py": "C27 C24 C26 C09 C07 C10 C20",
    "shape/capsule.py": "C08 C09 C10 C11 C06", "shape/cylinder.py": "C08 C20 C10 C22 C26", "shape/ellipsoid.py": "C31 C08 C24 C12 C11 C26 C13",
    "shape/poly.py": "C14 C16 C27 C12 C13 C20",
    "unused/geodesic.py": "C34", "unused/identify.py": "C33", "unused/multibody.py": "C35"}


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or FILES
    rng = random.Random(seed)
    every = [f"C{i:02d}" for i in range(1, 36)]
    jobs = []
    size = {f: len(open(f"{SRC}/{f}").read()) for f in files}
    for f in files:
        k = max(3, round(n * size[f] / sum(size.values())))
        first = ORDER[f].split()
        for m in make(f"{SRC}/{f}", rng, k):
            jobs.append((f, *m, first + [c for c in every if c not in first]))
    rng.shuffle(jobs)
    jobs = [(i, *j) for i, j in enumerate(jobs)]
    print(len(jobs), "mutants", flush=True)
    with mp.Pool(8, maxtasksperchild=1) as pool, open(out, "a") as fo:
        for r in pool.imap_unordered(run, jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()


if __name__ == "__main__":
    main()
