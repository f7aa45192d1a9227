"""C29: rigid bodies stay the union of their parts through any history."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import (J_of, arr, booleans, build, build_all, inst, jitter, member_probes, moved, near, oracle, require, rot, scale_of,
                   tvec)
from ..harness import Prop, Sub, Violation

CLS = {"box": rg.Box, "ell": rg.Ellipsoid, "cyl": rg.Cylinder, "cap": rg.Capsule, "poly": rg.ConvexPolyhedron}


class Model:
    """Parts in order, each with a pose; masses as point masses."""

    def __init__(self, parts, m, p):
        self.parts = parts
        self.m = np.array(m, float)
        self.p = np.array(p, float).reshape(len(m), 3)

    def add(self, other):
        return Model(self.parts + other.parts, np.concatenate((self.m, other.m)), np.vstack((self.p, other.p)))

    def move(self, R, t):
        return Model([(k, moved(o, R, t)) for k, o in self.parts], self.m, self.p @ R.T + t)

    @property
    def J(self):
        return J_of(self.m, self.p) if len(self.m) else np.zeros((4, 4))


def same_vertices(V, W, tol):
    D = np.abs(V[:, None] - W[None]).max(axis=2)
    return len(V) and (D.min(axis=1) <= tol).all() and (D.min(axis=0) <= tol).all()


def check(body, model, seed, what, deep=True):
    shapes = body.shapes
    require(hasattr(shapes, "__len__") and len(shapes) == len(model.parts),
            f"{what}: {shapes!r:.300} instead of {len(model.parts)} shapes")
    for i, (s, (k, o)) in enumerate(zip(shapes, model.parts)):
        w = f"{what}: shape {i} ({k})"
        require(type(s) is CLS[k], f"{w} is a {type(s).__name__}")
        tol = 1e-9 * scale_of(o)
        if k == "poly":
            require(same_vertices(arr(s.vertices), o.V, 1e3 * tol), f"{w} has vertices {arr(s.vertices).tolist()}, expected {o.V.tolist()}")
        elif k in ("cyl", "cap"):
            near(s.center, o.c, 0, tol, f"{w} centre")
        else:
            near(s.center, o.c, 0, tol, f"{w} centre")
        if deep:
            P, want = member_probes(o, seed + i, 3)
            got = booleans(s.contains(P, tol=1e-6 * min(1.0, scale_of(o))) if k == "poly" else s.contains(P), len(P), w)
            bad = np.nonzero(got != want)[0]
            if len(bad):
                raise Violation(f"{w}: contains({P[bad[0]].tolist()}) is {bool(got[bad[0]])} (oracle: {bool(want[bad[0]])})")
    J = model.J
    sc = float(np.abs(model.m).sum()) * (1 + float(np.abs(model.p).max(initial=0)) ** 2)
    near(body.params.mass, J[3, 3], 1e-12, 1e-300, f"{what}: mass")
    near(body.params.J, J, 0, 1e-9 * sc, f"{what}: pseudo-inertia matrix")
    if J[3, 3] > 0:
        near(body.params.com, J[:3, 3] / J[3, 3], 1e-9, 1e-9 * (1 + np.abs(model.p).max()), f"{what}: centre of mass")


def history(case, ctx):
    pool, given = [], []  # (body, model), (list of the caller, its members)
    ops = case["ops"]
    for n, op in enumerate(ops):
        k = op["op"]
        if k != "new" and not pool:
            continue
        ctx.label(k)
        what = f"step {n} ({k})"
        if k == "new":
            specs = op["shapes"]
            parts = [(s["k"], oracle(s)) for s in specs]
            objs = build_all(specs)
            mm = op["masses"]
            if mm is not None and op.get("mu"):
                ctx.label("other units of mass")
                mm = gen.in_units(mm, op["mu"])
            kw = {}
            if mm is not None:
                kw["params"] = rg.InertialParameters.from_point_masses(masses=np.array(mm["m"]), points=np.array(mm["p"]))
                if op["zero"]:
                    kw["params"] = rg.InertialParameters.zero() + kw["params"]
                model = Model(parts, mm["m"], mm["p"])
            else:
                ctx.label("massless")
                if op["zero"]:
                    kw["params"] = None
                model = Model(parts, [], [])
            if len(objs) == 1 and op["single"]:
                ctx.label("one shape, no list")
                body = rg.RigidBody(objs[0], **kw)
            else:
                how = op.get("how", "list")
                if how != "list":
                    ctx.label(f"shapes in a {how}")
                body = rg.RigidBody({"list": objs, "tuple": tuple(objs), "iterator": iter(objs)}[how], **kw)
                given.append((objs, list(objs)))
                if how == "list" and op.get("later"):
                    # the list belongs to the caller
                    ctx.label("caller changes its list")
                    given.pop()
                    objs[:] = {"clear": [], "more": objs + objs[:1], "reverse": objs[::-1]}[op["later"]]
        elif k == "add":
            i, j = op["i"] % len(pool), op["j"] % len(pool)
            if i == j:
                ctx.label("added to itself")
            body, model = pool[i][0] + pool[j][0], pool[i][1].add(pool[j][1])
        elif k == "sum":
            ii = [i % len(pool) for i in op["ii"]]
            body, model = sum([pool[i][0] for i in ii]), pool[ii[0]][1]
            for i in ii[1:]:
                model = model.add(pool[i][1])
            if len(ii) == 1:
                ctx.label("sum of one")
        else:
            i = op["i"] % len(pool)
            R, t = op["R"], op["t"]
            kw = {}
            if R is not None or op["given"]:
                kw["rotation"] = None if R is None else rot(R)
            if t is not None or op["given"]:
                kw["translation"] = None if t is None else np.array(t, float)
            body = pool[i][0].transform(**kw)
            model = pool[i][1].move(rot(R), tvec(t))
        inst(body, rg.RigidBody, what)
        if len(model.parts) > 24:
            continue
        check(body, model, case["seed"], what)
        pool.append((body, model))
    if len(pool) < 2:
        ctx.trivial("fewer than two bodies")
    for n, (body, model) in enumerate(pool):
        check(body, model, case["seed"] + 3, f"body {n} at the end of the history", deep=True)
    for a, b in given:
        require(len(a) == len(b) and all(x is y for x, y in zip(a, b)), f"the caller's list of shapes has become {a!r:.300}")


ang = st.one_of(st.sampled_from([0, 90, 180, -90]), st.integers(-11, 12).map(lambda k: 15 * k))
pairs = st.sampled_from([[0, 1], [1, 2], [0, 2]])
rotation = st.one_of(st.none(), st.lists(st.tuples(pairs, ang).map(lambda x: x[0] + [x[1]]), min_size=1, max_size=2))
idx = st.integers(0, 7)


def op_list():
    shape = gen.shape3(far=False, limit=100)
    new = gen.fd(op=st.just("new"), shapes=gen.shapes(shape, 3), single=st.booleans(), zero=st.booleans(),
                 how=st.sampled_from(["list", "list", "list", "tuple", "iterator"]), later=st.sampled_from([None, None, None, "clear", "more", "reverse"]),
                 mu=st.sampled_from([None, None, None, [1, 1e3], [1, 1e-6], [100, 1], [30, 1e6]]),
                 masses=st.one_of(st.none(), gen.point_masses(1, 4, m=gen.masses0, far=False),
                                  gen.point_masses(1, 4, far=False)))
    add = gen.fd(op=st.just("add"), i=idx, j=idx)
    total = gen.fd(op=st.just("sum"), ii=st.lists(idx, min_size=1, max_size=4))
    move = gen.fd(op=st.just("move"), i=idx, R=rotation, t=gen.center(3, False), given=st.booleans())
    later = st.lists(st.one_of(new, add, total, move, move), min_size=1, max_size=9)
    return gen.fd(ops=st.tuples(new, later).map(lambda x: [x[0]] + x[1]), seed=gen.seeds)


# ---- each shape replaced by its bounding ellipsoid -----------------------------

def bounding(case, ctx):
    specs = case["shapes"]
    os = [oracle(s) for s in specs]
    mm = case["masses"]
    params = rg.InertialParameters.from_point_masses(masses=np.array(mm["m"]), points=np.array(mm["p"]))
    body = rg.RigidBody(build_all(specs), params=params)
    model = Model([(s["k"], o) for s, o in zip(specs, os)], mm["m"], mm["p"])
    ctx.label("sphere" if case["sphere"] else "ellipsoid", *["kind=" + s["k"] for s in specs])
    kw = {"sphere": True} if case["sphere"] else {}
    out = inst(body.mbes(solver="CLARABEL", **kw), rg.RigidBody, "mbes")
    require(len(out.shapes) == len(specs), f"mbes of {len(specs)} shapes has {len(out.shapes)}")
    near(out.params.J, model.J, 1e-9, 1e-12, "pseudo-inertia matrix of mbes")
    for i, (e, o) in enumerate(zip(out.shapes, os)):
        inst(e, rg.Ellipsoid, f"shape {i} of mbes")
        h, c, R = arr(e.half_extents), arr(e.center), arr(e.rotation)
        if case["sphere"]:
            require(h.max() - h.min() <= 1e-6 * h.max(), f"shape {i} of mbes(sphere=True) has half extents {h.tolist()}")
        P, want = member_probes(o, case["seed"], 4)
        X = P[want]
        g = np.linalg.norm((X - c) @ R / h, axis=1)
        if g.max() > 1 + 5e-4:
            raise Violation(f"shape {i} of mbes does not contain {X[int(g.argmax())].tolist()} (gauge {g.max()}) of {specs[i]}")
        # the smallest bounding ellipsoid shrunk by the dimension lies in the shape
        require(h.max() <= 5.3 * o.size + 1e-6, f"shape {i} of mbes has half extents {h.tolist()} for {specs[i]}")
    check(body, model, case["seed"], "the body after mbes")


def bounding_case():
    shape = gen.shape3(kinds=("box", "ell", "poly"), far=False, limit=10)
    return gen.fd(shapes=gen.shapes(shape, 3), masses=gen.point_masses(1, 4, far=False),
                  sphere=st.booleans(), seed=gen.seeds)


PROP = Prop("C29", [
    Sub("history", op_list, history, 1600, 40000, rule="at least two bodies in the history",
        confirm=None),
    Sub("bounding", bounding_case, bounding, 240, 4000, rule="every case"),
])
