"""C09: the same-shape test is an equivalence on point sets."""
import itertools

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import (BoxO, CapO, CylO, EllO, PolyO, boolean, body_directions, build, extreme_points, hull_dist_inf, jitter, moved, oracle,
                   require, rot, scale_of, tvec)
from ..harness import Prop, Sub, Violation


def eq(a, b, want, what, **kw):
    g, h = boolean(a.is_same(b, **kw), "is_same"), boolean(b.is_same(a, **kw), "is_same")
    require(g == want, f"{what}: is_same is {g}, expected {want}: {a!r:.300} / {b!r:.300}")
    require(h == want, f"{what}: is_same (swapped) is {h}, expected {want}: {b!r:.300} / {a!r:.300}")


def twin(spec, seed):
    """The same point set, parameterized differently: [(description, object)]."""
    rng = np.random.default_rng(seed)
    o = oracle(spec)
    k = spec["k"]
    out = []
    if k in ("box", "ell"):
        n = o.dim
        cls = rg.Box if k == "box" else rg.Ellipsoid
        for _ in range(3):
            p = rng.permutation(n)
            sg = rng.choice([-1.0, 1.0], size=n)
            out.append((f"axes {p.tolist()} signs {sg.tolist()}", cls(half_extents=o.h[p], rotation=(o.R * sg)[:, p], center=o.c.tolist())))
        if k == "ell":
            R = o.R.copy()
            for i, j in itertools.combinations(range(n), 2):
                if o.h[i] == o.h[j]:
                    R = R @ rot([[i, j, float(rng.uniform(-180, 180))]], n)
            out.append(("turned in equal axes", rg.Ellipsoid(half_extents=o.h, rotation=R, center=o.c)))
            if n == 3 and len(set(o.h.tolist())) == 1:
                out.append(("sphere", rg.Ellipsoid.sphere(radius=float(o.h[0]), center=o.c)))
        else:
            s = build(spec)
            V = s.vertices
            if spec.get("clear"):
                out.append(("as_poly", s.as_poly()))
                out.append(("shuffled vertices", rg.ConvexPolyhedron.from_vertices(V[rng.permutation(len(V))])))
            if spec.get("clear") and o.rank == 3:
                out.append(("halfspaces", rg.ConvexPolyhedron.from_halfspaces(s.A[::-1], s.b[::-1])))
    elif k in ("cyl", "cap"):
        flip = rot([[0, 2, 180]]) if rng.random() < 0.5 else np.eye(3)
        R = o.R @ rot([[0, 1, float(rng.uniform(-180, 180))]]) @ flip @ rot([[0, 1, float(rng.choice([0, 90, 180, 33]))]])
        if (k == "cyl" and o.r == 0 and o.L == 0) or (k == "cap" and o.L == 0):
            R = rot([[0, 1, 40], [1, 2, float(rng.uniform(-180, 180))], [0, 2, 70]])
        c = rg.Cylinder(length=o.L, radius=o.r, rotation=R, center=o.c)
        out.append(("turned about the axis", c if k == "cyl" else c.capsule()))
    else:
        V = o.V[rng.permutation(len(o.V))]
        out.append(("vertex order", rg.ConvexPolyhedron.from_vertices(V)))
        extra = [V.mean(axis=0), (V[0] + V[1]) / 2, (V[0] + V[1] + V[2]) / 3, V[-1]]
        W = np.vstack((V, extra[:int(rng.integers(1, 5))]))
        W = W[rng.permutation(len(W))]
        out.append(("redundant vertices", rg.ConvexPolyhedron.from_vertices(W)))
        out.append(("redundant vertices pruned", rg.ConvexPolyhedron.from_vertices(W, prune=True)))
    return o, out


def same(case, ctx):
    spec = case["s"]
    o, twins = twin(spec, case["seed"])
    ctx.label("kind=" + spec["k"], f"dim={o.dim}", "degenerate" if o.rank < o.dim else "full")
    a = build(spec)
    require(boolean(a.is_same(a)), f"{a!r} is not the same as itself")
    eq(a, build(spec), True, "equal construction")
    for what, b in twins:
        eq(a, b, True, what)
    # moving there and back, and transitivity through twins
    if spec["k"] != "poly":
        R, t = rot(case["R"], o.dim) if o.dim > 1 else np.eye(1), tvec(None if case["t"] is None else case["t"][:o.dim], o.dim)
        b = a.transform(rotation=R, translation=t).transform(rotation=R.T, translation=-R.T @ t)
        eq(a, b, True, "transform and inverse")
        eq(a.transform(rotation=R, translation=t), twins[0][1].transform(rotation=R, translation=t), True, "both moved")


def sets_differ(o, p, seed):
    D = np.vstack((body_directions(o, seed, 12), body_directions(p, seed + 1, 6)))
    sc = max(scale_of(o), scale_of(p))
    d = max(abs(o.sup(v) - p.sup(v)) for v in D) / sc
    if d < 1e-3 and hasattr(o, "V") and hasattr(p, "V"):
        # a corner of a nearly flat cone is seen from few directions only
        e = max([hull_dist_inf(x, p.V) / sc for x in o.V] + [hull_dist_inf(x, o.V) / sc for x in p.V])
        d = e if e > 1e-7 else d
    return d


def variant(spec, how, f, i):
    """A changed spec."""
    s = {k: (list(v) if isinstance(v, list) else v) for k, v in spec.items()}
    n = len(s["h"]) if s["k"] == "ell" else 3
    c = list(s["c"] or [0.0] * n)
    size = max(s["h"]) if "h" in s else max(s["L"], s["r"]) if "L" in s else max(s["s"])
    size = max(size, 0.05)
    if how == "shift":
        c[i % n] += f * size
        s["c"] = c
    elif how == "size":
        key = "h" if "h" in s else "s" if "s" in s else None
        if key:
            m = len(s[key])
            s[key][i % m] = s[key][i % m] * (1 + f) + (0.1 * abs(f) if s[key][i % m] == 0 else 0)
        elif i % 2:
            s["L"] = s["L"] * (1 + f) + (0.1 * abs(f) if s["L"] == 0 else 0)
        else:
            s["r"] = s["r"] * (1 + f) + (0.1 * abs(f) if s["r"] == 0 else 0)
    elif how == "swap":
        key = "h" if "h" in s else "s" if "s" in s else None
        if key:
            m = len(s[key])
            s[key][i % m], s[key][(i + 1) % m] = s[key][(i + 1) % m], s[key][i % m]
        else:
            s["L"], s["r"] = 2 * s["r"], s["L"] / 2
    elif how == "turn" and n > 1:
        s["R"] = list(s["R"] or []) + [[i % n, (i + 1) % n, 40 * f]]
        if s["R"][-1][0] > s["R"][-1][1]:
            a, b, g = s["R"][-1]
            s["R"][-1] = [b, a, g]
    elif how == "zero":
        if "h" in s:
            s["h"][i % n] = 0.0
        elif "L" in s:
            s["L" if i % 2 else "r"] = 0.0
    return s


def different(case, ctx):
    a = case["s"]
    b = variant(a, case["how"], case["f"], case["i"])
    o, p = oracle(a), oracle(b)
    d = sets_differ(o, p, case["seed"])
    ctx.label("kind=" + a["k"], case["how"], "differ" if d >= 1e-3 else "same" if d < 1e-13 else "between")
    if 1e-13 <= d < 1e-3:
        ctx.trivial("not clearly different")
        return
    A, B = build(a), build(b)
    eq(A, B, d < 1e-13, f"{case['how']} (support difference {d:.3g})")
    if a.get("clear") and case["how"] != "turn":
        eq(A.as_poly(), B, d < 1e-13, "polyhedron and box")
        eq(A.as_poly(), B.as_poly(), d < 1e-13, "polyhedra")
    for what, T in twin(a, case["seed"])[1][:2]:
        eq(T, B, d < 1e-13, f"{what}, {case['how']}")


def nested(case, ctx):
    """One polyhedron strictly inside the other: not the same, whichever asks."""
    a = case["s"]
    b = dict(a)
    b["h"] = [x * case["f"] for x in a["h"]]
    A, B = build(a), build(b)
    ctx.label("f=%g" % case["f"])
    eq(A, B, False, "nested boxes")
    eq(A.as_poly(), B, False, "nested polyhedron and box")
    C = rg.ConvexPolyhedron.from_vertices(B.vertices[1:])
    eq(C, B, False, "cube without a corner")
    eq(C, B.as_poly(), False, "cube without a corner")


def tolerance(case, ctx):
    spec, tol = case["s"], case["tol"]
    o = oracle(spec)
    ctx.label("kind=" + spec["k"], f"tol={tol}")
    a = build(spec)
    n = o.dim
    u = np.random.default_rng(case["seed"]).normal(size=n)
    u /= np.linalg.norm(u)
    near_ = a.transform(translation=0.3 * tol * u)
    eq(a, near_, True, f"shift by 0.3 tol (tol={tol})", tol=tol)
    far = a.transform(translation=(5 * np.sqrt(n) * tol + 1e-3 * scale_of(o)) * u)
    eq(a, far, False, f"shift by far more than tol={tol}", tol=tol)


def close(case, ctx):
    """The tolerance is a length: the same at every size and distance from the origin."""
    k, far, tol = 10.0 ** case["unit"], 10.0 ** case["far"], case["tol"]
    spec = dict(case["s"])
    n = len(spec["h"]) if "h" in spec else 3
    spec["c"] = [x * k * far for x in (spec["c"] or [1.0, -2.0, 0.5, 1.5, -1.0])[:n]]
    for key in ("h", "L", "r"):
        if key in spec:
            spec[key] = [x * k for x in spec[key]] if key == "h" else spec[key] * k
    o = oracle(spec)
    t = 1e-8 if tol is None else tol
    if t < 1e-12 * (scale_of(o) + np.abs(o.c).max()):
        ctx.trivial("below rounding")
        return
    kw = {} if tol is None else {"tol": tol}
    ctx.label("kind=" + spec["k"], f"unit={case['unit']}", f"far={case['far']}", f"tol={tol}")
    a = build(spec)
    u = np.random.default_rng(case["seed"]).normal(size=n)
    u /= np.linalg.norm(u)

    def changed(d):
        b = dict(spec)
        if case["how"] == "shift":
            b["c"] = [x + d * y for x, y in zip(spec["c"], u)]
        elif "h" in spec:
            i = case["i"] % n
            b["h"] = [x + (d if j == i else 0) for j, x in enumerate(spec["h"])]
        else:
            key = "L" if case["i"] % 2 else "r"
            b[key] = spec[key] + d
        return build(b)
    for f, want in ((0, True), (0.3, True), (20.0 * n, False), (2000.0, False)):
        eq(a, changed(f * t), want, f"{case['how']} by {f:g} tol (tol={tol})", **kw)


def kinds(case, ctx):
    """Different kinds or dimensions: False, never an error."""
    objs = []
    for s in case["ss"]:
        k = {"box": "poly"}.get(s["k"], s["k"])
        objs.append((k, len(s["h"]) if s["k"] == "ell" else 3, build(s)))
    W = np.array([[0.0, 0], [1, 0], [0, 1]])
    objs.append(("poly", 2, rg.ConvexPolyhedron.from_vertices(W)))
    objs.append(("poly", 1, rg.ConvexPolyhedron.from_vertices(np.array([[0.0], [1.0]]))))
    n = 0
    for (k, d, a), (l, e, b) in itertools.combinations(objs, 2):
        if k != l or d != e:
            n += 1
            ctx.label(f"{k}{d}-{l}{e}")
            eq(a, b, False, "different kinds")
    for k, d, a in objs:
        for x in (None, 3, "x", np.eye(3)):
            require(boolean(a.is_same(x)) is False, f"{a!r:.100} is the same as {x!r}")


def fixdims(case):
    """Keep the rotation inside the shape's dimension."""
    n = len(case["s"]["h"]) if case["s"]["k"] == "ell" else 3
    if case["R"] is not None and n < 3:
        case = dict(case, R=[[0, 1, g[2]] for g in case["R"]] if n == 2 else None)
    return case


def shapes(deg=True):
    return st.one_of(gen.cbox(deg), gen.shape3(("ell", "cyl", "cap"), wide=True, degenerate=deg), gen.poly(), gen.box(degenerate=deg),
                     st.integers(1, 5).flatmap(lambda n: gen.ell(n, wide=False, degenerate=deg)))


PROP = Prop("C09", [
    Sub("same", lambda: gen.fd(s=shapes(), seed=gen.seeds, R=gen.rotation(3), t=gen.center(5)).map(fixdims), same, 5000, 60000,
        confirm=jitter, rule="a shape and independently re-parameterized versions of the same point set"),
    Sub("different", lambda: gen.fd(s=shapes(), how=st.sampled_from(["shift", "size", "swap", "turn", "zero"]),
                                    f=st.sampled_from([0.02, 0.1, 0.5, 1.0, 3.0, -0.1]), i=st.integers(0, 5), seed=gen.seeds),
        different, 5000, 60000, confirm=jitter,
        rule="a shape and a shifted/resized/turned/flattened variant; the verdict must follow the support functions; trivial when neither equal nor clearly different"),
    Sub("nested", lambda: gen.fd(s=gen.cbox(), f=st.sampled_from([0.5, 0.9, 1.2, 2.0])), nested, 1000, 10000, confirm=jitter,
        rule="concentric scaled boxes and a box without one corner"),
    Sub("tolerance", lambda: gen.fd(s=st.one_of(gen.shape3(("box", "ell", "cyl", "cap"), degenerate=True)),
                                    tol=st.sampled_from([1e-5, 1e-4, 1e-3, 0.01]), seed=gen.seeds), tolerance, 2000, 20000,
        rule="shapes shifted by less and by far more than an explicit tolerance"),
    Sub("close", lambda: gen.fd(s=st.one_of(gen.shape3(("box", "ell", "cyl", "cap"), degenerate=True), st.integers(1, 5).flatmap(lambda n: gen.ell(n, wide=False, degenerate=True))),
                                unit=st.sampled_from([0, 0, -3, -1, 1, 3, 6]), far=st.sampled_from([0, 0, 0, 2, 4]), how=st.sampled_from(["shift", "size"]), i=st.integers(0, 5),
                                tol=st.sampled_from([None, None, 1e-6, 1e-4, 0.01]), seed=gen.seeds), close, 3000, 30000,
        rule="shapes of any size, near and far from the origin, moved or resized by less and by somewhat more than the tolerance"),
    Sub("kinds", lambda: gen.fd(ss=st.lists(shapes(), min_size=2, max_size=4)), kinds, 1000, 8000,
        rule="pairs of shapes of different kind or dimension"),
])
