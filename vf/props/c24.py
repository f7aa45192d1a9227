"""C24: random samples lie where they should, in the requested shape."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st
from rigeo import random as rr

from .. import gen
from ..geo import arr, build, moved, oracle, pose_of, require, scale_of
from ..harness import Inconclusive, Prop, Sub, Violation

_plain = ("none", "int", "gen")


def rng_of(case, k=0):
    kind = case["rng"]
    if kind == "int":
        return case["seed"] + k
    return np.random.default_rng(case["seed"] + k)


def shape_of(s):
    """JSON sample shape: an int or a list."""
    return s if isinstance(s, int) else tuple(s)


def sampled(f, shape, d, case, what, lists=True):
    """Call f(shape, rng); checks the array shape; returns the points as rows."""
    s = shape_of(shape)
    X = f(s, rng_of(case))
    a = np.asarray(X)
    if not isinstance(X, np.ndarray):
        raise Violation(f"{what}: result is a {type(X).__name__}")
    want = [(d,)] if s == 1 else [(s, d)] if isinstance(s, int) else [s + (d,)]
    if s == (1,):
        want.append((d,))
    if a.shape not in want:
        raise Violation(f"{what}: shape={s!r} gives an array of shape {a.shape}, expected {want[0]}")
    a = arr(X, what=what)
    # the same seed, or a generator in the same state, gives the same samples
    b = arr(f(s, rng_of(case)), what=what)
    require(b.shape == a.shape and np.array_equal(a, b), f"{what}: the same {'seed' if case['rng'] == 'int' else 'generator state'} gives different samples")
    # a generator is advanced, other seeds give other samples
    P = a.reshape(-1, d)
    if case["rng"] == "gen":
        g = rng_of(case)
        x, y = np.array(f(s, g)), np.array(f(s, g))
        require(np.array_equal(x, a), f"{what}: a generator in the same state gives different samples")
        if len(P) >= 3 and len(np.unique(P, axis=0)) == len(P):
            require(not np.array_equal(x, y), f"{what}: sampling twice from one generator gives the same samples")
    c = np.asarray(f(s, None))
    require(c.shape == a.shape and np.all(np.isfinite(c)), f"{what}: without a seed the result has shape {c.shape}")
    return np.vstack((P, c.reshape(-1, d)))


def worst_outside(o, P):
    """Largest relative excess of the gauge, and distance from the affine hull."""
    return max(o.gauge(p) for p in P) - 1, max(o.off(p) for p in P)


def inside(case, ctx):
    s = case["s"]
    b, o = build(s), oracle(s)
    if case["moved"]:
        R, t = pose_of(case)
        b, o = b.transform(rotation=R, translation=t), moved(o, R, t)
    ctx.label(s["k"], f"rank {o.rank}", "one point" if case["shape"] == 1 else "flat shape" if isinstance(case["shape"], int) else "tuple shape")
    P = sampled(lambda n, g: b.random_points(n, rng=g), case["shape"], 3, case, f"{s['k']}.random_points")
    judge_inside(b, o, P, s["k"])


def judge_inside(b, o, P, k):
    n = 1e-13 * scale_of(o)
    if o.rank and n > 1e-4 * o.rrel:
        raise Inconclusive("ill conditioned")
    g, off = worst_outside(o, P)
    require(g <= 1e-8 + 10 * n / max(o.rrel, 1e-300) if o.rank else True, f"{k}: a sample lies outside the shape (gauge exceeds one by {g:.3g})")
    require(off <= 100 * n + 1e-12, f"{k}: a sample lies {off:.3g} off the flat shape")
    if o.rank == 0:
        require(np.abs(P - o.c).max() <= 100 * n, f"{k}: samples of a point differ from it")
    inside = np.asarray(b.contains(P, tol=1e-6))
    require(inside.all(), f"{k}: {np.sum(~inside)} of {len(P)} samples are not contained according to the shape itself")


def ell_nd(case, ctx):
    s = case["s"]
    b, o = build(s), oracle(s)
    d = len(s["h"])
    ctx.label(f"{d}D", f"rank {o.rank}")
    P = sampled(lambda n, g: b.random_points(n, rng=g), case["shape"], d, case, f"{d}D ellipsoid random_points")
    judge_inside(b, o, P, f"{d}D ellipsoid")


def surface(case, ctx):
    s = case["s"]
    b, o = build(s), oracle(s)
    d = o.dim
    kind = case["kind"]
    if kind == "edges" and s["k"] != "box":
        kind = "surface"
    ctx.label(s["k"] + " " + kind, f"{d}D")
    f = b.random_points_on_surface if kind == "surface" else b.random_points_on_edges
    if s["k"] == "ell":
        need = 40 * max(s["h"]) / min(s["h"])
        if need > 2000 and not isinstance(case["shape"], int):
            ctx.label("long rejection")
    P = sampled(lambda n, g: f(n, rng=g), case["shape"], d, case, f"{s['k']} {kind} samples")
    n = 1e-13 * scale_of(o)
    if n > 1e-4 * o.rrel:
        raise Inconclusive("ill conditioned")
    tol = 1e-8 + 10 * n / o.rrel
    G = np.array([o.gauge(p) for p in P])
    require(np.abs(G - 1).max() <= tol, f"{s['k']} {kind}: a sample is not on the boundary (gauge {G[np.argmax(np.abs(G - 1))]:.9g})")
    if kind == "edges":
        Y = np.abs((P - o.c) @ o.R) / o.h
        on = (np.abs(Y - 1) <= tol).sum(axis=1)
        require(on.min() >= 2, f"box edges: the sample {P[np.argmin(on)].tolist()} is not on an edge")


def helpers(case, ctx):
    """The samplers of rigeo.random themselves."""
    d, s = case["d"], case["shape"]
    k = case["kind"]
    ctx.label(k, f"d={d}")
    if k == "ball":
        P = sampled(lambda n, g: rr.random_points_in_ball(n, dim=d, rng=g), s, d, case, "random_points_in_ball")
        require(np.linalg.norm(P, axis=1).max() <= 1 + 1e-12, f"a sample of the {d}-ball has norm {np.linalg.norm(P, axis=1).max()}")
    elif k == "sphere":
        P = sampled(lambda n, g: rr.random_points_on_hypersphere(n, dim=d, rng=g), s, d + 1, case, "random_points_on_hypersphere")
        require(np.abs(np.linalg.norm(P, axis=1) - 1).max() <= 1e-12, f"a sample of the {d}-sphere does not have norm one")
    elif k == "weights":
        sh = [s] if isinstance(s, int) else list(s)
        full = tuple(sh) + (d,)
        for full in (tuple(sh) + (d,), d):
            w = rr.random_weight_vectors(full, rng=rng_of(case))
            want = full if isinstance(full, tuple) else (full,)
            w2 = arr(w, want, "weight vectors")
            require(w2.min() >= 0, f"a weight is negative ({w2.min()})")
            require(np.abs(w2.sum(axis=-1) - 1).max() <= 1e-12, "weights do not sum to one along the last axis")
            require(np.array_equal(w2, np.asarray(rr.random_weight_vectors(full, rng=rng_of(case)))), "weight vectors are not reproducible")
    elif k == "psd":
        A = arr(rr.random_psd_matrix(d, rng=rng_of(case)), (d, d), "random_psd_matrix")
        require(np.abs(A - A.T).max() <= 1e-12 * (1 + np.abs(A).max()), "random_psd_matrix is not symmetric")
        require(np.linalg.eigvalsh((A + A.T) / 2).min() >= -1e-12 * (1 + np.abs(A).max()), "random_psd_matrix is not PSD")
        require(np.array_equal(A, np.asarray(rr.random_psd_matrix(d, rng=rng_of(case)))), "random_psd_matrix is not reproducible")
        if case["rng"] == "int" and d > 1:
            B = rr.random_psd_matrix(d, rng=case["seed"] + 1)
            require(not np.array_equal(A, B), "another seed gives the same PSD matrix")


def rejection(case, ctx):
    """Samples are in the bounding shape and in at least one of the shapes; impossible requests raise ValueError."""
    bs = case["bound"]
    bound, ob = build(bs), oracle(bs)
    specs = case["shapes"]
    shapes, os = [build(s) for s in specs], [oracle(s) for s in specs]
    if case["far"]:
        # none of the shapes meets the bounding shape
        t = np.array([1.0, 0.3, -0.2])
        t *= 5 * (ob.size + sum(o.size + np.abs(o.c).max() for o in os) + np.abs(ob.c).max()) / np.linalg.norm(t)
        shapes = [s.transform(translation=t + ob.c) for s in shapes]
        ctx.label("impossible")
        for s, b in ((1, bound), (shape_of(case["shape"]), bound)):
            try:
                X = rr.rejection_sample(shapes, b, s, max_tries=30, rng=rng_of(case))
            except ValueError:
                continue
            raise Violation(f"rejection sampling of shapes away from the bounding shape returns {X!r:.100} instead of raising ValueError")
        return
    # share of the bounding shape covered, by our own sampling
    rng = np.random.default_rng(case["seed"])
    T = np.array([ob.interior(u, 1.0) for u in rng.normal(size=(1, 3))])
    if bs["k"] == "box":
        T = ob.c + (rng.uniform(-1, 1, size=(400, 3)) * ob.h) @ ob.R.T
    else:
        T = bound.random_points(400, rng=rng)
    hit = np.mean([any(o.gauge(p) <= 1 for o in os) for p in T])
    if hit < 0.05:
        ctx.trivial("hardly any overlap")
        return
    ctx.label(f"{len(os)} shapes", "low rate" if hit < 0.3 else "high rate")
    P = sampled(lambda n, g: rr.rejection_sample(shapes, bound, n, rng=g), case["shape"], 3, case, "rejection_sample")
    for p in P:
        require(ob.gauge(p) <= 1 + 1e-6, f"the sample {p.tolist()} is outside the bounding shape")
        require(any(o.gauge(p) <= 1 + 1e-6 for o in os), f"the sample {p.tolist()} is in none of the shapes")
    if len(os) > 1 and len(P) >= 300:
        # every shape with a share of the region gets samples
        for i, o in enumerate(os):
            share = np.mean([o.gauge(p) <= 0.999 for p in T]) / hit
            if share > 0.2:
                require(any(o.gauge(p) <= 1 for p in P), f"no sample out of {len(P)} is in shape {i}, which covers {share:.0%} of the region")
    # a budget of tries that cannot suffice
    try:
        rr.rejection_sample(shapes, bound, 5, max_tries=0, rng=rng_of(case))
    except ValueError:
        return
    raise Violation("rejection_sample(max_tries=0) does not raise ValueError")


_shape = st.one_of(st.just(1), st.integers(2, 40), st.just(300), st.tuples(st.integers(1, 5), st.integers(1, 5)).map(list), st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)).map(list),
                   st.integers(1, 9).map(lambda n: [n]))
_base = dict(shape=_shape, seed=st.integers(0, 2 ** 31 - 10), rng=st.sampled_from(["int", "gen"]))
_any = gen.shape3(("box", "ell", "cyl", "poly"), wide=True, degenerate=True)
_cap = gen.cap(wide=False, limit=20)
_solid = st.one_of(gen.cbox(far=False), gen.ell(3, wide=False, far=False, limit=10), gen.cyl(wide=False, far=False, limit=10), gen.cap(wide=False, far=False, limit=10))
_near = st.one_of(gen.box(wide=False, far=False, limit=6), gen.ell(3, wide=False, far=False, limit=6), gen.cyl(wide=False, far=False, limit=6))

PROP = Prop("C24", [
    Sub("inside", lambda: gen.fd(s=st.one_of(_any, _any, _cap), moved=st.booleans(), T=gen.transform(3), **_base), inside, 4000, 50000, chunk=500,
        rule="every 3D shape kind in every pose, flat ones too (capsules: not flat); all sample shapes and seed forms"),
    Sub("ell_nd", lambda: st.integers(1, 5).flatmap(lambda n: gen.fd(s=gen.ell(n, degenerate=True), **_base)), ell_nd, 1500, 15000, rule="ellipsoids in 1-5 dimensions"),
    Sub("surface", lambda: gen.fd(s=st.one_of(gen.box(limit=1000), gen.box(limit=1000), st.integers(1, 4).flatmap(lambda n: gen.ell(n, limit=20))), kind=st.sampled_from(["surface", "edges"]), **_base), surface, 3000, 30000, chunk=500,
        rule="box surfaces and edges, ellipsoid surfaces in 1-4 dimensions"),
    Sub("helpers", lambda: gen.fd(d=st.integers(1, 6), kind=st.sampled_from(["ball", "sphere", "weights", "psd"]), **_base), helpers, 2000, 20000, rule="balls, spheres, weight vectors, PSD matrices"),
    Sub("rejection", lambda: gen.fd(bound=_near, shapes=st.lists(_solid, min_size=1, max_size=3), far=st.sampled_from([False, False, False, True]), **_base), rejection, 800, 8000, chunk=100,
        rule="unions of 1-3 shapes in a bounding shape; unreachable shapes"),
], assumptions=["a sample shape of (1,) may be returned with or without its axis"])
