"""C27: grids are regular, complete and inside the shape."""
import itertools

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import arr, build, jitter, moved, near, oracle, pose_of, require, scale_of
from ..harness import Inconclusive, Prop, Sub, Violation


def posed(case):
    b, o = build(case["s"]), oracle(case["s"])
    if case["moved"]:
        R, t = pose_of(case)
        b, o = b.transform(rotation=R, translation=t), moved(o, R, t)
    return b, o


def box(case, ctx):
    b, o = posed(case)
    n = case["n"]
    ns = [n] * 3 if isinstance(n, int) else n
    arg = n if isinstance(n, int) else {"list": list, "tuple": tuple, "array": np.array}[case["form"]](n)
    ctx.label(f"rank {o.rank}", "one number" if isinstance(n, int) else "per axis", "has a single layer" if 1 in ns else "")
    X = arr(b.grid(arg), (int(np.prod(ns)), 3), f"grid({n})")
    noise = 1e-13 * scale_of(o)
    Y = (X - o.c) @ o.R
    seen = set()
    idx = np.zeros(Y.shape, int)
    for a in range(3):
        h, k = o.h[a], ns[a]
        if h == 0 or k == 1:
            require(np.abs(Y[:, a]).max() <= h + 10 * noise, f"grid({n}): a point leaves the box of half extents {o.h.tolist()} along axis {a}")
            if k == 1:
                require(np.ptp(Y[:, a]) <= 10 * noise, f"grid({n}): one layer along axis {a} has several coordinates")
            continue
        f = (Y[:, a] + h) / (2 * h) * (k - 1)
        idx[:, a] = np.rint(f)
        err = np.abs(f - idx[:, a]).max() * 2 * h / (k - 1)
        require(err <= 10 * noise + 1e-12 * h, f"grid({n}) of half extents {o.h.tolist()}: coordinates along axis {a} are not evenly spaced from face to face (off by {err:.3g})")
        require(idx[:, a].min() == 0 and idx[:, a].max() == k - 1, f"grid({n}): layers along axis {a} range over {idx[:, a].min()}..{idx[:, a].max()}")
    # every combination the same number of times (once, for a box without flat axes)
    mult = int(np.prod([ns[a] for a in range(3) if o.h[a] == 0 and ns[a] > 1]))
    u, cnt = np.unique(idx, axis=0, return_counts=True)
    want = int(np.prod(ns)) // mult
    require(len(u) == want and np.all(cnt == mult), f"grid({n}): {len(u)} different points, expected {want} each {mult} times")


def other(case, ctx):
    b, o = posed(case)
    n = case["n"]
    k = case["s"]["k"]
    X = np.asarray(b.grid(n), float)
    if X.ndim != 2 or X.shape[1] != 3:
        raise Violation(f"{k}.grid({n}) has shape {X.shape}")
    arr(X, what="grid")
    hi = np.array([o.sup(e) for e in np.eye(3)])
    lo = -np.array([o.sup(-e) for e in np.eye(3)])
    noise = 1e-13 * scale_of(o)
    if o.rank and noise > 1e-9 * max(o.rrel, 1e-300):
        raise Inconclusive("ill conditioned")
    if n == 1:
        L = np.asarray(b.aabb().grid(1), float)
    else:
        axes = [np.linspace(lo[a], hi[a], n) for a in range(3)]
        L = np.array(list(itertools.product(*axes)))
    tol = 1e-6
    G = np.array([o.gauge(p) for p in L])
    # points on the boundary up to rounding belong to the shape
    edge = 20 * noise / o.rrel if o.rank and o.rrel > 0 else np.inf
    must, may = G <= (1 + edge if edge < 1e-10 else 1 - tol), G <= 1 + tol
    if (must & (G > 1 - 1e-9)).any():
        ctx.label("boundary points")
    if o.rank < 3:
        off = np.array([o.off(p) for p in L])
        must &= off <= 10 * noise
        may &= off <= 1e-6 * max(o.size, 1)
    ctx.label(k, f"n={n if n < 4 else '4+'}", f"rank {o.rank}", "empty" if not must.any() else "some left out" if not must.all() else "all")
    # match by lattice index
    step = np.where(hi - lo > 100 * noise, (hi - lo) / max(n - 1, 1), 0)
    key = lambda P: np.rint(np.where(step > 0, (P - (lo if n > 1 else L[0])) / np.where(step > 0, step, 1), 0)).astype(int)
    if len(X):
        near(key(X) * step + (lo if n > 1 else L[0]), X, 0, 20 * noise + 1e-10 * o.size, what=f"{k}.grid({n}): points of the lattice of the bounding box")
    flat = step == 0
    copies = n ** int(flat.sum()) if n > 1 else 1
    have = {}
    for t in map(tuple, key(X) if len(X) else []):
        have[t] = have.get(t, 0) + 1
    KL = list(map(tuple, key(L)))
    musts = {t for t, f in zip(KL, must) if f}
    mays = {t for t, f in zip(KL, may) if f}
    for t in musts:
        if t not in have:
            p = L[KL.index(t)]
            raise Violation(f"{k}.grid({n}) misses the lattice point {p.tolist()}, which is inside (gauge {o.gauge(p):.6g})")
    for t, c in have.items():
        if t not in mays:
            p = X[[tuple(r) for r in key(X)].index(t)]
            raise Violation(f"{k}.grid({n}) contains {p.tolist()}, which is not a lattice point of the bounding box inside the shape (gauge {o.gauge(p):.6g})")
        require(c <= copies, f"{k}.grid({n}) contains a lattice point {c} times")
    # agrees with the library's own parts
    B = np.asarray(b.aabb().grid(n), float)
    near(np.sort(np.asarray(key(B)).view(), axis=0), np.sort(np.asarray(key(L)), axis=0), 0, 0, what="lattice of the bounding box")


def fine(case, ctx):
    """Many layers: a sample of the lattice against the grid."""
    b, o = posed(case)
    n = case["n"]
    k = case["s"]["k"]
    X = arr(b.grid(n), what="grid")
    if X.ndim != 2 or X.shape[1] != 3:
        raise Violation(f"{k}.grid({n}) has shape {X.shape}")
    ctx.label(k, f"n={n // 10 * 10}+")
    hi = np.array([o.sup(e) for e in np.eye(3)])
    lo = -np.array([o.sup(-e) for e in np.eye(3)])
    noise = 1e-13 * scale_of(o)
    if noise > 1e-9 * max(o.rrel, 1e-300):
        raise Inconclusive("ill conditioned")
    step = (hi - lo) / (n - 1)
    Z = np.rint((X - lo) / step).astype(int)
    near(Z * step + lo, X, 0, 20 * noise + 1e-10 * o.size, what=f"{k}.grid({n}): points of the lattice of the bounding box")
    require(Z.min(initial=0) >= 0 and Z.max(initial=0) < n, f"{k}.grid({n}): layers range over {Z.min()}..{Z.max()}")
    code = (Z[:, 0] * n + Z[:, 1]) * n + Z[:, 2]
    require(len(np.unique(code)) == len(code), f"{k}.grid({n}) contains lattice points twice")
    have = set(code.tolist())
    rng = np.random.default_rng(case["seed"])
    Q = rng.integers(0, n, size=(150, 3))
    # more of them in the outer layers and near the boundary
    u = rng.normal(size=(100, 3))
    E = np.array([o.supp(v / np.linalg.norm(v)) for v in u])
    c = np.array(o.c)
    F = c + (E - c) * rng.uniform(0.9, 1.02, size=(100, 1))
    Q = np.vstack((Q, np.clip(np.rint((F - lo) / step), 0, n - 1).astype(int)))
    G = np.array([o.gauge(p) for p in lo + Q * step])
    ctx.label("some inside" if (G <= 1 - 1e-6).any() else "none of the sample inside")
    for z, g in zip(Q, G):
        inside = int((z[0] * n + z[1]) * n + z[2]) in have
        require(inside or g > 1 - 1e-6, f"{k}.grid({n}) misses the lattice point {(lo + z * step).tolist()}, which is inside (gauge {g:.6g})")
        require(not inside or g <= 1 + 1e-6, f"{k}.grid({n}) contains {(lo + z * step).tolist()}, which is outside (gauge {g:.6g})")
    if len(X):
        for p in X[rng.integers(0, len(X), size=60)]:
            require(o.gauge(p) <= 1 + 1e-6, f"{k}.grid({n}) contains {p.tolist()}, which is outside (gauge {o.gauge(p):.6g})")


_n = st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 40))
_T = dict(moved=st.booleans(), T=gen.transform(3))
_N = dict(moved=st.booleans(), T=gen.transform(3, far=False))
_shape = st.one_of(gen.ell(3, wide=False, limit=20), gen.cyl(wide=False, limit=20), gen.cap(wide=False, limit=20), gen.poly(limit=20))
_flat = st.one_of(gen.ell(3, wide=False, limit=20, degenerate=True), gen.cyl(wide=False, limit=20, degenerate=True)).map(lambda s: dict(s, R=None))

PROP = Prop("C27", [
    Sub("box", lambda: gen.fd(s=gen.box(degenerate=True), n=st.one_of(_n, st.lists(_n, min_size=3, max_size=3)).map(lambda n: n if np.prod([n] * 3 if isinstance(n, int) else n) <= 12000 else 12 if isinstance(n, int) else [min(n[0], 7), n[1], min(n[2], 11)] if n[1] > 14 else [min(n[0], 9), n[1], n[2]]), form=st.sampled_from(["list", "tuple", "array"]), **_T), box, 2500, 30000, chunk=500,
        rule="boxes in any pose, flat ones too; one number or one per axis, different numbers per axis"),
    Sub("other", lambda: gen.fd(s=_shape, n=st.sampled_from([5, 3, 4, 6, 7, 8, 1, 2]), **_N), other, 1200, 15000, chunk=100, confirm=jitter, rule="ellipsoids, cylinders, capsules and polyhedra in any pose, lattice recomputed from support functions"),
    Sub("fine", lambda: gen.fd(s=_shape, n=st.one_of(st.integers(9, 40), st.integers(41, 72)), seed=gen.seeds, **_N), fine, 60, 1200, chunk=10, confirm=jitter, rule="many layers (9 to 72 per axis): lattice, no point twice, membership of a sample of the lattice"),
    Sub("flat", lambda: gen.fd(s=_flat, n=st.sampled_from([5, 3, 4, 6, 7, 8, 1, 2]), moved=st.just(False), T=st.none()), other, 300, 3000, chunk=100, rule="flat ellipsoids and cylinders along the axes"),
], assumptions=["lattice points on the boundary up to rounding must be there; others within 1e-6 of it may be in or out", "with one point per axis only the count is judged"])
