"""C12: optimized ellipsoids of point sets and polyhedra are valid and optimal."""
import math

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen, opt
from ..geo import arr, build, extreme_points, hull_facets, inst, jitter, near, poly_vertices, require, rot, tvec
from ..harness import Inconclusive, Prop, Sub, Violation

SOL = "CLARABEL"
TOL = 5e-4      # relative, on lengths (measured solver accuracy is below 1e-4)


def read_ell(E, dim, what):
    inst(E, rg.Ellipsoid, what)
    h, R, c = arr(E.half_extents, (dim,), what), arr(E.rotation, (dim, dim), what), arr(E.center, (dim,), what)
    near(R.T @ R, np.eye(dim), atol=1e-6, what=what + " rotation is not orthogonal")
    require(np.all(h >= 0), what + " has negative extents")
    return h, R, c


def same_subspace(h, R, c, P, what):
    """Split the ellipsoid into its affine hull; the hull must be that of P.

    Returns (o, F, rank, B, cc): frame of P and the ellipsoid y -> B y + cc in it."""
    o, F, rank = opt.affine_frame(P)
    size = max(np.linalg.norm(P - o, axis=1).max(), 1e-300)
    got = int(np.sum(h > 1e-9 * max(size, 1e-9)))
    if got != rank:
        raise Violation(f"{what} has {got} non-zero half extents {h.tolist()}, the set has rank {rank}")
    off = (c - o) - F @ (F.T @ (c - o))
    require(np.linalg.norm(off) <= 1e-5 * (size + np.abs(P).max()), f"{what} centre {c.tolist()} is off the affine hull by {np.linalg.norm(off):.3g}")
    Z = R[:, h > 1e-9 * max(size, 1e-9)]
    require(np.linalg.norm(Z - F @ (F.T @ Z)) <= 1e-5, what + " axes leave the affine hull")
    Y = F.T @ Z
    return o, F, rank, (Y * h[h > 1e-9 * max(size, 1e-9)]) @ Y.T, F.T @ (c - o)


def check_mbe(E, P, sphere, what):
    dim = P.shape[1]
    h, R, c = read_ell(E, dim, what)
    o, F, rank, B, cc = same_subspace(h, R, c, P, what)
    if rank == 0:
        near(c, P[0], rtol=1e-7, atol=1e-7, what=what + " of a single point")
        return
    W = (P - o) @ F
    g = np.linalg.norm(np.linalg.solve(B, (W - cc).T), axis=0)
    if g.max() > 1 + TOL:
        raise Violation(f"{what} misses {P[int(np.argmax(g))].tolist()} (gauge {g.max():.6f})")
    if sphere:
        nz = np.sort(h)[-rank:]
        require(nz.max() - nz.min() <= 1e-5 * nz.max(), f"{what} is not a sphere: {h.tolist()}")
        r, _ = opt.minball(W) if len(W) <= 10 else opt.minball_many(W)
        if nz.max() > r * (1 + TOL):
            raise Violation(f"{what} has radius {nz.max():.7g}, the minimum is {r:.7g}")
    else:
        low = opt.mvee_lower(W)
        val = np.linalg.slogdet(B)[1]
        if val > low + rank * TOL:
            raise Violation(f"{what} has volume factor {math.exp(val):.7g}, the minimum is {math.exp(low):.7g}")


def check_mie(E, V, sphere, what):
    """V: extreme points."""
    dim = V.shape[1]
    h, R, c = read_ell(E, dim, what)
    o, F, rank, B, cc = same_subspace(h, R, c, V, what)
    if rank == 0:
        near(c, V[0], rtol=1e-7, atol=1e-7, what=what + " of a single point")
        return
    W = (V - o) @ F
    A, b = hull_facets(W)
    size = np.abs(W).max()
    viol = np.linalg.norm(A @ B, axis=1) + A @ cc - b
    rin, _ = opt.chebyshev(A, b)
    if viol.max() > TOL * rin:
        raise Violation(f"{what} leaves the polyhedron by {viol.max():.3g} (inradius {rin:.3g})")
    if sphere:
        nz = np.sort(h)[-rank:]
        require(nz.max() - nz.min() <= 1e-5 * nz.max(), f"{what} is not a sphere: {h.tolist()}")
        if nz.max() < rin * (1 - TOL):
            raise Violation(f"{what} has radius {nz.max():.7g}, the maximum is {rin:.7g}")
    else:
        up = opt.mie_upper(A, b, B, cc)
        val = np.linalg.slogdet(B)[1]
        if val < up - rank * TOL:
            # certificate failed: decide by an independent solve
            if val < mie_reference(A, b) - rank * TOL:
                raise Violation(f"{what} has volume factor {math.exp(val):.7g}, which is not the maximum")


def mie_reference(A, b):
    import cvxpy as cp
    d = A.shape[1]
    B, c = cp.Variable((d, d), PSD=True), cp.Variable(d)
    pr = cp.Problem(cp.Maximize(cp.log_det(B)), [cp.norm(A @ B, axis=1) + A @ c <= b])
    pr.solve(solver="SCS", eps=1e-7, max_iters=20000)
    if pr.status != "optimal":
        raise Inconclusive("reference " + pr.status)
    return pr.value


def embed(P, n, seed, R, t, s):
    """Points of R^k placed in R^n (n >= k) by a rotation, scale and shift."""
    P = np.asarray(P, float)
    k = P.shape[1]
    Q = np.zeros((len(P), n))
    Q[:, :k] = P
    return s * (Q @ rot(R, n).T) + tvec(t, n)[:n]


def points(case, ctx):
    n, k = case["n"], min(case["k"], case["n"])
    P = np.array([p[:k] for p in case["P"]], float).reshape(len(case["P"]), k)
    P = P * np.array(case["a"][:k])
    P = embed(P, n, 0, case["R"], case["t"], case["s"])
    _, _, rank = opt.affine_frame(P)
    dup = len(np.unique(P, axis=0)) < len(P)
    ctx.label(f"dim={n}", f"rank={rank}", f"n={len(P)}", "duplicates" if dup else "distinct", "sphere" if case["sphere"] else "ellipsoid")
    if rank == 0:
        ctx.label("single point")
    P0 = P.copy()
    E = rg.mbe_of_points(P, sphere=case["sphere"], solver=SOL)
    require(np.array_equal(P, P0), "mbe_of_points modified its input")
    check_mbe(E, P, case["sphere"], "bounding sphere" if case["sphere"] else "bounding ellipsoid")


def cloud(case, ctx):
    """Many points: clouds, shells, rings about the middle of a long set, dense arcs."""
    n, k = case["n"], case["k"]
    rng = np.random.default_rng(case["seed"])
    X = rng.normal(size=(k, n))
    if case["kind"] == "shell":
        X /= np.linalg.norm(X, axis=1)[:, None]
    elif case["kind"] == "girdle":
        # most points near the ends of the long axis, a few far off it in the middle
        X *= 0.1
        X[:, 0] = rng.choice([-1.0, 1.0], size=k) * rng.uniform(2, 4, size=k)
        m = min(k, 2 * n)
        i = rng.permutation(k)[:m]
        X[i, 0] *= 0.02
        for a, r in enumerate(i):
            X[r, 1:] = 0
            X[r, 1 + (a // 2) % (n - 1)] = (-1) ** a * rng.uniform(0.8, 1.5)
    elif case["kind"] == "outlier":
        X *= 0.05
        i = rng.permutation(k)[:n + 1]
        X[i] = rng.normal(size=(len(i), n))
    P = embed(X * np.array(case["a"][:n]), n, 0, case["R"], case["t"], case["s"])
    if opt.affine_frame(P)[2] < n or np.linalg.cond(np.cov(P.T)) > 1e5:
        ctx.trivial("flat")
        return
    ctx.label(f"dim={n}", case["kind"], "n>60" if k > 60 else "n<=60", "sphere" if case["sphere"] else "ellipsoid")
    P0 = P.copy()
    E = rg.mbe_of_points(P, sphere=case["sphere"], solver=SOL)
    require(np.array_equal(P, P0), "mbe_of_points modified its input")
    check_mbe(E, P, case["sphere"], "bounding sphere" if case["sphere"] else "bounding ellipsoid")


def poly(case, ctx):
    spec, sphere = case["s"], case["sphere"]
    V = poly_vertices(spec)
    ctx.label(f"nv={len(V)}", "sphere" if sphere else "ellipsoid")
    p = build(spec)
    if case["in"]:
        check_mie(p.mie(sphere=sphere, solver=SOL), V, sphere, "inscribed")
    else:
        check_mbe(p.mbe(sphere=sphere, solver=SOL), V, sphere, "bounding")


def poly_nd(case, ctx):
    """Lattice polytopes of rank 0-3 in 1-4 dimensions."""
    n, k = case["n"], min(case["k"], case["n"])
    P = np.array([p[:k] for p in case["P"]], float).reshape(len(case["P"]), k) * np.array(case["a"][:k])
    o, F, r = opt.affine_frame(P)
    if r == 0:
        V = P[:1]
    else:
        W = (P - o) @ F
        V = P[extreme_points(W)]
    V = embed(V, n, 0, case["R"], case["t"], case["s"])
    ctx.label(f"dim={n}", f"rank={r}", f"nv={len(V)}", "sphere" if case["sphere"] else "ellipsoid")
    p = rg.ConvexPolyhedron.from_vertices(V)
    if case["in"]:
        check_mie(p.mie(sphere=case["sphere"], solver=SOL), V, case["sphere"], "inscribed")
    else:
        check_mbe(p.mbe(sphere=case["sphere"], solver=SOL), V, case["sphere"], "bounding")


def halfspaces(case, ctx):
    """mie_inequality_form on boxes and simplices cut by extra halfspaces."""
    from rigeo.shape.ellipsoid import mie_inequality_form
    n = case["n"]
    h = np.array(case["a"][:n])
    A = np.vstack((np.eye(n), -np.eye(n)))
    b = np.concatenate((h, h))
    rng = np.random.default_rng(case["seed"])
    for _ in range(case["cuts"]):
        a = rng.normal(size=n)
        A = np.vstack((A, a))
        b = np.append(b, (0.2 + rng.random()) * np.abs(a) @ h)
    f = rng.uniform(0.3, 3, size=len(b)) if case["unnorm"] else np.ones(len(b))
    R, t = rot(case["R"], n), tvec(case["t"], n)[:n]
    A = A @ R.T
    b = b + A @ t
    A, b = A * f[:, None], b * f
    if case["drop"]:
        pass
    # parallel halfspaces: the same normal with other offsets, or the same one twice
    for i, k in case.get("par", []):
        i = i % len(b)
        c = A[i] @ t
        A, b = np.vstack((A, A[i])), np.append(b, c + (b[i] - c) * [1.0, 0.6, 1.5][k])
    if case.get("rev"):
        A, b = A[::-1].copy(), b[::-1].copy()
    ctx.label(f"dim={n}", f"cuts={case['cuts']}", "sphere" if case["sphere"] else "ellipsoid")
    E = mie_inequality_form(A, b, sphere=case["sphere"], solver=SOL)
    hh, RR, c = read_ell(E, n, "inscribed")
    B = (RR * hh) @ RR.T
    rin, _ = opt.chebyshev(A, b)
    nn = np.linalg.norm(A, axis=1)
    viol = (np.linalg.norm(A @ B, axis=1) + A @ c - b) / nn
    require(viol.max() <= TOL * rin, f"inscribed ellipsoid leaves the set by {viol.max():.3g}")
    if case["sphere"]:
        require(hh.max() - hh.min() <= 1e-5 * hh.max() and hh.min() >= rin * (1 - TOL), f"radius {hh.tolist()}, maximum {rin:.7g}")
    else:
        v, up = np.log(hh).sum(), opt.mie_upper(A, b, B, c)
        if v < up - n * TOL and v < mie_reference(A, b) - n * TOL:
            raise Violation(f"inscribed ellipsoid volume {math.exp(v):.6g} is not the maximum {math.exp(up):.6g}")


def _pts():
    p = st.lists(st.integers(-4, 4), min_size=4, max_size=4)
    return st.one_of(st.lists(p, min_size=1, max_size=8), st.lists(p, min_size=4, max_size=9), st.lists(p, min_size=6, max_size=9, unique_by=tuple))


_asp = st.lists(st.sampled_from([0.25, 0.5, 1.0, 1.0, 2.0, 3.0]), min_size=4, max_size=4)
_scale = st.sampled_from([0.1, 0.5, 1.0, 1.0, 4.0])
_t = st.one_of(st.none(), gen.vec(4, gen.eighths))


def _s(k, P, **kw):
    return gen.fd(k=st.sampled_from([4, 3, 2, 1]), n=st.just(k), P=P, a=_asp, s=_scale, R=gen.rotation(k, angle=gen.angle_clear), t=_t,
                  sphere=st.booleans(), **kw)


PROP = Prop("C12", [
    Sub("points", lambda: st.one_of([_s(k, _pts()) for k in (1, 2, 3, 3, 4)]), points, 1600, 16000,
        rule="1-8 lattice points of rank 0-4 (duplicates included) placed in 1-4 dimensions; MVEE by Khachiyan weights, ball by enumeration"),
    Sub("cloud", lambda: gen.fd(n=st.integers(2, 3), k=st.sampled_from([9, 12, 20, 35, 61, 90, 120, 200]), kind=st.sampled_from(["ball", "shell", "girdle", "girdle", "outlier"]),
                                a=_asp, s=_scale, R=gen.rotation(2, angle=gen.angle_clear), t=_t, sphere=st.booleans(), seed=gen.seeds), cloud, 400, 5000, max_inconclusive=0.1,
        rule="9-200 points in 2-3 dimensions: balls, shells, long sets with a few points off the middle, dense cores with outliers"),
    Sub("poly", lambda: gen.fd(s=gen.poly(limit=8), sphere=st.booleans(), **{"in": st.booleans()}), poly, 1200, 10000, confirm=jitter,
        rule="3D polyhedra: bounding and inscribed ellipsoid/sphere with John certificate / Chebyshev radius"),
    Sub("poly_nd", lambda: st.one_of([_s(k, _pts(), **{"in": st.booleans()}) for k in (1, 2, 3, 4)]), poly_nd, 1200, 12000,
        rule="polytopes of rank 0-4 in 1-4 dimensions"),
    Sub("halfspaces", lambda: st.one_of([gen.fd(n=st.just(n), a=_asp, cuts=st.integers(0, 4), unnorm=st.booleans(), drop=st.booleans(), par=st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 7), st.integers(0, 2)), max_size=3)), rev=st.booleans(),
                                               R=gen.rotation(n), t=_t, sphere=st.booleans(), seed=gen.seeds) for n in (1, 2, 3, 4)]),
        halfspaces, 800, 8000, rule="rotated boxes cut by random halfspaces, rows scaled arbitrarily"),
], assumptions=["solver accuracy: relative length tolerance 5e-4; measured deviations are listed in DESIGN.md"])
