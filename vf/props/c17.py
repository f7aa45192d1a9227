"""C17: closest-point queries return a true minimum-distance pair."""
import itertools

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import arr, build, jitter, moved, oracle, require, rescaled, rot, scale_of, tvec, unit
from ..harness import Inconclusive, Prop, Sub, Violation


def _minnorm(S):
    """Minimum-norm point of the hull of at most four points (index set, point)."""
    best = None
    for k in range(1, len(S) + 1):
        for idx in itertools.combinations(range(len(S)), k):
            P = S[list(idx)]
            if k == 1:
                x = P[0]
            else:
                D = (P[1:] - P[0]).T
                l, *_ = np.linalg.lstsq(D, -P[0], rcond=1e-13)
                w = np.append(1 - l.sum(), l)
                if w.min() < -1e-12:
                    continue
                x = P[0] + D @ l
            n = float(x @ x)
            if best is None or n < best[0] * (1 - 1e-14):
                best = (n, idx, x)
    return best


def gjk(a, b, iters=400):
    """Bracket [lo, hi] of the distance between two bodies given by support functions."""
    d0 = max(scale_of(a), scale_of(b))
    x = b.c - a.c
    if np.linalg.norm(x) == 0:
        x = np.array([1.0, 0, 0])
    S = np.array([b.supp(-x) - a.supp(x)])
    lo, hi = 0.0, np.inf
    for _ in range(iters):
        n, idx, x = _minnorm(S)
        hi = min(hi, np.sqrt(n))
        S = S[list(idx)]
        if hi <= 1e-12 * d0:
            return 0.0, hi
        u = unit(x)
        lo = max(lo, -a.sup(u) - b.sup(-u))
        if hi - lo <= 1e-9 * d0:
            break
        s = b.supp(-u) - a.supp(u)
        if len(S) == 4 or np.abs(S - s).max(axis=1).min() == 0:
            break
        S = np.vstack((S, s))
    return lo, hi


def query(s, t, what, a, b, tol, lo, hi):
    r = rg.closest_points(s, t, solver="CLARABEL")
    if r.p1 is None or r.p2 is None or r.dist is None:
        raise Inconclusive("solver gave no solution")
    p, q = arr(r.p1, (3,), "p1"), arr(r.p2, (3,), "p2")
    d = float(arr(r.dist, (), "dist"))
    for o, x, n in ((a, p, "first"), (b, q, "second")):
        # distance from the shape, by duality over many directions (a lower bound), and through the gauge
        e = o.off(x)
        g = o.gauge(x)
        y = x if g <= 1 else o.c + (x - o.c) / g
        if e <= tol and np.linalg.norm(o.into(x - y)) <= tol:
            continue
        l, _ = gjk(_Point(x), o)
        require(max(l, e) <= tol, f"{what}: returned point {x.tolist()} is {max(l, e):.3g} away from the {n} shape")
    require(abs(d - np.linalg.norm(p - q)) <= tol, f"{what}: dist is {d}, the points are {np.linalg.norm(p - q)} apart")
    require(d >= lo - tol, f"{what}: dist {d} is below the distance {lo}")
    require(d <= hi + tol, f"{what}: dist {d} is above the distance {hi}")
    return d


class _Point:
    def __init__(self, x):
        self.c = x
        self.size = 0.0
        self.dim = 3

    def sup(self, v):
        return float(v @ self.c)

    def supp(self, v):
        return self.c


def closest(case, ctx):
    k = case.get("unit", 1)
    sa = rescaled(case["s"], k)
    t = dict(rescaled(case["t"], k))
    a, b = oracle(sa), oracle(t)
    if case["w"] is not None:
        u = np.array(case["u"], float)
        u = unit(u) if np.any(u) else np.array([1.0, 0, 0])
        goal = a.c + case["w"] * (a.sup(u) - a.c @ u + b.sup(-u) + b.c @ u) * u
        t["c"] = [float(round(x, 4 if k >= 1 else 6)) for x in goal - (b.c - tvec(t["c"]))]
        b = oracle(t)
    lo, hi = gjk(a, b)
    scale = max(a.size, b.size, np.abs(a.c - b.c).max())
    tol = 2e-5 * scale + 1e-6 * max(np.abs(a.c).max(), np.abs(b.c).max())
    if min(a.rank, b.rank) < 3:
        # a flat ellipsoid is a semidefinite constraint with a zero diagonal entry
        tol *= 30
    if hi - lo > 0.3 * tol:
        raise Inconclusive("oracle did not converge")
    ctx.label(case["s"]["k"], case["t"]["k"], "meet" if hi <= tol else "apart",
              "degenerate" if min(a.rank, b.rank) < 3 else "solid", *([f"unit {k}"] if k != 1 else []))
    s, q = build(sa), build(t)
    query(s, q, "closest_points", a, b, tol, lo, hi)
    query(q, s, "closest_points (swapped)", b, a, tol, lo, hi)
    R, v = rot(case["T"]["R"]), tvec(case["T"]["t"]) * k * case.get("far", 1)
    if case.get("far", 1) > 1:
        ctx.label("moved far")
    s2, q2 = s.transform(rotation=R, translation=v), q.transform(rotation=R, translation=v)
    tol2 = tol + 1e-6 * np.abs(v).max()
    query(s2, q2, "closest_points (both moved)", moved(a, R, v), moved(b, R, v), tol2, lo, hi)


_r = gen.fd(k=st.just("ell"), h=gen.nearly(3, gen.pos8), R=gen.rotation(3), c=gen.center(3, False))
_k = gen.shape3(far=False, limit=20)
_d = gen.shape3(kinds=("box", "ell", "cyl", "cap"), degenerate=True, far=False, limit=20)
_unit = st.sampled_from([1, 1, 1, 100, 0.1])
_far = st.sampled_from([1, 1, 1, 30, 300])
_w = st.one_of(st.none(), st.integers(0, 20).map(lambda k: k / 10), st.just(1.0))


PROP = Prop("C17", [
    Sub("solid", lambda: gen.fd(s=_k, t=_k, u=gen.vec(3, gen.eighths), w=_w, unit=_unit, far=_far, T=gen.fd(R=gen.rotation(3, angle=gen.angle_clear), t=gen.center(3, False))), closest, 900, 12000, confirm=jitter, max_inconclusive=0.1,
        rule="pairs of posed boxes, ellipsoids, cylinders, capsules, polyhedra: overlapping, nested, touching, apart; bracketed by an independent GJK with support functions"),
    Sub("round", lambda: gen.fd(s=_r, t=_r, u=gen.vec(3, gen.eighths), w=_w, unit=_unit, far=_far, T=gen.fd(R=gen.rotation(3, angle=gen.angle_clear), t=gen.center(3, False))), closest, 120, 1500, confirm=jitter, max_inconclusive=0.1,
        rule="pairs of nearly spherical ellipsoids"),
    Sub("flat", lambda: gen.fd(s=_d, t=st.one_of(_k, _d), u=gen.vec(3, gen.eighths), w=_w, unit=_unit, far=_far, T=gen.fd(R=gen.rotation(3, angle=gen.angle_clear), t=gen.center(3, False))), closest, 500, 6000, confirm=jitter, max_inconclusive=0.3,
        rule="as above with degenerate shapes (disks, segments, points)"),
], assumptions=["distances are compared within 2e-5 of the problem size (solver accuracy), 6e-4 for flat shapes", "CLARABEL is used (the default solver is not licensed here)"])
