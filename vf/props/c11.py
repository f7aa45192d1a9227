"""C11: closed-form bounding and inscribed shapes are valid and optimal."""
import math

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import (BoxO, EllO, arr, body_directions, booleans, build, inst, near, oracle, points_in, require, scale_of)
from ..harness import Prop, Sub, Violation


def as_oracle(s, what):
    """Oracle read off the returned box or ellipsoid."""
    h, R, c = arr(s.half_extents), arr(s.rotation), arr(s.center)
    n = len(h)
    require(R.shape == (n, n) and c.shape == (n,), what + " has inconsistent sizes")
    near(R.T @ R, np.eye(n), atol=1e-9, what=what + " rotation is not orthogonal")
    require(np.all(h >= 0), what + " has negative extents")
    return (BoxO if isinstance(s, rg.Box) else EllO)(h, R, c)


def inside(a, b, seed, what):
    """Body a is inside body b (support functions)."""
    D = np.vstack((body_directions(a, seed, 30), body_directions(b, seed + 1, 10)))
    t = 1e-9 * (scale_of(a) + scale_of(b))
    for v in D:
        if a.sup(v) > b.sup(v) + t:
            raise Violation(f"{what}: exceeds by {a.sup(v) - b.sup(v):.3g} in direction {v.tolist()}")


def verify(res, want_h, o, outer, what, seed, cls):
    inst(res, cls, what)
    r = as_oracle(res, what)
    require(r.dim == o.dim, f"{what} is {r.dim}-dimensional")
    near(np.sort(r.h), np.sort(want_h), rtol=1e-9, atol=1e-12, what=what + " half extents")
    if outer:
        inside(o, r, seed, what)
        P = points_in(o, seed, 12)
        ok = booleans(res.contains(P, tol=1e-7 * max(1.0, scale_of(o))), len(P))
        require(ok.all(), f"{what} does not contain {P[int(np.argmin(ok))].tolist()}")
    else:
        inside(r, o, seed, what)


def closed(case, ctx):
    spec, seed = case["s"], case["seed"]
    o, s = oracle(spec), build(spec)
    k = spec["k"]
    ctx.label("kind=" + k, f"dim={o.dim}", "degenerate" if o.rank < o.dim else "full", "rotated" if spec["R"] else "axis-aligned")
    d = o.dim
    E, B = rg.Ellipsoid, rg.Box
    if k == "box":
        nrm = float(np.linalg.norm(o.h))
        verify(s.mbe(), math.sqrt(3) * o.h, o, True, "Box.mbe", seed, E)
        verify(s.mbe(sphere=True), [nrm] * 3, o, True, "Box.mbe(sphere)", seed, E)
        verify(s.mie(), o.h, o, False, "Box.mie", seed, E)
        verify(s.mie(sphere=True), [o.h.min()] * 3, o, False, "Box.mie(sphere)", seed, E)
        verify(s.mbe(rcond=None, sphere=False, solver="CLARABEL"), math.sqrt(3) * o.h, o, True, "Box.mbe", seed, E)
    elif k == "ell":
        verify(s.mbe(), o.h, o, True, "Ellipsoid.mbe", seed, E)
        verify(s.mbe(sphere=True), [o.h.max()] * d, o, True, "Ellipsoid.mbe(sphere)", seed, E)
        verify(s.mbe(rcond=None, sphere=False, solver="CLARABEL"), o.h, o, True, "Ellipsoid.mbe", seed, E)
        if d == 3:
            verify(s.mbb(), o.h, o, True, "Ellipsoid.mbb", seed, B)
            verify(s.mib(), o.h / math.sqrt(3), o, False, "Ellipsoid.mib", seed, B)
    elif k == "cyl":
        a = math.sqrt(1.5) * o.r
        verify(s.mbe(), [a, a, math.sqrt(3) * o.L / 2], o, True, "Cylinder.mbe", seed, E)
        verify(s.mbe(sphere=True), [math.hypot(o.r, o.L / 2)] * 3, o, True, "Cylinder.mbe(sphere)", seed, E)
        verify(s.mbb(), [o.r, o.r, o.L / 2], o, True, "Cylinder.mbb", seed, B)
        verify(s.mib(), [o.r / math.sqrt(2)] * 2 + [o.L / 2], o, False, "Cylinder.mib", seed, B)
    else:
        verify(s.mbb(), [o.r, o.r, o.L / 2 + o.r], o, True, "Capsule.mbb", seed, B)


def shapes():
    return st.one_of(gen.shape3(("box", "ell", "cyl", "cap"), wide=True, degenerate=True),
                     st.integers(1, 5).flatmap(lambda n: gen.ell(n, degenerate=True)))


PROP = Prop("C11", [
    Sub("closed", lambda: gen.fd(s=shapes(), seed=gen.seeds), closed, 8000, 100000,
        rule="boxes, ellipsoids (1-5D), cylinders, capsules (degenerate included) in any pose; all bounding/inscribed results"),
], assumptions=["optimal sizes used as oracle are theorems (Hadamard / John), proved in DESIGN.md"])
