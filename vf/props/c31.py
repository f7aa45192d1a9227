"""C31: all representations of an ellipsoid describe the same point set."""
import math

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import (EllO, J_of, arr, boolean, booleans, build, inst, jitter, member_probes, near, oracle, require, rot, scale_of,
                   tvec)
from ..harness import Prop, Sub, Violation


def members(s, o, P, want, what):
    got = booleans(s.contains(P), len(P), what)
    bad = np.nonzero(got != want)[0]
    if len(bad):
        raise Violation(f"{what}: contains({P[bad[0]].tolist()}) is {bool(got[bad[0]])}, expected {bool(want[bad[0]])}: {s!r:.400}")


def same_set(s, o, P, want, what):
    inst(s, rg.Ellipsoid, what)
    n = o.dim
    sc = scale_of(o)
    near(s.center, o.c, 0, 1e-7 * sc, f"{what}: centre")
    h, R = arr(s.half_extents, (n,)), arr(s.rotation, (n, n))
    near(R @ R.T, np.eye(n), 0, 1e-9, f"{what}: rotation is orthogonal")
    near(np.sort(h), np.sort(o.h), 1e-6, 1e-300, f"{what}: half extents")
    near(R @ np.diag(h ** 2) @ R.T, o.R @ np.diag(o.h ** 2) @ o.R.T, 0, 1e-6 * o.h.max() ** 2, f"{what}: R diag(h^2) R^T")
    # rebuilding from a matrix with squared entries rounds: points on the boundary are not decided for thin ellipsoids
    amp = (o.h.max() / o.h.min()) ** 2
    keep = np.array([abs(o.gauge(p) - 1) > 1e-13 * amp for p in P]) | (amp < 1e4)
    P, want = P[keep], want[keep]
    members(s, o, P, want, what)


def forms(case, ctx):
    spec = case["s"]
    k = 10.0 ** case.get("unit", 0)
    if k != 1:
        spec = dict(spec, h=[x * k for x in spec["h"]], c=None if spec["c"] is None else [x * k for x in spec["c"]])
        ctx.label(f"unit {k:g}")
    o, s = oracle(spec), build(spec)
    n = o.dim
    ctx.label(f"dim={n}", "centred" if not o.c.any() else "offset", "rotated" if spec["R"] else "axis-aligned",
              "sphere" if len(set(spec["h"])) == 1 else "ellipsoid")
    rng = np.random.default_rng(case["seed"])
    P, want = member_probes(o, case["seed"])
    P = np.vstack((P, [o.c + (o.R * o.h) @ (f * u / np.linalg.norm(u)) for f in (0.1, 0.5, 0.97, 1.03, 2.0, 10.0) for u in rng.normal(size=(3, n))]))
    want = np.concatenate((want, np.repeat([True, True, True, False, False, False], 3)))
    members(s, o, P, want, "the ellipsoid")
    # the forms, evaluated by hand
    S, E = arr(s.S, (n, n), "S"), arr(s.E, (n, n), "E")
    A, b, Q = arr(s.A, (n, n), "A"), arr(s.b, (n,), "b"), arr(s.Q, (n + 1, n + 1), "Q")
    Y = P - o.c
    g = np.array([o.gauge(p) for p in P])
    amp = (o.h.max() / o.h.min()) ** 2
    cc = 1e-12 * (1 + np.linalg.norm(o.c) / o.h.min()) ** 2 * amp
    near(np.einsum("ij,jk,ik->i", Y, S, Y), g ** 2, 1e-9 * amp, 1e-12 * amp, "(x-c)^T S (x-c)")
    near(np.linalg.norm(P @ A.T + b, axis=1), g, 1e-9 * amp, cc, "|Ax+b|")
    X = np.hstack((P, np.ones((len(P), 1))))
    near(np.einsum("ij,jk,ik->i", X, Q, X), 1 - g ** 2, 1e-9 * amp, 4 * cc, "x^T Q x")
    for name, M in (("S", S), ("E", E), ("A", A), ("Q", Q)):
        near(M, M.T, 0, 1e-10 * np.abs(M).max(), f"{name} is symmetric")
    near(S @ E, np.eye(n), 0, 1e-10 * amp, "S E")
    near(E, o.R @ np.diag(o.h ** 2) @ o.R.T, 0, 1e-10 * o.h.max() ** 2, "E")
    require(s.dim == n, f"dim is {s.dim} in {n} dimensions")
    require(int(s.rank) == n, f"rank is {s.rank} for half extents {spec['h']}")
    require(boolean(s.is_degenerate()) is False, f"half extents {spec['h']} are called degenerate")
    # rebuilt
    t = rg.Ellipsoid.from_shape_matrix(S, center=o.c)
    same_set(t, o, P, want, "from_shape_matrix(S, center)")
    require(boolean(t.is_same(s, tol=1e-6 * scale_of(o))) and boolean(s.is_same(t, tol=1e-6 * scale_of(o))), "is_same of the ellipsoid and from_shape_matrix(S)")
    if not o.c.any():
        same_set(rg.Ellipsoid.from_shape_matrix(S), o, P, want, "from_shape_matrix(S)")
    same_set(rg.Ellipsoid.from_affine(A, b), o, P, want, "from_affine(A, b)")
    # another affine map onto the unit ball
    U, _ = np.linalg.qr(rng.normal(size=(n, n)))
    M = U @ np.diag(1 / o.h) @ o.R.T
    same_set(rg.Ellipsoid.from_affine(M, -M @ o.c), o, P, want, "from_affine of a map that is not symmetric")
    # forms of the rebuilt one
    near(t.S, S, 0, 1e-6 * np.abs(S).max(), "S of from_shape_matrix(S)")
    r = float(o.h[0])
    so = EllO([r] * n, np.eye(n), o.c)
    Ps, ws = member_probes(so, case["seed"] + 1)
    same_set(rg.Ellipsoid.sphere(r, center=o.c), so, Ps, ws, "sphere")
    if case["default"]:
        so = EllO([r] * 3, np.eye(3), np.zeros(3))
        Ps, ws = member_probes(so, case["seed"] + 1)
        same_set(rg.Ellipsoid.sphere(radius=r), so, Ps, ws, "sphere without centre")
    if n == 1:
        one = rg.Ellipsoid(r, center=float(o.c[0]))
        same_set(one, o, P, want, "one-dimensional from numbers")
        same_set(rg.Ellipsoid(half_extents=r, center=[float(o.c[0])]), o, P, want, "one-dimensional from a number")


def forms_case():
    n = st.integers(1, 5)
    ell = n.flatmap(lambda k: st.one_of(gen.ell(k, wide=True, limit=200), gen.ell(k, wide=True, limit=200), gen.ell(k, wide=True)))
    return gen.fd(s=ell, seed=gen.seeds, default=st.booleans(), unit=st.one_of(st.just(0), st.integers(-4, 5)))


# ---- degenerate ----------------------------------------------------------------

def degenerate(case, ctx):
    h, n = list(case["h"]), len(case["h"])
    for i in case["zero"]:
        h[i % n] = 0.0
    tiny = list(h)
    for k, i in enumerate(case["tiny"]):
        if tiny[i % n] == 0:
            tiny[i % n] = [1e-9, 3e-10, 1e-12, 5e-9][k % 4]
    c = tvec(None if case["c"] is None else case["c"][:n], n)
    R = rot(case["R"] if n == 3 else [[0, n - 1, case["a"]]] if n > 1 else None, n)
    rank = sum(x > 0 for x in h)
    ctx.label(f"dim={n}", f"rank={rank}", "tiny" if tiny != h else "zero")
    if rank == n:
        ctx.trivial("not degenerate")
    o = EllO(h, R, c)
    P, want = member_probes(o, case["seed"])
    # thin is not flat: only (almost) zero half extents are
    thin = [1e3 * x if x > 0 else [5e-6, 2e-7, 3e-5][k % 3] for k, x in enumerate(h)]
    s = rg.Ellipsoid(half_extents=thin, rotation=None if case["c"] is None else R, center=c)
    require(int(s.rank) == n and not boolean(s.is_degenerate()), f"rank is {s.rank} for half extents {thin}")
    if case["c"] is None:
        q = np.zeros(n)
        for i in range(n):
            q[:] = 0
            q[i] = 1 / thin[i] ** 2
            near(np.asarray(s.S)[i], q, 1e-9, 0, f"S of half extents {thin}")
    for e in (h, tiny):
        s = rg.Ellipsoid(half_extents=e, rotation=R, center=c)
        require(int(s.rank) == rank, f"rank is {s.rank} for half extents {e}")
        require(boolean(s.is_degenerate()) is (rank < n), f"is_degenerate is {s.is_degenerate()} for half extents {e}")
        near(s.E, R @ np.diag(np.array(h) ** 2) @ R.T, 0, 1e-12 * (1 + max(h) ** 2), f"E of half extents {e}")
        near(s.volume, o.volume, 1e-9, 1e-8 * (1 + max(h)) ** n, "volume")
        members(s, o, P, want, f"half extents {e}")
        if n == 3:
            # a body of this shape, and the same with mass off the shape
            B = np.array([o.interior(u, f) for u, f in zip(np.random.default_rng(case["seed"]).normal(size=(4, 3)), (0.2, 0.5, 0.7, 0.9))])
            for off, name in ((0.0, "on"), (0.2 * (1 + max(h)), "off")):
                W = R[:, [i for i in range(3) if h[i] == 0][:1]] if rank < 3 else None
                if off and W is None:
                    continue
                X = np.vstack((B, B + off * W.T)) if off else B
                params = rg.InertialParameters.from_point_masses(masses=np.ones(len(X)), points=X)
                got = boolean(s.can_realize(params, tol=1e-6 * scale_of(o)), "can_realize")
                require(got == (off == 0), f"can_realize is {got} of masses {name} the ellipsoid with half extents {e}")


def degenerate_case():
    return gen.fd(h=st.integers(1, 5).flatmap(lambda k: gen.vec(k, gen.pos(False))), zero=st.lists(st.integers(0, 4), min_size=1, max_size=4),
                  tiny=st.lists(st.integers(0, 4), min_size=1, max_size=5), c=st.one_of(st.none(), gen.vec(5)), a=gen.angle,
                  R=gen.rotation(3), seed=gen.seeds)


# ---- rejected ---------------------------------------------------------------------

BAD = [-1.0, -1e-9, -1e-3, -5.0, math.inf, -math.inf, math.nan]


def rejected(case, ctx):
    h = list(case["h"])
    n = len(h)
    bad = BAD[case["bad"] % len(BAD)]
    i = case["i"] % n
    ok = rg.Ellipsoid(half_extents=h)
    near(ok.half_extents, h, 0, 0, "half extents")
    h[i] = bad
    ctx.label(f"dim={n}", f"bad={bad}")
    for form in ("list", "array", "scalar"):
        if form == "scalar" and n > 1:
            continue
        x = h if form == "list" else np.array(h) if form == "array" else bad
        try:
            s = rg.Ellipsoid(half_extents=x)
        except (AssertionError, ValueError):
            continue
        raise Violation(f"Ellipsoid(half_extents={x!r}) was accepted: {s!r:.200}")
    if bad < 0 or not math.isfinite(bad):
        try:
            s = rg.Ellipsoid.sphere(radius=bad, center=np.zeros(n))
        except (AssertionError, ValueError):
            return
        raise Violation(f"sphere(radius={bad}) was accepted: {s!r:.200}")


def rejected_case():
    return gen.fd(h=st.integers(1, 5).flatmap(lambda k: gen.vec(k, st.one_of(st.just(0.0), gen.pos()))), i=st.integers(0, 4),
                  bad=st.integers(0, len(BAD) - 1))


PROP = Prop("C31", [
    Sub("forms", forms_case, forms, 3000, 60000, rule="every case"),
    Sub("degenerate", degenerate_case, degenerate, 1500, 30000, rule="at least one half extent is zero"),
    Sub("rejected", rejected_case, rejected, 600, 6000, rule="every case"),
])
