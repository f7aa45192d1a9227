"""C13: ellipsoid containment and bounding of ellipsoids are exact."""
import math

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen, opt
from ..geo import BoxO, EllO, arr, body_directions, boolean, build, build_all, inst, jitter, near, oracle, require, rot, scale_of, tvec
from ..harness import Inconclusive, Prop, Sub, Violation
from .c12 import read_ell

SOL = "CLARABEL"
TOL = 1e-3


def gauge_max(o1, o2):
    """max over x in ellipsoid o2 of the gauge of o1 (and the maximizer)."""
    W = o1.R.T / o1.h[:, None]
    g, y = opt.ball_max(W @ (o2.R * o2.h), W @ (o2.c - o1.c))
    return g, o2.c + o2.R @ (o2.h * y)


def contains(case, ctx):
    n = len(case["h1"])
    o1 = EllO(case["h1"], rot(case["R1"], n), tvec(case["c1"], n) * case.get("far", 1))
    R2 = rot(case["R2"], n)
    # place the second ellipsoid relative to the first: offset u * (1 - size) in its frame
    h2 = np.array(case["h2"]) * (o1.h.min() if case["rel"] else 1.0)
    u = np.random.default_rng(case["seed"]).normal(size=n)
    u = u / np.linalg.norm(u) * case["off"]
    o2 = EllO(h2, R2, o1.c + o1.R @ (o1.h * u))
    g, x = gauge_max(o1, o2)
    if case["fit"] is not None:
        # resize the second one so that its farthest point has this gauge
        lo, hi = 0.0, 1e4
        if case["off"] < case["fit"]:
            for _ in range(60):
                mid = 0.5 * (lo + hi)
                if gauge_max(o1, EllO(h2 * mid, R2, o2.c))[0] < case["fit"]:
                    lo = mid
                else:
                    hi = mid
            f = round(lo, 9)
            if f > 1e-3:
                o2 = EllO(h2 * f, R2, o2.c)
                g, x = gauge_max(o1, o2)
    want = g <= 1
    ratio = max(o1.h.max(), o2.h.max()) / min(o1.h.min(), o2.h.min())
    if abs(g - 1) < 1e-3:
        raise Inconclusive("too close to touching")
    if ratio > 60:
        ctx.trivial("extreme ratio")
        return
    ctx.label(f"dim={n}", "contained" if want else "not contained", "clear" if abs(g - 1) > 0.2 else "near")
    e1 = rg.Ellipsoid(half_extents=o1.h, rotation=o1.R, center=o1.c)
    e2 = rg.Ellipsoid(half_extents=o2.h, rotation=o2.R, center=o2.c)
    got = boolean(e1.contains_ellipsoid(e2, solver=SOL), "contains_ellipsoid")
    if got != want:
        raise Violation(f"contains_ellipsoid is {got}, but the farthest point of the second has gauge {g:.6g} in the first: "
                        f"{e1!r} {e2!r}")
    if got:
        require(boolean(e1.contains(x), "contains"), f"contained ellipsoid's point {x.tolist()} is not contained")


def lower_bound(os, sphere):
    """Log volume factor (or radius) that any ellipsoid (ball) containing all os has at least."""
    P = [o.supp(v) for o in os for v in np.vstack((o.R.T, -o.R.T))]
    n = os[0].dim
    val = None
    for it in range(40):
        A = np.array(P)
        if sphere:
            r, c = _ball(A)
            new, worst = [], 0.0
            for o in os:
                g, y = opt.ball_max(o.R * o.h, o.c - c)
                worst = max(worst, g / r)
                if g > r * (1 + 1e-5):
                    new.append(o.c + o.R @ (o.h * y))
            val = r
        else:
            w = mvee(A)
            val, B, c = w
            new, worst = [], 0.0
            Bi = np.linalg.inv(B)
            for o in os:
                g, y = opt.ball_max(Bi @ (o.R * o.h), Bi @ (o.c - c))
                worst = max(worst, g)
                if g > 1 + 2e-4:
                    new.append(o.c + o.R @ (o.h * y))
        if not new:
            break
        P += new
    return val


def _ball(A):
    """Minimum ball of many points, by an active set on opt.minball."""
    idx = [0, int(np.argmax(np.linalg.norm(A - A[0], axis=1)))]
    for _ in range(60):
        r, c = opt.minball(A[idx])
        d = np.linalg.norm(A - c, axis=1)
        j = int(np.argmax(d))
        if d[j] <= r * (1 + 1e-9) or j in idx:
            return r, c
        # keep only support points
        keep = [i for i in idx if np.linalg.norm(A[i] - c) > r * (1 - 1e-9)]
        idx = keep + [j]
        if len(idx) > A.shape[1] + 3:
            idx = idx[-(A.shape[1] + 3):]
    return r, c


def mvee(P):
    """(lower bound on log volume factor, B, c) of points: Khachiyan with away steps."""
    n, d = P.shape
    Q = np.hstack((P, np.ones((n, 1))))
    w = np.ones(n) / n
    for _ in range(3000):
        X = Q.T @ (w[:, None] * Q)
        g = np.einsum("ij,ij->i", Q @ np.linalg.inv(X), Q)
        i = int(np.argmax(g))
        act = np.nonzero(w > 1e-12)[0]
        j = act[int(np.argmin(g[act]))]
        up, dn = g[i] / (d + 1) - 1, 1 - g[j] / (d + 1)
        if max(up, dn) < 2e-5:
            break
        if up >= dn:
            b = (g[i] - d - 1) / ((d + 1) * (g[i] - 1))
            w *= 1 - b
            w[i] += b
        else:
            b = max((g[j] - d - 1) / ((d + 1) * (g[j] - 1)) if g[j] > 1 else -np.inf, -w[j] / (1 - w[j]))
            w *= 1 - b
            w[j] = max(w[j] + b, 0.0)
    c = w @ P
    C = d * ((P - c).T @ (w[:, None] * (P - c)))
    lam, V = np.linalg.eigh(C)
    lam = np.maximum(lam, 1e-300)
    return 0.5 * float(np.log(lam).sum()), (V * np.sqrt(lam)) @ V.T, c


def check_bound(E, os, sphere, what):
    n = os[0].dim
    h, R, c = read_ell(E, n, what)
    res = EllO(h, R, c)
    for i, o in enumerate(os):
        g, x = gauge_max(res, o)
        if g > 1 + TOL:
            raise Violation(f"{what} misses {x.tolist()} of ellipsoid {i} (gauge {g:.6f})")
    low = lower_bound(os, sphere)
    if sphere:
        require(h.max() - h.min() <= 1e-4 * h.max(), f"{what} is not a sphere: {h.tolist()}")
        require(h.max() <= low * (1 + TOL), f"{what} has radius {h.max():.7g}, the minimum is {low:.7g}")
    else:
        v = np.log(h).sum()
        require(v <= low + n * TOL, f"{what} has volume factor {math.exp(v):.7g}, the minimum is {math.exp(low):.7g}")


def bound(case, ctx):
    n, k = case["n"], len(case["es"])
    os = [EllO(e["h"][:n], rot(e["R"], n) if n > 1 else np.eye(1), tvec(e["c"], n) + tvec(case["t"])[:n]) for e in case["es"]]
    if case.get("near") is not None and k > 1:
        # small ones whose centres lie about the surface of the first
        rng = np.random.default_rng(case["seed"])
        os = [os[0]] + [EllO(o.h * case["small"], o.R, os[0].c + os[0].R @ (os[0].h * case["near"] * (lambda u: u / np.linalg.norm(u))(rng.normal(size=n)))) for o in os[1:]]
        ctx.label(f"satellites at {case['near']}")
    ctx.label(f"dim={n}", f"count={k}", "sphere" if case["sphere"] else "ellipsoid")
    es = [rg.Ellipsoid(half_extents=o.h, rotation=o.R, center=o.c) for o in os]
    E = rg.mbe_of_ellipsoids(es, sphere=case["sphere"], solver=SOL)
    check_bound(E, os, case["sphere"], "bounding ellipsoid of ellipsoids")


def capsule(case, ctx):
    o, s = oracle(case["s"]), build(case["s"])
    ctx.label("sphere" if case["sphere"] else "ellipsoid", f"L/r~{round(o.L / o.r)}")
    caps = [EllO([o.r] * 3, np.eye(3), o.c + f * o.L / 2 * o.a) for f in (1, -1)]
    check_bound(s.mbe(sphere=case["sphere"], solver=SOL), caps, case["sphere"], "Capsule.mbe")


def bodies(case, ctx):
    """RigidBody.mbes for every mix of shapes."""
    os, shapes = [oracle(s) for s in case["ss"]], build_all(case["ss"])
    ctx.label(*["kind=" + s["k"] for s in case["ss"]], "sphere" if case["sphere"] else "ellipsoid", "default solver" if case["default"] else "solver given")
    params = rg.InertialParameters.from_point_masses(masses=case["pm"]["m"], points=np.array(case["pm"]["p"], float))
    body = rg.RigidBody(shapes, params)
    kw = {} if case["default"] and all(s["k"] in ("box", "ell", "cyl") for s in case["ss"]) else {"solver": SOL}
    new = body.mbes(sphere=case["sphere"], **kw)
    inst(new, rg.RigidBody, "mbes")
    require(len(new.shapes) == len(shapes), f"mbes has {len(new.shapes)} shapes, expected {len(shapes)}")
    near(arr(new.params.J, (4, 4)), np.asarray(params.J), what="parameters after mbes", rtol=1e-12, atol=1e-12)
    require(all(a is b for a, b in zip(body.shapes, shapes)), "mbes changed the original body")
    for i, (E, o) in enumerate(zip(new.shapes, os)):
        h, R, c = read_ell(E, 3, "bounding ellipsoid")
        r = EllO(h, R, c)
        if case["sphere"]:
            require(h.max() - h.min() <= 1e-4 * h.max(), f"bounding sphere {i} is not a sphere: {h.tolist()}")
        for v in np.vstack((body_directions(o, case["seed"] + i, 12), body_directions(r, 5, 4))):
            if o.sup(v) > r.sup(v) + TOL * o.size:
                raise Violation(f"bounding ellipsoid {i} of {case['ss'][i]} is exceeded by {o.sup(v) - r.sup(v):.3g}")
        # minimal: no smaller than needed, at most the bound by the polyhedron/known sizes
        k = case["ss"][i]["k"]
        want = None
        if k == "box":
            want = [np.linalg.norm(o.h)] * 3 if case["sphere"] else math.sqrt(3) * o.h
        elif k == "ell":
            want = [o.h.max()] * 3 if case["sphere"] else o.h
        elif k == "cyl":
            want = [math.hypot(o.r, o.L / 2)] * 3 if case["sphere"] else [math.sqrt(1.5) * o.r] * 2 + [math.sqrt(3) / 2 * o.L]
        elif k == "cap" and case["sphere"]:
            want = [o.r + o.L / 2] * 3
        if want is not None:
            near(np.sort(h), np.sort(want), rtol=TOL, atol=1e-9, what=f"bounding ellipsoid {i} half extents")


def _e(n):
    return gen.fd(h=st.lists(st.sampled_from([0.25, 0.5, 1.0, 1.0, 1.5, 2.0, 3.0]), min_size=n, max_size=n),
                  R=gen.rotation(n), c=st.one_of(st.none(), gen.vec(n, gen.eighths)))


_len = st.sampled_from([0.2, 0.5, 1.0, 1.0, 2.0, 3.0])


def s_contains(n):
    return gen.fd(h1=st.lists(_len, min_size=n, max_size=n), h2=st.lists(_len, min_size=n, max_size=n), R1=gen.rotation(n), R2=gen.rotation(n),
                  c1=st.one_of(st.none(), gen.vec(n, gen.eighths), gen.vec(n, gen.eighths)), far=st.sampled_from([1, 1, 1, 5, 20]), rel=st.booleans(),
                  off=st.sampled_from([0.0, 0.2, 0.5, 0.8, 0.95, 1.3, 3.0]),
                  fit=st.sampled_from([None, 0.9, 0.97, 0.99, 0.998, 1.002, 1.01, 1.03, 1.1]), seed=gen.seeds)


PROP = Prop("C13", [
    Sub("contains", lambda: st.one_of([s_contains(n) for n in (1, 2, 3, 3, 4)]), contains, 3000, 50000, max_inconclusive=0.7,
        rule="pairs of posed ellipsoids in 1-4D, sizes tuned to just inside/outside; exact trust-region maximum as oracle; within 0.1% of touching undecided, up to 80 from the origin"),
    Sub("bound", lambda: st.one_of([gen.fd(n=st.just(n), es=st.lists(_e(n), min_size=1, max_size=4), sphere=st.booleans(), t=gen.vec(3, gen.eighths),
                                           near=st.sampled_from([None, None, 0.9, 0.97, 1.1, 1.5]), small=st.sampled_from([0.1, 0.25, 0.5]), seed=gen.seeds)
                                    for n in (1, 2, 3, 3)]), bound, 900, 16000,
        rule="1-4 posed ellipsoids in 1-3D; containment by trust region, minimality by a cutting-point lower bound"),
    Sub("capsule", lambda: gen.fd(s=gen.cap(wide=False, limit=20, far=False), sphere=st.booleans()), capsule, 200, 5000,
        rule="posed capsules"),
    Sub("bodies", lambda: gen.fd(ss=gen.shapes(gen.shape3(far=False, limit=10), 4), sphere=st.booleans(), default=st.booleans(),
                                 pm=gen.point_masses(far=False), seed=gen.seeds), bodies, 1200, 12000, confirm=jitter,
        rule="rigid bodies with 1-4 shapes of every kind"),
], assumptions=["solver accuracy: relative length tolerance 1e-3"])
