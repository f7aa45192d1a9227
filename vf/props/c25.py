"""C25: samplers documented as uniform are uniform."""
import math

import numpy as np
import rigeo as rg
from hypothesis import strategies as st
from rigeo import random as rr
from scipy.special import betainc
from scipy.stats import binom

from .. import gen
from ..geo import arr, build, moved, oracle, pose_of, require, scale_of, unit
from ..harness import Inconclusive, Prop, Sub, Violation

PMIN = 1e-9   # per comparison; a violation must also recur with other seeds


step = [0]  # number of points per call, when several calls were made


def draw(f, case, d):
    """N samples: in one call, in an array, or one point per call; the generator or a seed."""
    seed, how = case["seed"], case["how"]
    step[0] = 0
    if how == "single":
        g = np.random.default_rng(seed)
        X = np.array([np.asarray(f(1, g)).reshape(d) for _ in range(case["n"] // 8)])
    elif how == "seeds":
        X = np.array([np.asarray(f(1, seed + i)).reshape(d) for i in range(case["n"] // 8)])
    elif how == "small":
        g = np.random.default_rng(seed)
        k = 2 + seed % 9
        step[0] = k
        X = np.vstack([np.asarray(f(k, g)).reshape(k, d) for _ in range(case["n"] // 8)])
    elif how == "array":
        X = np.asarray(f((case["n"] // 50, 50), np.random.default_rng(seed))).reshape(-1, d)
    else:
        X = np.asarray(f(case["n"], seed)).reshape(-1, d)
    return arr(X, what="samples")


def region(hits, p, what, ctx):
    """The number of samples in a region of share p has a plausible binomial value."""
    hits = np.asarray(hits, bool)
    parts = [("", hits)]
    if len(hits) >= 400:
        # any part of the output is as uniform as the whole
        parts += [(" (first half)", hits[:len(hits) // 2]), (" (every other)", hits[::2])]
    if step[0] and len(hits) % step[0] == 0 and len(hits) >= 200 * step[0]:
        # so is the first, the second, ... point of a call
        parts += [(f" (point {i} of {step[0]} in each call)", hits[i::step[0]]) for i in {0, 1, step[0] - 1}]
    for name, h in parts:
        n, k = len(h), int(h.sum())
        q = min(max(p, 0.0), 1.0)
        lo, hi = binom.cdf(k, n, q), binom.sf(k - 1, n, q)
        if min(lo, hi) < PMIN / 10:
            raise Violation(f"{what}{name}: {k} of {n} samples, the share of the region is {p:.5f} (expected {n * p:.1f})")
    ctx.label("region")


def pairs(U, S, what, ctx):
    """Consecutive samples are independent: signs of successive coordinates agree half of the time."""
    a = (U[1:] > S) == (U[:-1] > S)
    return a


def half_orders(h, p, what, ctx):
    """Regions hit by consecutive samples are independent (a run of equal regions is not a uniform sample)."""
    h = np.asarray(h, bool)
    if len(h) >= 400 and 0.02 < p < 0.98:
        a = h[0:-1:2] != h[1::2]
        q = 2 * p * (1 - p)
        n, k = len(a), int(a.sum())
        if min(binom.cdf(k, n, q), binom.sf(k - 1, n, q)) < PMIN / 10:
            raise Violation(f"{what}: consecutive samples are not independent ({k} of {n} pairs are split by the region, expected {n * q:.1f})")


def both(h, p, what, ctx):
    region(h, p, what, ctx)
    half_orders(h, p, what, ctx)


# ---- local coordinates -------------------------------------------------------

def to_local(o, X):
    return (X - o.c) @ o.R


def ball_cap(d, s):
    """Share of the unit d-ball with x.u <= s."""
    if s <= -1:
        return 0.0
    if s >= 1:
        return 1.0
    t = 0.5 * betainc((d + 1) / 2, 0.5, 1 - s * s)
    return t if s < 0 else 1 - t


def sphere_cap(d, s):
    """Share of the unit sphere in R^d with x.u <= s."""
    if d == 1:
        return 0.0 if s < -1 else 0.5 if s < 1 else 1.0
    t = 0.5 * betainc((d - 1) / 2, 0.5, 1 - s * s)
    return t if s < 0 else 1 - t


def box_regions(Y, rng, ctx, what):
    """Y uniform in [-1, 1]^3."""
    for _ in range(5):
        a, b = np.sort(rng.uniform(-1, 1, size=(2, 3)), axis=0)
        m = rng.random(3) < 0.5
        a, b = np.where(m, a, -1), np.where(m, b, 1)
        both(((Y >= a) & (Y <= b)).all(axis=1), float(np.prod((b - a) / 2)), f"{what}: sub-box {a.round(3).tolist()} to {b.round(3).tolist()} of the unit box", ctx)


def ball_regions(Y, d, rng, ctx, what):
    """Y uniform in the unit d-ball."""
    r = np.linalg.norm(Y, axis=1)
    for s in (0.3, 0.8, rng.random()):
        both(r <= s, s ** d, f"{what}: within {s:.3f} of the centre of the unit ball", ctx)
    dirs = [unit(rng.normal(size=d)) for _ in range(3)] + list(np.eye(d)[:3])
    for u in dirs:
        s = rng.uniform(-0.9, 0.9)
        both(Y @ u <= s, ball_cap(d, s), f"{what}: unit ball below {s:.3f} along {u.round(3).tolist()}", ctx)
        both((Y @ u > 0) & (r > 0.5), 0.5 * (1 - 0.5 ** d), f"{what}: outer half shell along {u.round(3).tolist()}", ctx)


def solid_moments(o, X, var, what):
    """Second moments of the samples against those of the body."""
    Y = np.hstack((X - o.c, np.ones((len(X), 1))))
    Jc = np.zeros((4, 4))
    Jc[:3, :3] = (o.R * var) @ o.R.T
    Jc[3, 3] = 1
    n = len(Y)
    for i in range(4):
        for j in range(i, 4):
            z = Y[:, i] * Y[:, j]
            sd = z.std() / math.sqrt(n)
            if abs(z.mean() - Jc[i, j]) > 9 * sd + 1e-9 * (1 + abs(Jc[i, j]) + o.size ** 2):
                raise Violation(f"{what}: sample moment ({i},{j}) about the centre is {z.mean():.6g}, that of a uniform body {Jc[i, j]:.6g} (standard error {sd:.2g})")


# ---- solids --------------------------------------------------------------------

def solid(case, ctx):
    s = case["s"]
    b, o = build(s), oracle(s)
    if case["moved"]:
        R, t = pose_of(case)
        b, o = b.transform(rotation=R, translation=t), moved(o, R, t)
    k = s["k"]
    ctx.label(k, case["how"])
    X = draw(lambda n, g: b.random_points(n, rng=g), case, 3)
    Y = to_local(o, X)
    rng = np.random.default_rng(case["seed"] + 1)
    what = f"{k}.random_points ({case['how']})"
    if k == "box":
        box_regions(Y / o.h, rng, ctx, what)
        solid_moments(o, X, o.h ** 2 / 3, what)
    elif k == "ell":
        ball_regions(Y / o.h, 3, rng, ctx, what)
        solid_moments(o, X, o.h ** 2 / 5, what)
    elif k == "cyl":
        z, q = Y[:, 2] / (o.L / 2), Y[:, :2] / o.r
        ball_regions(q, 2, rng, ctx, what + " across")
        for _ in range(3):
            s0 = rng.uniform(-1, 1)
            both(z <= s0, (s0 + 1) / 2, f"{what}: below {s0:.3f} along the axis", ctx)
            u, t = unit(rng.normal(size=2)), rng.uniform(-0.8, 0.8)
            both((z <= s0) & (q @ u <= t), (s0 + 1) / 2 * ball_cap(2, t), f"{what}: axis below {s0:.3f} and across below {t:.3f}", ctx)
        solid_moments(o, X, np.array([o.r ** 2 / 4, o.r ** 2 / 4, o.L ** 2 / 12]), what)
    else:
        # capsule: cylinder and two half balls
        L, r = o.L, o.r
        vc, vb = math.pi * r * r * L, 4 / 3 * math.pi * r ** 3
        mid = np.abs(Y[:, 2]) <= L / 2
        both(mid, vc / (vc + vb), f"{what}: cylindrical part", ctx)
        both(Y[:, 2] > L / 2, vb / 2 / (vc + vb), f"{what}: one end", ctx)
        if mid.sum() > 200:
            ball_regions(Y[mid][:, :2] / r, 2, rng, ctx, what + " across the middle")
            s0 = rng.uniform(-1, 1)
            both(Y[mid][:, 2] <= s0 * L / 2, (s0 + 1) / 2, f"{what}: along the middle", ctx)
        E = Y[~mid].copy()
        if len(E) > 200:
            E[:, 2] -= np.sign(E[:, 2]) * L / 2
            ball_regions(E / r, 3, rng, ctx, what + " in the ends")


def rejection(case, ctx):
    """Rejection sampling is uniform on the union within the bounding shape."""
    bs = case["bound"]
    bound, ob = build(bs), oracle(bs)
    os = [oracle(x) for x in case["shapes"]]
    shapes = [build(x) for x in case["shapes"]]
    rng = np.random.default_rng(case["seed"] + 1)
    # independent reference: exact coordinates of the box, plain membership
    T = ob.c + (rng.uniform(-1, 1, size=(20000, 3)) * ob.h) @ ob.R.T
    G = np.array([[o.gauge(p) <= 1 for o in os] for p in T])
    keep = G.any(axis=1)
    if keep.mean() < 0.08:
        ctx.trivial("hardly any overlap")
        return
    T, G = T[keep], G[keep]
    X = draw(lambda n, g: rr.rejection_sample(shapes, bound, n, rng=g), case, 3)
    ctx.label(case["how"], f"{len(os)} shapes")
    what = f"rejection_sample ({case['how']})"
    H = np.array([[o.gauge(p) <= 1 for o in os] for p in X])
    feats = [(f"in shape {i}", H[:, i], G[:, i]) for i in range(len(os))]
    if len(os) > 1:
        feats.append(("in two shapes or more", H.sum(axis=1) > 1, G.sum(axis=1) > 1))
    for _ in range(5):
        u = unit(rng.normal(size=3))
        t = np.quantile(T @ u, rng.uniform(0.1, 0.9))
        feats.append((f"below {t:.3f} along {u.round(3).tolist()}", X @ u <= t, T @ u <= t))
    for name, h, g in feats:
        p, q = h.mean(), g.mean()
        w = (h.sum() + g.sum()) / (len(h) + len(g))
        sd = math.sqrt(max(w * (1 - w), 1e-12) * (1 / len(h) + 1 / len(g)))
        require(abs(p - q) <= 7 * sd + 12 / len(h), f"{what}: {p:.4f} of the samples are {name}, {q:.4f} of the region is (standard error {sd:.2g})")


def ell_nd(case, ctx):
    s = case["s"]
    b, o = build(s), oracle(s)
    d = o.dim
    ctx.label(f"{d}D", case["how"], f"rank {o.rank}")
    X = draw(lambda n, g: b.random_points(n, rng=g), case, d)
    Y = to_local(o, X)[:, o.nz] / o.h[o.nz]
    rng = np.random.default_rng(case["seed"] + 1)
    if o.rank == d:
        ball_regions(Y, d, rng, ctx, f"{d}D ellipsoid ({case['how']})")


def helpers(case, ctx):
    d = case["d"]
    ctx.label(case["kind"], f"d={d}", case["how"])
    rng = np.random.default_rng(case["seed"] + 1)
    if case["kind"] == "ball":
        X = draw(lambda n, g: rr.random_points_in_ball(n, dim=d, rng=g), case, d)
        ball_regions(X, d, rng, ctx, f"{d}-ball ({case['how']})")
    else:
        X = draw(lambda n, g: rr.random_points_on_hypersphere(n, dim=d, rng=g), case, d + 1)
        for u in [unit(rng.normal(size=d + 1)) for _ in range(4)] + list(np.eye(d + 1)):
            t = rng.uniform(-0.9, 0.9)
            both(X @ u <= t, sphere_cap(d + 1, t), f"{d}-sphere ({case['how']}): below {t:.3f} along {u.round(3).tolist()}", ctx)


# ---- surfaces --------------------------------------------------------------------

def box_surface(case, ctx):
    s = case["s"]
    b, o = build(s), oracle(s)
    ctx.label(case["kind"], case["how"])
    rng = np.random.default_rng(case["seed"] + 1)
    h = o.h
    noise = max(1e-12 * scale_of(o) / h.min(), 1e-9)
    if noise > 1e-6:
        raise Inconclusive("ill conditioned")
    if case["kind"] == "surface":
        X = draw(lambda n, g: b.random_points_on_surface(n, rng=g), case, 3)
        Y = to_local(o, X) / h
        w = np.array([h[1] * h[2], h[0] * h[2], h[0] * h[1]])
        w = w / w.sum()
        on = np.abs(np.abs(Y) - 1) < 100 * noise
        for a in range(3):
            b1, b2 = [i for i in range(3) if i != a]
            for sg in (-1, 1):
                f = on[:, a] & (np.sign(Y[:, a]) == sg)
                both(f, w[a] / 2, f"box surface ({case['how']}): face {'-+'[sg > 0]}{'xyz'[a]} of half extents {h.tolist()}", ctx)
                t1, t2 = rng.uniform(-1, 1, size=2)
                both(f & (Y[:, b1] <= t1), w[a] / 2 * (t1 + 1) / 2, f"box surface ({case['how']}): part of a face", ctx)
                both(f & (Y[:, b1] <= t1) & (Y[:, b2] <= t2), w[a] / 2 * (t1 + 1) * (t2 + 1) / 4, f"box surface ({case['how']}): part of a face", ctx)
        solid_moments(o, X, np.array([h[a] ** 2 * (w[a] + (1 - w[a]) / 3) for a in range(3)]), "box surface")
    else:
        X = draw(lambda n, g: b.random_points_on_edges(n, rng=g), case, 3)
        Y = to_local(o, X) / h
        w = h / h.sum()
        on = np.abs(np.abs(Y) - 1) < 100 * noise
        for a in range(3):
            b1, b2 = [i for i in range(3) if i != a]
            for s1 in (-1, 1):
                for s2 in (-1, 1):
                    f = on[:, b1] & on[:, b2] & (np.sign(Y[:, b1]) == s1) & (np.sign(Y[:, b2]) == s2)
                    both(f, w[a] / 4, f"box edges ({case['how']}): one edge along {'xyz'[a]} of half extents {h.tolist()}", ctx)
                    t = rng.uniform(-1, 1)
                    both(f & (Y[:, a] <= t), w[a] / 4 * (t + 1) / 2, f"box edges ({case['how']}): part of an edge", ctx)
        solid_moments(o, X, np.array([h[a] ** 2 * (1 - w[a] * 2 / 3) for a in range(3)]), "box edges")


_NODES = np.polynomial.legendre.leggauss(500)


def axis_share(h, a, t):
    """Share of the surface of an ellipsoid with unit-ball coordinate u_a <= t (d = 2, 3)."""
    h = np.asarray(h, float)
    d = len(h)
    if d == 2:
        # angle from the axis a: u_a = cos(x), the other sin(x); arc length element
        b = 1 - a
        xs, ws = _NODES
        def part(lo, hi):
            x = lo + (hi - lo) * (xs + 1) / 2
            return (hi - lo) / 2 * float(ws @ np.sqrt((h[a] * np.sin(x)) ** 2 + (h[b] * np.cos(x)) ** 2))
        al = math.acos(t)
        return part(al, math.pi) / part(0, math.pi)
    b, c = [i for i in range(3) if i != a]
    n = 400 if max(h) <= 8 * min(h) else 2000
    ph = (np.arange(n) + 0.5) / n * 2 * math.pi
    xs, ws = _NODES

    def part(lo, hi):
        z = lo + (hi - lo) * (xs + 1) / 2
        rho = np.sqrt(np.maximum(1 - z * z, 0))[:, None]
        # element on the unit sphere is dz dphi
        e = np.sqrt((z[:, None] / h[a]) ** 2 + (rho * np.cos(ph) / h[b]) ** 2 + (rho * np.sin(ph) / h[c]) ** 2)
        return (hi - lo) / 2 * float(ws @ e.mean(axis=1))
    return part(-1, t) / part(-1, 1)


def ell_surface(case, ctx):
    s = case["s"]
    b, o = build(s), oracle(s)
    d = o.dim
    ctx.label(f"{d}D", case["how"])
    rng = np.random.default_rng(case["seed"] + 1)
    X = draw(lambda n, g: b.random_points_on_surface(n, rng=g), case, d)
    U = to_local(o, X) / o.h
    what = f"surface of the {d}D ellipsoid {o.h.tolist()} ({case['how']})"
    if d == 1:
        both(U[:, 0] > 0, 0.5, what + ": positive end", ctx)
        return
    # by symmetry every orthant has the same share
    both((U > 0).all(axis=1), 0.5 ** d, what + ": first orthant", ctx)
    for a in range(d):
        both(U[:, a] > 0, 0.5, f"{what}: half along axis {a}", ctx)
    if d <= 3:
        for a in range(d):
            for t in (-0.99, -0.9, 0.0, 0.6, rng.uniform(-0.95, 0.95)):
                p = axis_share(o.h, a, t)
                both(U[:, a] <= t, p, f"{what}: below {t:.3f} along axis {a}", ctx)
                both(np.abs(U[:, a]) <= abs(t), 1 - 2 * axis_share(o.h, a, -abs(t)), f"{what}: within {abs(t):.3f} along axis {a}", ctx)
    else:
        # weighted reference sample
        W = rng.normal(size=(200000, d))
        W /= np.linalg.norm(W, axis=1)[:, None]
        w = np.linalg.norm(W / o.h, axis=1)
        for a in range(d):
            t = rng.uniform(0.2, 0.8)
            f = np.abs(W[:, a]) <= t
            q = float(w[f].sum() / w.sum())
            sq = math.sqrt(float((w ** 2 * (f - q) ** 2).sum())) / w.sum()
            hit = np.abs(U[:, a]) <= t
            sd = math.sqrt(sq ** 2 + max(q * (1 - q), 1e-9) / len(hit))
            require(abs(hit.mean() - q) <= 7 * sd + 12 / len(hit), f"{what}: {hit.mean():.4f} of the samples within {t:.3f} along axis {a}, share {q:.4f}")


def reseeded(case):
    """A violation must recur for most other seeds (no false alarm by chance)."""
    return [dict(case, seed=(case["seed"] + 1000003 * (i + 1)) % (2 ** 31 - 10000)) for i in range(6)]


_how = st.sampled_from(["one", "one", "array", "single", "seeds", "small"])
_base = dict(n=st.sampled_from([4000, 20000]), seed=st.integers(0, 2 ** 31 - 10 ** 5), how=_how)
_T = dict(moved=st.booleans(), T=gen.transform(3, far=False))
_solid = st.one_of(gen.box(), gen.ell(3), gen.cyl(), gen.cap(wide=False, limit=6))
_in = st.one_of(gen.box(wide=False, far=False, limit=4), gen.ell(3, wide=False, far=False, limit=4), gen.cyl(wide=False, far=False, limit=4))

PROP = Prop("C25", [
    Sub("solid", lambda: gen.fd(s=_solid, **_T, **_base), solid, 260, 4000, chunk=20, hang=120, confirm=reseeded,
        rule="boxes, ellipsoids, cylinders and capsules of every aspect and pose: shares of sub-boxes, balls, caps and slabs; moments; first half and pairs of the output"),
    Sub("ell_nd", lambda: st.integers(1, 5).flatmap(lambda n: gen.fd(s=gen.ell(n), **_base)), ell_nd, 100, 1500, chunk=20, hang=120, confirm=reseeded, rule="ellipsoids in 1-5 dimensions"),
    Sub("helpers", lambda: gen.fd(d=st.integers(1, 6), kind=st.sampled_from(["ball", "sphere"]), **_base), helpers, 120, 1500, chunk=20, hang=120, confirm=reseeded, rule="balls and spheres of every dimension to 6"),
    Sub("box_surface", lambda: gen.fd(s=gen.box(limit=50), kind=st.sampled_from(["surface", "edges"]), **_base), box_surface, 160, 2500, chunk=20, hang=120, confirm=reseeded,
        rule="box surfaces and edges: every face and edge and part of them"),
    Sub("ell_surface", lambda: st.sampled_from([3, 3, 2, 4, 1]).flatmap(lambda n: gen.fd(s=st.one_of(gen.ell(n, limit=6), gen.ell(n, limit=50)), **_base)), ell_surface, 120, 2000, chunk=10, hang=200, confirm=reseeded,
        rule="ellipsoid surfaces in 1-4 dimensions against surface integrals"),
    Sub("rejection", lambda: gen.fd(bound=gen.box(wide=False, far=False, limit=4), shapes=st.lists(_in, min_size=1, max_size=2), n=st.just(4000), seed=_base["seed"], how=st.sampled_from(["one", "array", "small"])), rejection, 60, 800,
        chunk=10, hang=200, confirm=reseeded, rule="rejection sampling from unions against an independent sample"),
], assumptions=["each comparison has error probability below 1e-9 and a violation must recur with at least half of six other seeds"])
