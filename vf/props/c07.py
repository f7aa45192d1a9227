"""C07: surface queries answer for exactly the boundary."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import BoxO, arr, body_directions, boolean, booleans, build, oracle, ortho_dirs, outward, require, scale_of, unit
from ..harness import Prop, Sub, Violation


def boundary_points(o, seed):
    D = body_directions(o, seed, 6)
    rng = np.random.default_rng(seed + 3)
    B = [o.boundary(u) for u in D] + [o.supp(u) for u in D]
    if isinstance(o, BoxO):
        B += list(o.V)
        # edge and face midpoints, random face points
        for i in range(12):
            s = rng.choice([-1.0, 0.0, 1.0], size=3)
            if not np.any(s):
                s[int(rng.integers(3))] = 1.0
            B.append(o.c + o.R @ (o.h * s))
            s = rng.uniform(-1, 1, size=3)
            s[int(rng.integers(3))] = rng.choice([-1.0, 1.0])
            B.append(o.c + o.R @ (o.h * s))
    return np.array(B)


def surface(case, ctx):
    spec = case["s"]
    o, s = oracle(spec), build(spec)
    degenerate = o.rank < o.dim
    ctx.label("kind=" + spec["k"], "dim=%d" % o.dim, "degenerate" if degenerate else "full", "rotated" if spec["R"] else "axis-aligned")
    B = boundary_points(o, case["seed"])
    got = booleans(s.on_surface(B), len(B), "on_surface(batch)")
    if not got.all():
        raise Violation(f"boundary point {B[int(np.argmin(got))].tolist()} of {spec} reported off the surface")
    for i in (0, len(B) // 2, len(B) - 1):
        require(boolean(s.on_surface(B[i]), "on_surface(point)"), f"single boundary point {B[i].tolist()} reported off the surface of {spec}")
        require(boolean(s.on_surface(B[i].tolist())), "list point and array point disagree")
    # off the boundary, inside and outside
    P, want = [], []
    rng = np.random.default_rng(case["seed"] + 1)
    for b in B:
        P.append(o.c + rng.choice([0.0, 0.2, 0.7, 0.99]) * (b - o.c))
        want.append(degenerate)
        d = b - o.c
        if np.linalg.norm(d) > 0 and o.gauge(b) > 1 - 1e-9:
            P.append(o.c + rng.choice([1.01, 1.3, 4.0]) * d)
            want.append(False)
        x, n = outward(o, d if np.linalg.norm(d) > 0 else np.ones(o.dim))
        P.append(x + (0.01 + rng.random()) * max(o.size, 0.01) * n)
        want.append(False)
    for w in ortho_dirs(o):
        P.append(B[0] + (0.05 + rng.random()) * max(o.size, 0.01) * w)
        want.append(False)
    if isinstance(o, BoxO):
        # on the plane of a face but outside the face, and at the mirrored coordinates
        for i in range(6):
            y = o.h * rng.uniform(-1, 1, size=3)
            k = int(rng.integers(3))
            y[k] = rng.choice([-1.0, 1.0]) * o.h[k]
            y[(k + 1) % 3] = (1.2 + rng.random()) * max(o.h[(k + 1) % 3], 0.05) * rng.choice([-1.0, 1.0])
            if o.h[(k + 1) % 3] == 0 or o.gauge(o.c + o.R @ y) > 1.1:
                P.append(o.c + o.R @ y)
                want.append(False)
    P, want = np.array(P), np.array(want)
    got = booleans(s.on_surface(P), len(P), "on_surface(batch)")
    bad = np.nonzero(got != want)[0]
    if len(bad):
        i = int(bad[0])
        raise Violation(f"on_surface({P[i].tolist()}) is {bool(got[i])}, expected {bool(want[i])} for {spec}")
    for i in (0, 1, len(P) - 1):
        require(boolean(s.on_surface(P[i])) == want[i], "single point and batch disagree")
    got = booleans(s.on_surface(P, tol=1e-7), len(P))
    require(np.array_equal(got, want), "on_surface(tol=1e-7) disagrees with the boundary")
    e = s.on_surface(np.zeros((0, o.dim)))
    booleans(e, 0, "on_surface(empty batch)")


def tolerance(case, ctx):
    spec, tol = case["s"], case["tol"]
    o, s = oracle(spec), build(spec)
    degenerate = o.rank < o.dim
    ctx.label("kind=" + spec["k"], f"tol={tol}", "degenerate" if degenerate else "full")
    rnd = 1e-13 * scale_of(o)
    n = 0
    for b in boundary_points(o, case["seed"])[:24]:
        for f in (-30.0, -3.0, -1.3, -0.7, -0.2, 0.2, 0.7, 1.3, 3.0, 30.0):
            d = b - o.c
            L = np.linalg.norm(d)
            if isinstance(o, BoxO):
                y = o.R.T @ d
                k = int(np.argmax([abs(y[i]) - o.h[i] for i in range(3)]))
                p = b + f * tol * o.R[:, k] * (np.sign(y[k]) or 1.0)
                z = np.abs(o.R.T @ (p - o.c)) - o.h
                out = z.max()
                gap = np.abs(z).min()
                if out <= 0.95 * tol - rnd and gap <= 0.95 * tol - rnd:
                    want = True
                elif out >= 1.05 * tol + rnd or gap >= 1.05 * tol + rnd:
                    want = False
                else:
                    continue
            else:
                if L == 0 or degenerate:
                    continue
                p = o.c + (1 + f * tol * (0.5 if case["rel"] else 1 / L)) * d
                g = o.gauge(p)
                q = abs(g * g - 1)
                lo, hi = abs(g - 1) * o.rrel, abs(g - 1) * L
                if q <= 0.95 * tol - 1e-11 and hi <= 0.95 * tol - rnd:
                    want = True
                elif q >= 1.05 * tol + 1e-11 and lo >= 1.05 * tol + rnd:
                    want = False
                else:
                    continue
            n += 1
            ctx.label(f"decided {want}")
            if boolean(s.on_surface(p, tol=tol)) != want:
                raise Violation(f"on_surface({p.tolist()}, tol={tol}) is {not want}, expected {want} for {spec}")
    if not n:
        ctx.trivial("nothing decided")


def shapes():
    return st.one_of(gen.box(degenerate=True), gen.ell(3, degenerate=True), st.integers(1, 5).flatmap(lambda n: gen.ell(n, degenerate=True)))


PROP = Prop("C07", [
    Sub("surface", lambda: gen.fd(s=shapes(), seed=gen.seeds), surface, 6000, 80000,
        rule="a box or ellipsoid (1-5D, degenerate included) with exact boundary points and clear non-boundary points"),
    Sub("tolerance", lambda: gen.fd(s=shapes(), seed=gen.seeds, tol=st.sampled_from([1e-6, 1e-4, 1e-3, 0.01, 0.1]), rel=st.booleans()),
        tolerance, 3000, 30000, rule="points at 0.2-30 times the tolerance on both sides of the boundary; trivial if none decided"),
])
