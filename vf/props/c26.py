"""C26: analytic density parameters and volumes equal the true integrals."""
import itertools
import math

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import J_of, arr, build, inst, jitter, moved, near, oracle, pose_of, require, scale_of
from ..harness import Inconclusive, Prop, Sub, Violation


# ---- quadrature rules: (weights, local points) --------------------------------

def gauss(n):
    return np.polynomial.legendre.leggauss(n)


def rule_box(h):
    x, w = gauss(3)
    P = [(h[0] * x[i], h[1] * x[j], h[2] * x[k]) for i, j, k in itertools.product(range(3), repeat=3)]
    W = [w[i] * w[j] * w[k] for i, j, k in itertools.product(range(3), repeat=3)]
    return np.array(W), np.array(P)


def sphere_points(n=6, m=12):
    z, w = gauss(n)
    ph = (np.arange(m) + 0.5) / m * 2 * math.pi
    P = [[math.sqrt(1 - a * a) * math.cos(b), math.sqrt(1 - a * a) * math.sin(b), a] for a in z for b in ph]
    return np.repeat(w, m), np.array(P)


def rule_ell(h):
    r, wr = gauss(6)
    r, wr = (r + 1) / 2, wr / 2
    ws, S = sphere_points()
    P = np.vstack([a * S for a in r]) * h
    W = np.concatenate([wa * a * a * ws for a, wa in zip(r, wr)])
    return W, P


def rule_cyl(L, R):
    r, wr = gauss(5)
    r, wr = (r + 1) / 2, wr / 2
    z, wz = gauss(3)
    ph = (np.arange(8) + 0.25) / 8 * 2 * math.pi
    P = [(R * a * math.cos(t), R * a * math.sin(t), L / 2 * b) for a in r for t in ph for b in z]
    W = [a * wa * wb for a, wa in zip(r, wr) for t in ph for wb in wz]
    return np.array(W), np.array(P)


def rule_faces(h):
    x, w = gauss(3)
    P, W = [], []
    for a in range(3):
        b, c = [i for i in range(3) if i != a]
        for s in (-1, 1):
            for i in range(3):
                for j in range(3):
                    p = np.zeros(3)
                    p[a], p[b], p[c] = s * h[a], h[b] * x[i], h[c] * x[j]
                    P.append(p)
                    W.append(h[b] * h[c] * w[i] * w[j])
    return np.array(W), np.array(P)


def rule_edges(h):
    x, w = gauss(3)
    P, W = [], []
    for a in range(3):
        b, c = [i for i in range(3) if i != a]
        for s, t in itertools.product((-1, 1), repeat=2):
            for i in range(3):
                p = np.zeros(3)
                p[a], p[b], p[c] = h[a] * x[i], s * h[b], t * h[c]
                P.append(p)
                W.append(h[a] * w[i])
    return np.array(W), np.array(P)


def rule_shell(h):
    """Surface element of the ellipsoid on the parametrisation by the unit sphere."""
    ws, S = sphere_points(300, 400)
    h = np.asarray(h, float)
    return ws * np.prod(h) * np.linalg.norm(S / h, axis=1), S * h


def J_rule(rule, m, R, c):
    W, P = rule
    W = m * W / W.sum()
    Q = np.hstack((P @ R.T + c, np.ones((len(P), 1))))
    return (Q * W[:, None]).T @ Q


def check_params(q, J, m, o, what, rtol=1e-11):
    inst(q, rg.InertialParameters, what)
    s = o.size + np.abs(o.c).max()
    G = arr(q.J, (4, 4), what + ": J")
    scale = m * np.array([[s * s] * 3 + [s]] * 3 + [[s] * 3 + [1.0]])
    if np.any(np.abs(G - J) > rtol * scale + 1e-300):
        raise Violation(f"{what}: pseudo-inertia matrix {G.tolist()}, the integral is {J.tolist()}")
    # the spread about the centre, not drowned by the offset
    T = np.eye(4)
    T[:3, 3] = -o.c
    noise = 1e-14 * m * s * s
    d = np.abs(T @ (G - J) @ T.T)[:3, :3]
    require(d.max() <= rtol * m * o.size ** 2 + 10 * noise, f"{what}: second moments about the centre are off by {d.max():.3g} (size {o.size})")


def posed(case):
    b, o = build(case["s"]), oracle(case["s"])
    if case["moved"]:
        R, t = pose_of(case)
        b, o = b.transform(rotation=R, translation=t), moved(o, R, t)
    return b, o


def density(case, ctx):
    b, o = posed(case)
    m, k = case["m"], case["s"]["k"]
    ctx.label(k, f"rank {o.rank}", "massless" if m == 0 else "mass")
    if k == "box":
        kinds = {"uniform": (b.uniform_density_params, rule_box(o.h))}
        if (o.h > 0).sum() >= 2:
            kinds["hollow"] = (b.hollow_density_params, rule_faces(o.h))
        if (o.h > 0).any():
            kinds["wireframe"] = (b.wireframe_density_params, rule_edges(o.h))
    elif k == "ell":
        kinds = {"uniform": (b.uniform_density_params, rule_ell(o.h))}
        if np.ptp(o.h) == 0 and o.h[0] > 0:
            kinds["hollow"] = (b.hollow_density_params, sphere_points_scaled(o.h))
    else:
        kinds = {"uniform": (b.uniform_density_params, rule_cyl(o.L, o.r))}
    for name, (f, rule) in kinds.items():
        q = f(m)
        check_params(q, J_rule(rule, m, o.R, o.c), m, o, f"{k}.{name}_density_params({m})")
        # linear in the mass
        q2 = f(mass=2.5 * m)
        near(q2.J, 2.5 * np.asarray(q.J), 1e-12, 1e-13 * m * scale_of(o) ** 2, what=f"{k}.{name}_density_params of 2.5 times the mass")
        try:
            f(-1.0)
        except (AssertionError, ValueError):
            continue
        raise Violation(f"{k}.{name}_density_params accepts a negative mass")


def sphere_points_scaled(h):
    W, P = sphere_points()
    return W, P * h


def vertices(case, ctx):
    b, o = posed(case)
    V = np.asarray(b.vertices, float)
    m = case["m"]
    ctx.label(case["s"]["k"], case["form"])
    n = len(V)
    require(n == len(o.V), f"{n} vertices, expected {len(o.V)}")
    if case["form"] == "scalar":
        w = np.full(n, m / n)
        q = b.vertex_point_mass_params(m)
    else:
        rng = np.random.default_rng(case["seed"])
        w = m * rng.random(n) * (rng.random(n) < 0.7)
        q = b.vertex_point_mass_params(w if case["form"] == "array" else w.tolist())
    check_params(q, J_of(w, V), max(w.sum(), 0), o, f"vertex_point_mass_params ({case['form']})")
    if case["form"] == "scalar":
        check_params(q, J_of(np.full(n, m / n), o.V), m, o, "vertex_point_mass_params (scalar)")
    for bad in (np.full(n, -1.0), np.ones(n + 1), -1.0):
        try:
            b.vertex_point_mass_params(bad)
        except (AssertionError, ValueError):
            continue
        raise Violation(f"vertex_point_mass_params accepts {'a wrong number of masses' if np.size(bad) == n + 1 else 'negative masses'}")


def volumes(case, ctx):
    b, o = posed(case)
    k = case["s"]["k"]
    ctx.label(k, f"rank {o.rank}")
    v = float(arr(b.volume, (), "volume"))
    require(abs(v - o.volume) <= 1e-12 * o.volume, f"{k}.volume is {v}, expected {o.volume}")
    if k == "box":
        near(b.side_lengths, 2 * o.h, 1e-14, 0, what="side_lengths")
        d = max(np.linalg.norm(p - q) for p in o.V for q in o.V)
        require(abs(float(b.diaglen) - 2 * np.linalg.norm(o.h)) <= 1e-13 * d and abs(float(b.diaglen) - d) <= 1e-12 * scale_of(o), f"diaglen is {b.diaglen}, the longest diagonal is {d}")


def volume_nd(case, ctx):
    s = case["s"]
    b, o = build(s), oracle(s)
    d = o.dim
    ctx.label(f"{d}D", f"rank {o.rank}")
    # independent recurrence for the volume of the unit ball
    V = [1.0, 2.0]
    for i in range(2, d + 1):
        V.append(2 * math.pi / i * V[i - 2])
    want = V[d] * float(np.prod(o.h))
    v = float(arr(b.volume, (), "volume"))
    require(abs(v - want) <= 1e-12 * want, f"volume of the {d}D ellipsoid {o.h.tolist()} is {v}, expected {want}")
    if o.rank == d:
        r = 1.7
        w = float(rg.Ellipsoid(half_extents=r * o.h).volume)
        require(abs(w - want * r ** d) <= 1e-11 * w, f"scaling a {d}D ellipsoid by {r} scales its volume by {w / want}")


def shell_limit(h):
    """What Ellipsoid.hollow_density_params is known to return (see KNOWN_FINDINGS.txt).

    Derivative of the moments of the solid ellipsoid when every half extent
    grows by the same length: the shell of constant growth, not uniform area.
    """
    h = np.asarray(h, float)
    x, y, z = h
    d = 5 * (x * y + x * z + y * z)
    return np.diag([x ** 2 * (x * y + x * z + 3 * y * z) / d, y ** 2 * (x * y + 3 * x * z + y * z) / d, z ** 2 * (3 * x * y + x * z + y * z) / d])


def hollow_ell(case, ctx):
    b, o = posed(case)
    m = case["m"]
    q = b.hollow_density_params(m)
    strict = case.get("strict", False)
    if not strict:
        K = np.zeros((4, 4))
        K[:3, :3] = m * (o.R @ shell_limit(o.h) @ o.R.T + np.outer(o.c, o.c))
        K[:3, 3] = K[3, :3] = m * o.c
        K[3, 3] = m
        G = arr(q.J, (4, 4), "J")
        if np.abs(G - K).max() <= 1e-10 * m * (1 + scale_of(o) ** 2):
            ctx.label("known finding: shell of constant growth")
            return
    ctx.label("strict")
    J = J_rule(rule_shell(o.h), m, o.R, o.c)
    check_params(q, J, m, o, f"ell.hollow_density_params({m}) of half extents {o.h.tolist()}", rtol=1e-4)


_T = dict(moved=st.booleans(), T=gen.transform(3), m=st.one_of([st.just(0.0)] + [gen.masses] * 5))
_m = dict(_T, m=gen.masses)
_d = st.one_of(gen.box(degenerate=True), gen.box(degenerate=True), gen.ell(3, degenerate=True), gen.cyl(degenerate=True))
_v = st.one_of(gen.box(degenerate=True), gen.ell(3, degenerate=True), gen.cyl(degenerate=True))

PROP = Prop("C26", [
    Sub("density", lambda: gen.fd(s=_d, **_T), density, 4000, 50000, chunk=1000, rule="solid, hollow and wireframe boxes, solid ellipsoids and cylinders, hollow spheres; any pose, flat ones too, massless too"),
    Sub("vertices", lambda: gen.fd(s=st.one_of(gen.poly(), gen.cbox(), gen.box()), seed=gen.seeds, form=st.sampled_from(["scalar", "array", "list"]), **_T), vertices, 1500, 15000, confirm=jitter,
        rule="point masses at the vertices of polyhedra and boxes, one total or one per vertex"),
    Sub("volumes", lambda: gen.fd(s=_v, **_T), volumes, 2500, 25000, rule="volumes, side lengths and diagonals"),
    Sub("volume_nd", lambda: st.integers(1, 7).flatmap(lambda n: gen.fd(s=gen.ell(n, degenerate=True))), volume_nd, 1500, 15000, rule="volumes of ellipsoids in 1-7 dimensions"),
    Sub("hollow_ell", lambda: gen.fd(s=gen.ell(3, wide=False, limit=8), **_m), hollow_ell, 200, 2000, chunk=50, rule="hollow ellipsoids against the surface integral (the listed known formula is accepted and counted)"),
], assumptions=["Ellipsoid.hollow_density_params is a known finding: its known formula is accepted, anything else must be the surface integral"])
