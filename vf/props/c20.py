"""C20: realizability constraints exclude what the theory says they exclude."""
import cvxpy as cp
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen, sdp
from ..geo import build, build_all, moved, oracle, points_in, require, rot, tvec, unit
from ..harness import Prop, Sub, Violation


def lin_D(v):
    """<D, J> = v.h"""
    D = np.zeros((4, 4))
    D[:3, 3] = D[3, :3] = np.asarray(v) / 2
    return D


def spread_D(v, l, u):
    """<D, J> = sum m (v.x - l)(v.x - u)"""
    D = np.zeros((4, 4))
    D[:3, :3] = np.outer(v, v)
    D[:3, 3] = D[3, :3] = -(l + u) / 2 * np.asarray(v)
    D[3, 3] = l * u
    return D


def directions(o, case, k=2):
    rng = np.random.default_rng(case["seed"])
    out = [unit(rng.normal(size=3)) for _ in range(k - 1)]
    if hasattr(o, "R"):
        out.append(o.R[:, rng.integers(3)] * rng.choice([-1, 1]))
    else:
        out.append(unit(rng.normal(size=3)))
    return out


def excluded(sup, o, case, m, flat):
    """CoM inside; second moment along any direction bounded by the extent."""
    tol = (3e-3 if flat else 1e-4) * m
    s = o.size + np.abs(o.c).max() + 0.1
    for v in directions(o, case):
        u, l = o.sup(v), -o.sup(-v)
        a = sup(lin_D(v))
        require(a <= m * u + tol * s, f"{sup.what}: CoM can reach {a / m} in direction {v.tolist()}, the shape only {u}")
        require(a >= m * u - tol * s, f"{sup.what}: CoM only reaches {a / m} in direction {v.tolist()}, the shape {u}")
        a = sup(spread_D(v, l, u))
        require(a <= tol * s * s, f"{sup.what}: second moment in direction {v.tolist()} exceeds that of masses at the two ends by {a / m}")


def bounds(case, ctx):
    c = case["f"]
    s, fam = c["s"], c["family"]
    o = oracle(s)
    m = case["m"]
    flat = o.rank < 3
    ctx.label(s["k"], fam, case["var"], f"rank={o.rank}", "turned" if s["R"] else "axis-aligned", "offset" if s["c"] and any(s["c"]) else "centred")
    shape = build(s)
    sup = sdp.Sup(shape, fam, case["var"], mass=m)
    excluded(sup, o, case, m, flat)
    rng = np.random.default_rng(case["seed"] + 1)
    size = max(o.size, 1e-3)
    for _ in range(2):
        if fam == "ell":
            # exact: the S-lemma
            D = sdp.random_D(rng, size, o.c)
            want = m * sdp.quad_sup_ell(D, o.h, o.R, o.c)
        elif fam == "vertex":
            # a convex objective is largest at a vertex
            D = sdp.random_D(rng, size, o.c)
            lam, V = np.linalg.eigh(D[:3, :3])
            D[:3, :3] = (V * np.abs(lam)) @ V.T
            want = m * max(sdp.quad(D, x) for x in o.V)
        elif fam == "custom" and s["k"] == "box":
            # an objective convex along each box axis is largest at a vertex
            B = rng.normal(size=(4, 4))
            B = B + B.T
            B[[0, 1, 2], [0, 1, 2]] = np.abs(B[[0, 1, 2], [0, 1, 2]])
            D = in_frame(B, o, size)
            want = m * max(sdp.quad(D, x) for x in o.V)
        elif fam == "custom":
            # an objective convex along the axis is largest on one of the two end disks
            B = rng.normal(size=(4, 4))
            B = B + B.T
            B[2, 2] = abs(B[2, 2])
            D = in_frame(B, o, size)
            ends = [o.c + z * o.L / 2 * o.a for z in (1, -1)]
            want = m * max(sdp.quad_sup_ell(D, [o.r, o.r, 0], o.R, e) for e in ends)
        else:
            return
        got = sup(D)
        tol = (5e-3 if flat else 2e-4) * (m + abs(want))
        require(abs(got - want) <= tol, f"{sup.what}: the largest value of an objective is {got}, exact is {want}")


def in_frame(B, o, size):
    """Objective given in the shape's own normalised frame."""
    T = np.eye(4)
    T[:3, :3] = o.R.T / size
    T[:3, 3] = -o.R.T @ o.c / size
    return T.T @ B @ T


def tighter(case, ctx):
    """custom <= order 2; order 3 <= order 2; order 2 on a sub-shape <= order 2 on a super-shape is not assumed."""
    s = case["s"]
    o = oracle(s)
    shape = build(s)
    other = case["other"]
    loose = sdp.Sup(shape, "sdp", case["var"], d=1 if other == "order2" else 2)
    if other == "custom" and s["k"] == "poly":
        other = "vertex"
    ctx.label(s["k"], other)
    rng = np.random.default_rng(case["seed"])
    if other == "order3":
        tight = sdp.Sup(shape, "sdp", case["var"], d=3)
    elif other == "order2":
        tight = sdp.Sup(shape, "sdp", case["var"], d=2)
    else:
        tight = sdp.Sup(shape, other, "J")
    for _ in range(2):
        D = sdp.random_D(rng, o.size, o.c)
        if other == "vertex":
            # with a convex objective both are exact at best: vertices are optimal
            lam, V = np.linalg.eigh(D[:3, :3])
            D[:3, :3] = (V * np.abs(lam)) @ V.T
        a, b = tight(D), loose(D)
        require(a <= b + (5e-4 * (1 + abs(b)) if np.isfinite(b) else 0), f"{tight.what} allow {a}, {loose.what} only {b}")


class _Hull:
    def __init__(self, os):
        self.os = os
        self.c = np.mean([o.c for o in os], axis=0)
        self.size = max(np.linalg.norm(o.c - self.c) + o.size for o in os)

    def sup(self, v):
        return max(o.sup(v) for o in self.os)


def body(case, ctx):
    """A body allows exactly the sums of what its shapes allow."""
    os = [oracle(s) for s in case["shapes"]]
    shapes = build_all(case["shapes"])
    b = rg.RigidBody(shapes=shapes)
    d = case.get("d", 2)
    ctx.label(f"{len(os)} shapes", "+".join(sorted(s["k"] for s in case["shapes"])), case["var"], f"order {d}")
    sup = sdp.Sup(b, "body", case["var"], mass=case["m"], d=d)
    u = _Hull(os)
    if d > 1:
        excluded(sup, u, case, case["m"], False)
    rng = np.random.default_rng(case["seed"])
    single = [sdp.Sup(s, "ell" if isinstance(s, rg.Ellipsoid) else "sdp", "J", d=d) for s in shapes]
    for _ in range(2):
        D = sdp.random_D(rng, u.size, u.c)
        want = case["m"] * max(f(D) for f in single)
        got = sup(D)
        if np.isinf(want) or np.isinf(got):
            ctx.label("unbounded")
            require(want == got, f"{sup.what} of {len(os)} shapes: the largest value of an objective is {got}, over single shapes {want}")
            continue
        require(abs(got - want) <= 1e-3 * (case["m"] + abs(want)), f"{sup.what} of {len(os)} shapes: the largest value of an objective is {got}, over single shapes {want}")


_m = st.sampled_from([1.0, 1.0, 0.25, 4.0, 0.01, 30.0])
_cheap = st.one_of(gen.fd(s=sdp.s_box(True), family=st.sampled_from(["vertex", "custom"])), gen.fd(s=sdp.s_poly(False), family=st.just("vertex")),
                   gen.fd(s=sdp.s_cyl(True), family=st.just("custom")), gen.fd(s=sdp.s_ell(True), family=st.just("ell")), gen.fd(s=sdp.s_ell(True), family=st.just("ell")))
_sdp = gen.fd(s=sdp.s_shape(("box", "cyl", "cyl", "poly")), family=st.just("sdp"))

PROP = Prop("C20", [
    Sub("cheap", lambda: gen.fd(f=_cheap, m=_m, var=sdp.params, seed=gen.seeds), bounds, 700, 9000, max_inconclusive=0.1,
        rule="vertex, specific and ellipsoid constraints: CoM reach and second moments per direction, exact optima where they are known (S-lemma, vertices, end disks)"),
    Sub("sdp", lambda: gen.fd(f=_sdp, m=_m, var=sdp.params, seed=gen.seeds), bounds, 120, 2000, max_inconclusive=0.1, chunk=8,
        rule="order 2 moment relaxation: CoM reach and second moments per direction"),
    Sub("tighter", lambda: gen.fd(s=sdp.s_shape(("box", "cyl")), other=st.just("custom"), var=sdp.params, seed=gen.seeds), tighter, 64, 1200, max_inconclusive=0.1, chunk=4,
        rule="box and cylinder specific constraints are at least as tight as order 2"),
    Sub("order3", lambda: gen.fd(s=sdp.s_shape(("box", "cyl")), other=st.just("order3"), var=sdp.params, seed=gen.seeds), tighter, 8, 120, max_inconclusive=0.3, chunk=1,
        hang=200, hang_violates=False, rule="order 3 is at least as tight as order 2"),
    Sub("order2", lambda: gen.fd(s=sdp.s_shape(("box", "cyl", "poly")), other=st.just("order2"), var=sdp.params, seed=gen.seeds), tighter, 40, 800, max_inconclusive=0.3, chunk=5,
        rule="order 2 is at least as tight as order 1"),
    Sub("body", lambda: gen.fd(shapes=gen.shapes(sdp.s_shape(("ell", "cyl", "box", "ell", "poly")), 3), m=_m, d=st.sampled_from([2, 2, 2, 1, 1]), var=sdp.params, seed=gen.seeds), body, 48, 800,
        max_inconclusive=0.1, chunk=4, rule="bodies of 1-3 shapes against the best single shape"),
], assumptions=["optima are compared within 1e-4 to 1e-3 of the mass and size (solver accuracy)", "CLARABEL is used"])
