"""C19: realizability constraints admit every realizable body."""
import cvxpy as cp
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen, sdp
from ..geo import J_of, build, build_all, hom, moved, oracle, points_in, require, rot, tvec
from ..harness import Inconclusive, Prop, Sub, Violation
from .c21 import interior_body


def admitted(shape, family, o, case, ctx, d=2, objectives=2, bodies=2, flat=False):
    m = case["m"]
    Js = sdp.sample_bodies(o, case["seed"], bodies, m)
    size = o.size + np.abs(o.c).max() + 1e-300
    W = np.append(np.full(3, 1 / size), 1.0)  # J entries measured in units of the shape
    tol = 2e-3 if flat else 1e-4
    proj = sdp.Project(shape, family, case["var"], d=d)
    for J0, P in Js:
        e = proj(J0)
        # distance in J units: relative to the size of J
        ref = max(1.0, np.abs(J0).max())
        if not e <= tol * ref * 3:
            raise Violation(f"{proj.what}: the body with masses at {np.round(P, 6).tolist()[:4]} (mass {m}) is {e:.3g} away from the admitted set")
    sup = sdp.Sup(shape, family, case["var"], mass=m, d=d)
    rng = np.random.default_rng(case["seed"] + 5)
    X = points_in(o, case["seed"] + 9, 60, boundary=0.7)
    if hasattr(o, "V"):
        X = np.vstack((X, o.V))
    X1 = np.hstack((X, np.ones((len(X), 1))))
    for _ in range(objectives):
        D = sdp.random_D(rng, max(o.size, 1e-6), o.c)
        best = max(m * float(np.max(np.einsum("ni,ij,nj->n", X1, D, X1))), max(float(np.sum(D * J0)) for J0, _ in Js))
        v = sup(D)
        if not v >= best - tol * 10 * m * (1 + abs(best) / m):
            raise Violation(f"{sup.what}: the largest value of an objective is {v}, but a body inside has {best}")
    ctx.label(family, case["var"], "small mass" if m < 0.5 else "mass", case["s"]["k"] if "s" in case else "body")


def admit(case, ctx):
    c = case["f"]
    s, fam = c["s"], c["family"]
    o = oracle(s)
    flat = o.rank < 3
    ctx.label(f"rank={o.rank}", "turned" if s["R"] else "axis-aligned", "offset" if s["c"] and any(s["c"]) else "centred")
    admitted(build(s), fam, o, dict(case, s=s), ctx, d=case.get("d", 2), objectives=case.get("n", 2), flat=flat)


class _Union:
    """Points of several shapes (for sampling bodies only)."""
    dim = 3

    def __init__(self, os):
        self.os = os
        self.c = np.mean([o.c for o in os], axis=0)
        self.size = max(np.linalg.norm(o.c - self.c) + o.size for o in os)


def body(case, ctx):
    os = [oracle(s) for s in case["shapes"]]
    shapes = build_all(case["shapes"])
    m = case["m"]
    b = rg.RigidBody(shapes=shapes)
    d = case.get("d", 2)
    if case["split"]:
        b = sum(rg.RigidBody(shapes=[s]) for s in shapes)
    if case["T"]["R"] is not None or case["T"]["t"] is not None:
        R, t = rot(case["T"]["R"]), tvec(case["T"]["t"])
        b = b.transform(rotation=R, translation=t)
        os = [moved(o, R, t) for o in os]
    ctx.label(f"{len(os)} shapes", "+".join(sorted(s["k"] for s in case["shapes"])), case["var"], f"order {d}")
    rng = np.random.default_rng(case["seed"])
    u = _Union(os)
    proj = sdp.Project(b, "body", case["var"], d=d)
    Js = []
    for i in range(2):
        w = rng.random(len(os)) * (rng.random(len(os)) < 0.8) + 1e-3
        w *= m / w.sum()
        J0 = sum(sdp.sample_bodies(o, int(rng.integers(2 ** 31)), 1, x)[0][0] for o, x in zip(os, w))
        Js.append(J0)
        e = proj(J0)
        if not e <= 5e-4 * max(1.0, np.abs(J0).max()):
            raise Violation(f"{proj.what} of {len(os)} shapes: a body with masses {w.tolist()} in the shapes is {e:.3g} away from the admitted set")
    sup = sdp.Sup(b, "body", case["var"], mass=m, d=d)
    D = sdp.random_D(rng, u.size, u.c)
    X = np.vstack([points_in(o, case["seed"] + i, 40, boundary=0.7) for i, o in enumerate(os)])
    X1 = np.hstack((X, np.ones((len(X), 1))))
    best = m * float(np.max(np.einsum("ni,ij,nj->n", X1, D, X1)))
    v = sup(D)
    if not v >= best - 1e-3 * m * (1 + abs(best) / m):
        raise Violation(f"{sup.what}: the largest value of an objective is {v}, but a body inside has {best}")


def margin(case, ctx):
    """With eps > 0 realizable bodies whose eigenvalues are at least eps are admitted."""
    os = [oracle(s) for s in case["shapes"]]
    shapes = build_all(case["shapes"])
    m = case["m"]
    fams = sdp.FAMILIES[case["shapes"][0]["k"]]
    fam = "body" if len(shapes) > 1 or case["body"] else fams[case["fam"] % len(fams)]
    J0 = interior_body(os, m, case["seed"], case["w"])
    lam = float(np.linalg.eigvalsh(J0).min())
    eps = case["frac"] * lam
    ctx.label(f"{len(shapes)} shapes", fam, "part of the shapes empty" if len(shapes) > 1 and 0 in case["w"][:len(shapes)] else "all shapes carry mass")
    target = rg.RigidBody(shapes=shapes) if fam == "body" else shapes[0]
    proj = sdp.Project(target, fam, case["var"], eps=eps)
    e = proj(J0)
    require(e <= 1e-4 * max(1.0, np.abs(J0).max()), f"{proj.what} of {len(shapes)} shapes with eps={eps:.6g}: a body with smallest eigenvalue {lam:.6g} is {e:.3g} away from the admitted set")


def tilted(case, ctx):
    """Boxes turned by a fraction of a degree: no face may be treated as if it were aligned."""
    s, fam = case["s"], case["family"]
    o = oracle(s)
    m = case["m"]
    proj = sdp.Project(build(s), fam, case["var"])
    V = o.V - 1e-4 * (o.V - o.c)
    rng = np.random.default_rng(case["seed"])
    ctx.label(fam, case["var"])
    for v in V[rng.permutation(len(V))[:5]]:
        J0 = J_of([m], [v])
        e = proj(J0)
        require(e <= 5e-4 * m * max(1.0, v @ v), f"{proj.what} of a slightly turned box: a point mass at the corner {v.tolist()} is {e:.3g} away from the admitted set")


def feasibility(case, ctx):
    """The ready-made feasibility problem with the parameters as cvxpy parameter."""
    s = case["s"]
    o = oracle(s)
    shape = build(s)
    m = case["m"]
    if case["vec"]:
        var = cp.Parameter(10)
        put = lambda J: np.concatenate(([J[3, 3]], J[3, :3], _inertia(J)))
    else:
        var = cp.Parameter((4, 4), PSD=True)
        put = lambda J: (J + J.T) / 2
    problem = shape.moment_sdp_feasibility_problem(var)
    require(isinstance(problem, cp.Problem), "moment_sdp_feasibility_problem does not return a problem")
    # shrink the bodies a little towards the centre so that they are well inside
    rng = np.random.default_rng(case["seed"])
    ctx.label(s["k"], "vec" if case["vec"] else "J")
    for i in range(3):
        k = [4, 6, 10][rng.integers(3)]
        P = points_in(o, int(rng.integers(2 ** 31)), k, boundary=0.5)
        P = o.c + 0.9 * (P - o.c)
        w = rng.random(k) + 0.05
        J0 = J_of(m * w / w.sum(), P) + 0.02 * m * J_of(np.ones(6) / 6, o.c + 0.3 * o.rin * np.vstack((np.eye(3), -np.eye(3))))
        var.value = put(J0)
        k = sdp.run(problem, "feasibility problem")
        require(k == "optimal", f"feasibility problem is {k} for a body inside the shape")
    # a point mass well outside
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    x = o.supp(u) + 0.3 * o.size * u
    J0 = J_of([m], [x]) + 1e-3 * m * J_of(np.ones(6) / 6, x + 0.1 * o.rin * np.vstack((np.eye(3), -np.eye(3))))
    var.value = put(J0)
    k = sdp.run(problem, "feasibility problem")
    require(k == "infeasible", f"feasibility problem is {k} for a body at {x.tolist()} outside the shape")


def _inertia(J):
    H = J[:3, :3]
    I = np.trace(H) * np.eye(3) - H
    return [I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]]


_m = st.sampled_from([1.0, 1.0, 0.25, 4.0, 0.01, 30.0])
_cheap = st.one_of(gen.fd(s=sdp.s_box(True), family=st.sampled_from(["vertex", "custom"])), gen.fd(s=sdp.s_poly(False), family=st.just("vertex")),
                   gen.fd(s=sdp.s_cyl(True), family=st.just("custom")), gen.fd(s=sdp.s_ell(True), family=st.just("ell")), gen.fd(s=sdp.s_ell(True), family=st.just("ell")))
_sdp = gen.fd(s=sdp.s_shape(("box", "cyl", "cyl", "poly")), family=st.just("sdp"))

_tilt = st.tuples(st.sampled_from([[0, 1], [0, 2], [1, 2]]), st.sampled_from([0.02, 0.03, 0.05, -0.04, 0.1, 0.3])).map(lambda t: [t[0] + [t[1]]])
_tilted = gen.fd(k=st.just("box"), h=st.lists(st.sampled_from([8.0, 4.0, 2.0, 0.5]), min_size=3, max_size=3), R=_tilt, c=st.one_of(st.none(), gen.vec(3, st.integers(-8, 8).map(lambda k: k / 8))), clear=st.just(True))

PROP = Prop("C19", [
    Sub("cheap", lambda: gen.fd(f=_cheap, m=_m, var=sdp.params, seed=gen.seeds), admit, 700, 9000, max_inconclusive=0.1,
        rule="vertex, box/cylinder specific and ellipsoid constraints (degenerate ellipsoids too): random bodies inside are admitted, linear objectives are not cut"),
    Sub("sdp", lambda: gen.fd(f=_sdp, m=_m, var=sdp.params, seed=gen.seeds, n=st.just(2)), admit, 120, 2000, max_inconclusive=0.1, chunk=8,
        rule="moment relaxation of order 2 on boxes, cylinders, polyhedra"),
    Sub("order3", lambda: gen.fd(f=gen.fd(s=sdp.s_shape(("cyl", "box")), family=st.just("sdp")), m=st.just(1.0), var=sdp.params, seed=gen.seeds, n=st.just(1), d=st.just(3)),
        admit, 8, 120, max_inconclusive=0.3, chunk=1, hang=200, hang_violates=False, rule="moment relaxation of order 3"),
    Sub("order1", lambda: gen.fd(f=_sdp, m=_m, var=sdp.params, seed=gen.seeds, n=st.just(2), d=st.just(1)), admit, 80, 1500, max_inconclusive=0.1, chunk=10,
        rule="moment relaxation of order 1 on boxes, cylinders, polyhedra"),
    Sub("body", lambda: gen.fd(shapes=gen.shapes(sdp.s_shape(("ell", "cyl", "box", "ell", "poly")), 3), m=_m, var=sdp.params, split=st.booleans(), d=st.sampled_from([2, 2, 2, 1]),
                               T=gen.fd(R=sdp._R, t=sdp._c), seed=gen.seeds), body, 60, 1000, max_inconclusive=0.1, chunk=5,
        rule="rigid bodies of 1-3 shapes (summed, moved): masses distributed over the shapes are admitted"),
    Sub("margin", lambda: gen.fd(shapes=gen.shapes(sdp.s_shape(("ell", "cyl", "box", "ell")), 3), m=_m, var=sdp.params, seed=gen.seeds, fam=st.integers(0, 5), body=st.booleans(),
                                 w=st.lists(st.sampled_from([0.0, 0.01, 1.0, 3.0]), min_size=3, max_size=3), frac=st.sampled_from([0.3, 0.9, 0.999])), margin, 90, 1500, max_inconclusive=0.1, chunk=6,
        rule="eps > 0: bodies with unevenly distributed (partly empty) shapes and smallest eigenvalue at least eps are admitted"),
    Sub("tilted", lambda: gen.fd(s=_tilted, family=st.sampled_from(["sdp", "sdp", "sdp", "vertex", "custom"]), m=st.sampled_from([1.0, 1.0, 4.0]), var=sdp.params, seed=gen.seeds), tilted, 40, 600, max_inconclusive=0.2, chunk=5,
        rule="long boxes turned by 0.02-0.3 degrees: point masses at the corners are admitted"),
    Sub("feasibility", lambda: gen.fd(s=sdp.s_shape(("box", "cyl", "poly")), m=_m, vec=st.booleans(), seed=gen.seeds), feasibility, 60, 800, max_inconclusive=0.1, chunk=5,
        rule="moment_sdp_feasibility_problem with a cvxpy parameter: feasible for bodies inside, infeasible for bodies well outside"),
], assumptions=["objectives are compared within 1e-3 of the mass (solver accuracy)", "CLARABEL is used"])
