"""C18: containment constraints describe exactly the shape (support functions by optimization)."""
import cvxpy as cp
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import PolyO, arr, body_directions, build, jitter, moved, oracle, require, rot, scale_of, tvec, unit
from ..harness import Inconclusive, Prop, Sub, Violation
from .c14 import Gen


def solve(problem, what):
    try:
        problem.solve(solver="CLARABEL")
    except cp.error.DCPError as e:
        raise Violation(f"{what}: constraints are not convex: {str(e)[:120]}") from e
    return problem.status


def optimum(problem, what, bounded=True):
    st_ = solve(problem, what)
    if st_ in ("optimal", "optimal_inaccurate"):
        return float(problem.value)
    if st_ in ("infeasible", "infeasible_inaccurate"):
        return -np.inf
    if st_ in ("unbounded", "unbounded_inaccurate"):
        return np.inf
    raise Inconclusive("solver: " + st_)


def cons(c, what):
    require(isinstance(c, list) and len(c) > 0 and all(isinstance(x, cp.constraints.constraint.Constraint) for x in c),
            f"{what} is not a list of constraints: {c!r:.200}")
    return c


def examine(s, o, case, ctx, n):
    D = body_directions(o, case["seed"], 3)
    rng = np.random.default_rng(case["seed"])
    D = D[rng.permutation(len(D))[:3]]
    big = scale_of(o)
    # a flat ellipsoid is a semidefinite constraint with a zero diagonal entry: the
    # solver's 1e-9 on that entry is 3e-5 on the point
    tol = (3e-6 if o.rank == n or isinstance(o, PolyO) else 5e-4) * (big + 1)
    form = case["form"]
    m = case["m"]
    ctx.label(form, f"rank={o.rank}/{n}")
    if form == "point":
        p = cp.Variable(n)
        u = cp.Parameter(n)
        prob = cp.Problem(cp.Maximize(u @ p), cons(s.must_contain(p), "must_contain(p)"))
        for d in D:
            u.value = d
            v = optimum(prob, "must_contain")
            h = o.sup(d)
            require(abs(v - h) <= tol, f"must_contain: support in direction {d.tolist()} is {v}, expected {h}")
        x = arr(p.value, (n,), "point")
    elif form == "fixed":
        # a given point is feasible exactly when it is in the shape
        p = cp.Variable(n)
        c = s.must_contain(p)
        b = o.boundary(D[0])
        for x, inside in ((o.c, True), (o.c + 0.97 * (b - o.c), True), (o.supp(D[1]) + 0.02 * (1 + big) * D[1], False)):
            r = cp.Problem(cp.Minimize(cp.norm(p - x)), c)
            v = optimum(r, "must_contain")
            if inside:
                require(v <= tol, f"must_contain: {x.tolist()} is in the shape but {v:.3g} from the feasible set")
            else:
                require(v >= 0.02 * (1 + big) - tol, f"must_contain: {x.tolist()} is outside the shape but {v:.3g} from the feasible set")
    elif form == "rows":
        k = case["k"]
        P = cp.Variable((k, n))
        W = np.array([D[i % len(D)] for i in range(k)])
        prob = cp.Problem(cp.Maximize(cp.sum(cp.multiply(W, P))), cons(s.must_contain(P), "must_contain(P)"))
        v = optimum(prob, "must_contain(P)")
        h = sum(o.sup(w) for w in W)
        require(abs(v - h) <= k * tol, f"must_contain({k} rows): support is {v}, expected {h}")
        X = arr(P.value, (k, n), "rows")
        for x, w in zip(X, W):
            require(w @ x <= o.sup(w) + tol * 10, f"must_contain({k} rows): row {x.tolist()} is outside the shape")
    elif form == "number":
        p = cp.Variable(n)
        u = cp.Parameter(n)
        prob = cp.Problem(cp.Maximize(u @ p), cons(s.must_contain(p, scale=m), "must_contain(p, scale)"))
        for d in D[:2]:
            u.value = d
            v = optimum(prob, "must_contain")
            h = m * o.sup(d)
            require(abs(v - h) <= tol * (1 + m), f"must_contain(scale={m}): support in direction {d.tolist()} is {v}, expected {h}")
    else:
        # scale is a variable in [lo, m]; the optimum of u.p - q*scale is at one end
        p, t = cp.Variable(n), cp.Variable()
        lo = case["lo"] * m
        if case["slice"]:
            J = cp.Variable((n + 1, n + 1))
            p, t = J[:n, n], J[n, n]
        c = cons(s.must_contain(p, scale=t), "must_contain(p, scale=variable)") + [t >= lo, t <= m]
        if case["slice"]:
            c += [cp.abs(J) <= 10 * (1 + m) * (1 + big)]
        for d, q in zip(D[:2], (0.5, -0.5)):
            h = o.sup(d)
            prob = cp.Problem(cp.Maximize(d @ p - (h + q * (1 + big)) * t), c)
            v = optimum(prob, "must_contain")
            w = (lo if q > 0 else m) * (-q) * (1 + big)
            require(abs(v - w) <= tol * 3 * (1 + m), f"must_contain(scale variable in [{lo}, {m}]): optimum is {v}, expected {w}")


def shape(case, ctx):
    ctx.label(case["s"]["k"])
    examine(build(case["s"]), oracle(case["s"]), case, ctx, 3)


def ell_nd(case, ctx):
    s = case["s"]
    n = len(s["h"])
    ctx.label(f"ell{n}")
    examine(build(s), oracle(s), case, ctx, n)


class _Hull(PolyO):
    """Any lattice polytope (flat or not)."""

    def __init__(self, V):
        self.V = V
        self.dim = V.shape[1]
        self.c = V.mean(axis=0)
        self._rank = int(np.linalg.matrix_rank(V - V[0]))

    @property
    def rank(self):
        return self._rank

    def boundary(self, u):
        return self.supp(u)


def poly_nd(case, ctx):
    n = case["n"]
    V = np.array([p[:n] for p in case["V"]], float) / case["den"]
    ctx.label(f"poly{n}")
    examine(rg.ConvexPolyhedron.from_vertices(V), _Hull(V), case, ctx, n)


def history(case, ctx):
    """Constraints of a moved shape; several shapes at once (intersection)."""
    o = oracle(case["s"])
    s = build(case["s"])
    R, t = rot(case["T"]["R"]), tvec(case["T"]["t"])
    s2, o2 = s.transform(rotation=R, translation=t), moved(o, R, t)
    ctx.label(case["s"]["k"])
    p = cp.Variable(3)
    u = unit(np.array(case["u"], float)) if any(case["u"]) else np.array([0, 0, 1.0])
    tol = (3e-6 if o.rank == 3 else 5e-4) * (1 + scale_of(o2) + scale_of(o))
    v = optimum(cp.Problem(cp.Maximize(u @ p), s2.must_contain(p)), "must_contain after transform")
    require(abs(v - o2.sup(u)) <= tol, f"must_contain after transform: support is {v}, expected {o2.sup(u)}")
    v = optimum(cp.Problem(cp.Maximize(u @ p), s.must_contain(p)), "must_contain of the original")
    require(abs(v - o.sup(u)) <= tol, f"must_contain of the original: support is {v}, expected {o.sup(u)}")
    # both at once for a relation between two points: p in s, q in s2, maximise u.(q - p)
    q = cp.Variable(3)
    v = optimum(cp.Problem(cp.Maximize(u @ (q - p)), s.must_contain(p) + s2.must_contain(q)), "two constraints")
    w = o2.sup(u) + o.sup(-u)
    require(abs(v - w) <= 2 * tol, f"two constraints together: optimum {v}, expected {w}")


_forms = st.sampled_from(["point", "fixed", "rows", "number", "variable"])


def case_(**kw):
    return gen.fd(form=_forms, m=st.one_of(gen.pos8, st.sampled_from([1.0, 0.01, 20.0])), lo=st.sampled_from([0.0, 0.25, 0.9]), slice=st.booleans(),
                  k=st.integers(1, 4), seed=gen.seeds, **kw)


_p = st.lists(st.integers(-3, 3), min_size=4, max_size=4)
_k = gen.shape3(degenerate=True, limit=20, far=False)
_far = gen.shape3(limit=20)

PROP = Prop("C18", [
    Sub("shape", lambda: case_(s=st.one_of(_k, _k, _far)), shape, 1500, 18000, max_inconclusive=0.1, confirm=jitter,
        rule="every 3D shape kind (degenerate too): one point, fixed points, rows, scale as number or variable; optimum compared with the support function"),
    Sub("ell_nd", lambda: st.integers(1, 5).flatmap(lambda n: case_(s=gen.ell(n, wide=False, degenerate=True, far=False, limit=20))), ell_nd, 500, 6000,
        max_inconclusive=0.1, confirm=jitter, rule="ellipsoids in 1-5 dimensions"),
    Sub("poly_nd", lambda: st.one_of([case_(n=st.just(n), V=st.lists(_p, min_size=1, max_size=8), den=st.sampled_from([1, 4])) for n in (1, 2, 3, 4)]), poly_nd,
        500, 6000, max_inconclusive=0.1, confirm=jitter, rule="lattice polytopes, flat ones too, in 1-4 dimensions"),
    Sub("moved", lambda: gen.fd(s=_k, T=gen.fd(R=gen.rotation(3, angle=gen.angle_clear), t=gen.center(3, False)), u=gen.vec(3, gen.eighths)), history, 400, 6000, max_inconclusive=0.1, confirm=jitter,
        rule="constraints after a rigid transform, of the original afterwards, and of both together"),
], assumptions=["optima are compared within 3e-6 of the problem size (solver accuracy), 5e-4 for flat shapes", "CLARABEL is used"])
