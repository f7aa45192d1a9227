"""C33: identification recovers the parameters that produced the data and returns the constrained optimum."""
import importlib.util
import os
import sys

import cvxpy as cp
import numpy as np
import rigeo as rg
from hypothesis import strategies as st
from scipy.optimize import nnls

from .. import gen, sdp
from ..geo import J_of, arr, build, build_all, hom, inst, near, oracle, points_in, require, rot, vec_of
from ..harness import Inconclusive, Prop, Sub, Violation
from .c21 import interior_body

_mod = None


def module():
    """The identification module (it lies outside the package's import graph)."""
    global _mod
    if _mod is None:
        root = os.path.dirname(os.path.abspath(rg.__file__))
        for p in (os.path.join(root, "identify.py"), os.path.join(root, "unused", "identify.py")):
            if os.path.exists(p):
                break
        spec = importlib.util.spec_from_file_location("rigeo.identify", p)
        m = importlib.util.module_from_spec(spec)
        sys.modules["rigeo.identify"] = m
        spec.loader.exec_module(m)
        _mod = m
    return _mod


def solved(f, *args, **kw):
    """Run a solve; an inaccurate solution is no verdict, any other failure is one."""
    try:
        return f(*args, **kw)
    except AssertionError as e:
        if "infeasible" in str(e) or "unbounded" in str(e):
            raise Violation(f"feasible identification problem: {e}") from e
        if "inaccurate" in str(e) or "limit" in str(e):
            raise Inconclusive("solver: " + str(e)[-40:]) from e
        raise


def regressors(rng, n, k):
    """n observations of k bodies: (n, 6, 10 k)."""
    out = []
    for _ in range(n):
        out.append(np.hstack([rg.RigidBody.regressor(rg.SV(linear=rng.normal(size=3), angular=rng.normal(size=3)), rg.SV(linear=rng.normal(size=3), angular=rng.normal(size=3))) for _ in range(k)]))
    return np.array(out)


def covariance(rng, kind):
    if kind == "none":
        return None
    if kind == "diag":
        return np.diag(10.0 ** rng.uniform(-1, 1, size=6))
    X = rng.normal(size=(6, 6))
    return X @ X.T + 0.3 * np.eye(6)


def value(As, bs, W, th):
    r = As @ th - bs
    return 0.5 / len(As) * float(np.sum(r * r) if W is None else np.einsum("ni,ij,nj->", r, W, r))


def gradient(As, bs, W, th):
    r = As @ th - bs
    return np.einsum("nik,ni->k", As, r if W is None else r @ W) / len(As)


def entropic(Js, J0s):
    out = 0.0
    for J, J0 in zip(Js, J0s):
        s, l = np.linalg.slogdet(J)
        if s <= 0:
            return np.inf
        out += -l + float(np.trace(np.linalg.solve(J0, J)))
    return out


def Jv(th):
    return sum(A * t for A, t in zip(sdp.vec_matrices(), th))


class _Several:
    """A body of several shapes: the first is the one its CoM may be bound to."""

    def __init__(self, os):
        self.os, self.first = os, os[0]
        self.c = os[0].c
        self.size = max(np.linalg.norm(o.c - self.c) + o.size for o in os)

    def sup(self, v):
        return max(o.sup(v) for o in self.os)


def setup(case):
    more = case.get("more") or [[]]
    specs = [[s] + more[i % len(more)] for i, s in enumerate(case["shapes"])]
    os_ = [_Several([oracle(s) for s in ss]) for ss in specs]
    k = len(os_)
    rng = np.random.default_rng(case["seed"])
    m = case["m"]
    J = [interior_body(o.os[:1] if case["com"] else o.os, m if case.get("even") else m * (1 + 0.5 * i), case["seed"] + i) for i, o in enumerate(os_)]
    if case.get("even"):
        # exactly the same mass
        for j in J:
            j[3, 3] = m
    th = np.concatenate([vec_of(j) for j in J])
    As = regressors(rng, case["n"] + 4 * k, k)
    S = covariance(rng, case["cov"])
    bodies = [rg.RigidBody(build_all(ss), rg.InertialParameters.from_pim(j)) for ss, j in zip(specs, J)]
    return os_, bodies, J, th, As, S, (None if S is None else np.linalg.inv(S)), rng


def identified(res, k):
    """Stacked vector of the result, with its parts checked."""
    require(len(res.params) == k, f"{len(res.params)} parameter sets for {k} bodies")
    v = []
    for p in res.params:
        inst(p, rg.InertialParameters, "identified parameters")
        v.append(arr(p.vec, (10,), "identified vector"))
        near(arr(p.J, (4, 4)), Jv(v[-1]), rtol=1e-9, atol=1e-9 * (1 + np.abs(v[-1]).max()), what="J of the identified parameters")
    require(isinstance(float(res.objective), float) and np.isfinite(res.objective), "objective is not a number")
    require(res.solve_time >= 0 and res.iters >= 0, "solve time or iterations negative")
    return np.concatenate(v)


def exact(case, ctx):
    """Data without noise from realizable bodies."""
    os_, bodies, J, th, As, S, W, rng = setup(case)
    bs = As @ th
    lam = min(float(np.linalg.eigvalsh(j).min()) for j in J)
    eps = case["eps"] * lam
    ctx.label(f"{len(os_)} bodies", case["cov"], "eps" if eps else "", "realizable" if case["must"] else "consistent only", "CoM bound" if case["com"] else "")
    kw = {}
    if case["com"]:
        kw["com_bounding_shapes"] = [b.shapes[0] for b in bodies]
    given = {"Σ": S, "ε": eps}
    if case["must"]:
        ctx.label("defaults left out")
    else:
        kw["must_realize"] = False
    # arguments at their defaults are left out
    p = module().IdentificationProblem(As=As, bs=bs, **{k: v for k, v in given.items() if v is not None and v != 0} if S is None else given, solver="CLARABEL")
    res = solved(p.solve, bodies, **kw)
    got = identified(res, len(bodies))
    s = 1 + np.abs(th).max()
    near(got, th, rtol=0, atol=2e-3 * s, what="parameters identified from exact data")
    require(value(As, bs, W, got) <= 1e-5 * s * s * (1 if W is None else np.abs(W).max()), f"residual of exact data is {value(As, bs, W, got):.3g}")


def optimum(case, ctx):
    """Noisy data: feasible, right objective, and optimal against feasible bodies."""
    os_, bodies, J, th, As, S, W, rng = setup(case)
    k = len(os_)
    size = np.abs(As @ th).max()
    noise = case["noise"] * size
    bs = As @ th + noise * rng.normal(size=(len(As), 6))
    if case["bias"]:
        # data of a body that is not realizable: its mass lies outside
        out = []
        for j, o in zip(J, os_):
            T = hom(np.eye(3), 1.5 * o.size * np.array([1.0, 0.3, -0.2]))
            out.append(vec_of(T @ j @ T.T))
        bs = As @ np.concatenate(out) + 0.2 * noise * rng.normal(size=(len(As), 6))
    lam = min(float(np.linalg.eigvalsh(j).min()) for j in J)
    eps = case["eps"] * lam
    g = case["gamma"]
    must, com = case["must"], case["com"]
    ctx.label(f"{k} bodies", case["cov"], "regularized" if g else "plain", "eps" if eps else "", "realizable" if must else "consistent only", "CoM bound" if com else "", "data of unrealizable bodies" if case["bias"] else "noise")
    ctx.label(f"{max(len(o.os) for o in os_)} shapes")
    kw = {}
    if com:
        kw["com_bounding_shapes"] = [b.shapes[0] for b in bodies]
    p = module().IdentificationProblem(As=As, bs=bs, Σ=S, γ=g, ε=eps, solver="CLARABEL")
    res = solved(p.solve, bodies, must_realize=must, **kw)
    x = identified(res, k)
    xs = [x[10 * i:10 * i + 10] for i in range(k)]
    Js = [Jv(v) for v in xs]
    sc = 1 + max(np.abs(x).max(), np.abs(th).max())

    def f(y):
        v = value(As, bs, W, y)
        return v + (g * entropic([Jv(y[10 * i:10 * i + 10]) for i in range(k)], J) if g else 0.0)
    fx = f(x)
    fs = 1 + abs(fx) + value(As, bs, W, th)
    require(abs(fx - res.objective) <= 1e-3 * fs, f"objective is reported as {res.objective}, its value at the returned parameters is {fx}")
    for i, (j, o) in enumerate(zip(Js, os_)):
        e = float(np.linalg.eigvalsh(j).min())
        require(e >= eps - 1e-5 * sc, f"body {i}: smallest eigenvalue {e}, ε={eps}")
        if must or com:
            for u in np.vstack((np.eye(3), -np.eye(3), rng.normal(size=(4, 3)))):
                a = float(u @ j[:3, 3]) - j[3, 3] * (o.first if com else o).sup(u)
                require(a <= 1e-4 * sc * (1 + o.size), f"body {i}: CoM leaves the shape by {a:.3g}")
        if must:
            fam = "body" if len(o.os) > 1 else "ell" if isinstance(bodies[i].shapes[0], rg.Ellipsoid) else "sdp"
            d = sdp.Project(bodies[i] if fam == "body" else bodies[i].shapes[0], fam, "J")((j + j.T) / 2)
            require(d <= 1e-3 * sc, f"body {i}: identified parameters are {d:.3g} away from the realizable set")
    # no feasible bodies are better, neither globally nor along the line towards them
    cand = [th]
    for _ in range(6):
        y = []
        for a in os_:
            o = a.first if com else a.os[rng.integers(len(a.os))]
            w = rng.random() * 2 + 0.3
            P = np.vstack((o.c + 0.9 * (points_in(o, int(rng.integers(2 ** 31)), 8, boundary=0.7) - o.c), o.c + 0.5 * o.rin * np.vstack((np.eye(3), -np.eye(3)))))
            q = rng.random(len(P)) + 0.1
            y.append(vec_of(J_of(case["m"] * w * q / q.sum(), P)))
        y = np.concatenate(y)
        if all(np.linalg.eigvalsh(Jv(y[10 * i:10 * i + 10])).min() >= eps for i in range(k)):
            cand.append(y)
    for y in cand:
        fy = f(y)
        require(fx <= fy + 1e-3 * (1 + abs(fy)), f"returned parameters have objective {fx}, other feasible ones {fy}")
        for t in (0.02, 0.2):
            z = x + t * (y - x)
            fz = f(z)
            require(fx <= fz + 1e-4 * (fs + abs(fy)), f"objective {fx} at the returned parameters drops to {fz} on the way to feasible ones")
    if not must and not com and not g and not eps:
        A = As.reshape(-1, 10 * k)
        b = bs.reshape(-1)
        if W is not None:
            L = np.linalg.cholesky(W).T
            A, b = (L @ As).reshape(-1, 10 * k), (bs @ L.T).reshape(-1)
        y = np.linalg.lstsq(A, b, rcond=None)[0]
        fy = value(As, bs, W, y)
        require(fx >= fy - 1e-4 * fs, f"objective {fx} below the unconstrained least squares {fy}")
        if all(np.linalg.eigvalsh(Jv(y[10 * i:10 * i + 10])).min() >= 1e-3 for i in range(k)):
            ctx.label("unconstrained optimum is consistent")
            require(abs(fx - fy) <= 1e-4 * fs, f"objective {fx}, least squares {fy}")


def regularizer(case, ctx):
    """-log det J + tr(J0^-1 J), smallest at J0."""
    rng = np.random.default_rng(case["seed"])
    k = case["k"]
    M = module()

    def spd():
        X = rng.normal(size=(4, 4))
        return X @ X.T + 0.2 * np.eye(4)
    J0s, Js = [spd() for _ in range(k)], [spd() for _ in range(k)]
    single = k == 1 and case["single"]
    ctx.label(f"{k} bodies", "bare matrix" if single else "list")
    Vs = [cp.Variable((4, 4), symmetric=True) for _ in range(k)]
    for V, J in zip(Vs, Js):
        V.value = J
    E = M.entropic_regularizer(Vs[0], J0s[0]) if single else M.entropic_regularizer(Vs, J0s)
    want = entropic(Js, J0s)
    got = float(E.value)
    require(abs(got - want) <= 1e-8 * (1 + abs(want)), f"entropic regularizer is {got}, by definition {want}")
    require(E.is_convex(), "entropic regularizer is not convex")
    for V, J in zip(Vs, J0s):
        V.value = J
    require(float(E.value) <= got + 1e-9 * (1 + abs(got)), "entropic regularizer is smaller away from the nominal value")
    # weighted least squares
    n, p = case["n"], case["p"]
    As, bs, S = rng.normal(size=(n, 6, p)), rng.normal(size=(n, 6)), covariance(rng, case["cov"])
    W = None if S is None else np.linalg.inv(S)
    x = rng.normal(size=p)
    cut = sorted(rng.integers(0, p + 1, size=2)) if case["split"] else None
    parts = [x] if cut is None else [q for q in np.split(x, cut) if len(q)]
    vs = [cp.Variable(len(q)) for q in parts]
    for v, q in zip(vs, parts):
        v.value = q
    E = M.least_squares_objective(vs, As, bs, W0=W)
    want = 2 * n * value(As, bs, W, x)
    require(abs(float(E.value) - want) <= 1e-8 * (1 + abs(want)), f"least squares objective is {float(E.value)}, by definition {want}")


def discretized(case, ctx):
    """Parameters as masses at given points: exactly non-negative least squares."""
    rng = np.random.default_rng(case["seed"])
    o = oracle(case["s"])
    P = points_in(o, case["seed"], case["np"], boundary=0.4)
    As = regressors(rng, case["n"] + 4, 1)
    S = covariance(rng, case["cov"])
    W = None if S is None else np.linalg.inv(S)
    mu = rng.random(len(P)) * (rng.random(len(P)) < 0.6) * case["m"]
    mu[0] = case["m"]
    th = vec_of(J_of(mu, P))
    bs = As @ th
    if case["noise"]:
        bs = bs + case["noise"] * np.abs(bs).max() * rng.normal(size=bs.shape)
    ctx.label(f"{len(P)} points", case["cov"], "noise" if case["noise"] else "exact", "CoM bound" if case["com"] else "")
    prob = module().DiscretizedIdentificationProblem(As=As, bs=bs, Σ=S, solver="CLARABEL")
    res = solved(prob.solve, P, com_bounding_shape=build(case["s"])) if case["com"] else solved(prob.solve, P)
    x = identified(res, 1)
    fx = value(As, bs, W, x)
    fs = 1 + fx + value(As, bs, W, 0 * x)
    require(abs(fx - res.objective) <= 1e-4 * fs, f"objective is reported as {res.objective}, its value at the returned parameters is {fx}")
    T = np.array([vec_of(J_of([1.0], p[None])) for p in P]).T
    L = np.eye(6) if W is None else np.linalg.cholesky(W).T
    q, rn = nnls((L @ As).reshape(-1, 10) @ T, (bs @ L.T).reshape(-1))
    best = 0.5 / len(As) * rn * rn
    # the CoM bound holds for masses inside anyway
    require(abs(fx - best) <= 2e-4 * fs, f"residual {fx}, the best masses at the points have {best}")
    # and the parameters belong to some masses at the points
    q, rn = nnls(np.vstack((T, 0 * T[:1])), np.append(x, 0))
    require(rn <= 1e-4 * (1 + np.abs(x).max()), f"returned parameters do not belong to masses at the points (off by {rn:.3g})")


_shape = sdp.s_shape(("ell", "cyl", "box", "ell", "poly"))
_more = st.one_of(st.just([[]]), st.lists(st.lists(_shape, max_size=2), min_size=1, max_size=2))
_m = st.sampled_from([1.0, 1.0, 0.25, 3.0])
_cov = st.sampled_from(["none", "none", "diag", "full"])
_eps = st.sampled_from([0, 0, 0.5])

PROP = Prop("C33", [
    Sub("exact", lambda: gen.fd(shapes=gen.shapes(_shape, 2), more=_more, m=_m, even=st.booleans(), n=st.integers(0, 6), cov=_cov, eps=_eps, must=st.booleans(), com=st.booleans(), seed=gen.seeds), exact, 160, 2000, chunk=8, max_inconclusive=0.1,
        rule="noise-free wrenches of one or two bodies inside their shapes"),
    Sub("optimum", lambda: gen.fd(shapes=gen.shapes(_shape, 2), more=_more, m=_m, even=st.booleans(), n=st.integers(0, 8), cov=_cov, eps=_eps, must=st.booleans(), com=st.booleans(), gamma=st.sampled_from([0, 0, 0.1, 1.0]),
                                  noise=st.sampled_from([0.01, 0.1, 0.5]), bias=st.booleans(), seed=gen.seeds), optimum, 240, 3000, chunk=6, max_inconclusive=0.2,
        rule="noisy or unrealizable data: feasibility, value and optimality of the result"),
    Sub("regularizer", lambda: gen.fd(k=st.integers(1, 3), single=st.booleans(), n=st.integers(1, 5), p=st.integers(1, 12), split=st.booleans(), cov=_cov, seed=gen.seeds), regularizer, 300, 4000,
        rule="entropic regularizer and least-squares objective at random values"),
    Sub("discretized", lambda: gen.fd(s=_shape, np=st.integers(1, 25), n=st.integers(0, 6), m=_m, cov=_cov, noise=st.sampled_from([0, 0.05, 0.3]), com=st.booleans(), seed=gen.seeds), discretized, 240, 3000, chunk=10, max_inconclusive=0.1,
        rule="masses at given points, against non-negative least squares"),
], assumptions=["solver accuracy 1e-3 of the data", "CLARABEL is used", "the module is loaded from src/rigeo/unused/identify.py as part of the package"])
