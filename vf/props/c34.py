"""C34: the distance between positive definite matrices is the affine-invariant metric."""
import importlib.util
import os

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import require, rot
from ..harness import Prop, Sub, Violation

_f = None


def distance(A, B):
    global _f
    if _f is None:
        root = os.path.dirname(os.path.abspath(rg.__file__))
        for p in (os.path.join(root, "geodesic.py"), os.path.join(root, "unused", "geodesic.py")):
            if os.path.exists(p):
                break
        spec = importlib.util.spec_from_file_location("rigeo.geodesic", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _f = m.positive_definite_distance
    a, b = A.copy(), B.copy()
    d = _f(A, B)
    require(np.array_equal(a, A) and np.array_equal(b, B), "arguments were changed")
    if np.iscomplexobj(d) or np.ndim(d) != 0 or not np.isfinite(d):
        raise Violation(f"distance is {d!r} for {A.tolist()} and {B.tolist()}")
    require(d >= 0, f"distance is negative: {d}")
    return float(d)


def base(rng, n, kind, spread):
    """An invertible matrix with known condition number."""
    if kind == "identity":
        return np.eye(n)
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    if kind == "orthogonal":
        return Q
    P = np.linalg.qr(rng.normal(size=(n, n)))[0]
    return (Q * np.exp(rng.uniform(-spread, spread, size=n))) @ P


def sym(X):
    return (X + X.T) / 2


def metric(case, ctx):
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    X = base(rng, n, case["kind"], 1.5)
    a = np.array(case["a"][:n], float)
    b = np.array(case["b"][:n], float)
    A = sym(X @ X.T)
    B = sym((X * np.exp(a)) @ X.T)
    cond = np.linalg.cond(A) * np.exp(np.ptp(np.append(np.concatenate((a, b)), 0)))
    tol = 1e-13 * n * cond * 10 + 1e-12
    if tol > 1e-3:
        ctx.trivial("ill conditioned")
        return
    ctx.label(f"n={n}", case["kind"], "equal" if not a.any() else "proportional" if np.ptp(a) == 0 else "repeated" if len(set(a.tolist())) < n else "distinct")
    want = np.sqrt(0.5 * np.sum(a ** 2))
    # close to zero an error e of the logarithms becomes e, not e^2
    d = distance(A, B)
    require(abs(d - want) <= tol * (1 + want), f"distance of X X' and X diag(exp({a.tolist()})) X' is {d}, exact is {want}")
    e = distance(B, A)
    require(abs(d - e) <= tol * (1 + want), f"distance is {d} one way and {e} the other")
    # coordinates: any invertible congruence
    Y = base(rng, n, "general", 1.0)
    c2 = cond * np.linalg.cond(Y) ** 2
    e = distance(sym(Y @ A @ Y.T), sym(Y @ B @ Y.T))
    require(abs(d - e) <= 1e-12 * n * c2 * (1 + want), f"distance changes from {d} to {e} with the coordinates")
    e = distance(7.5 * A, 7.5 * B)
    require(abs(d - e) <= tol * (1 + want), f"distance changes from {d} to {e} with the unit of mass")
    e = distance(sym(np.linalg.inv(A)), sym(np.linalg.inv(B)))
    require(abs(d - e) <= 10 * tol * np.linalg.cond(A) * (1 + want), f"distance changes from {d} to {e} for the inverses")
    # triangle inequality through a third matrix, equality on the geodesic
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    Z = X @ Q
    C = sym((Z * np.exp(b)) @ Z.T)
    f, g = distance(A, C), distance(C, B)
    require(d <= f + g + 2 * tol * (1 + f + g), f"triangle inequality: {d} > {f} + {g}")
    M = sym((X * np.exp(0.3 * a)) @ X.T)
    f, g = distance(A, M), distance(M, B)
    require(abs(f - 0.3 * d) <= 2 * tol * (1 + d) and abs(g - 0.7 * d) <= 2 * tol * (1 + d), f"point on the geodesic at {f}, {g} of {d}")


def bodies(case, ctx):
    """Pseudo-inertia matrices: independent of the frame and of the unit of mass."""
    rng = np.random.default_rng(case["seed"])

    def params():
        k = int(rng.integers(5, 9))
        return rg.InertialParameters.from_point_masses(masses=rng.random(k) + 0.2, points=rng.normal(size=(k, 3)))
    p, q = params(), params()
    R, t = rot(case["R"]), np.array(case["t"], float)
    A, B = p.J, q.J
    A2, B2 = p.transform(rotation=R, translation=t).J, q.transform(rotation=R, translation=t).J
    cond = max(np.linalg.cond(A2), np.linalg.cond(B2), np.linalg.cond(A), np.linalg.cond(B))
    if cond > 1e8:
        ctx.trivial("ill conditioned")
        return
    ctx.label("turned" if case["R"] else "shifted")
    d, e = distance(A, B), distance(A2, B2)
    require(abs(d - e) <= 1e-12 * cond * (1 + d), f"distance of two bodies is {d}, {e} after moving both")
    w = np.linalg.eigvals(np.linalg.solve(np.linalg.cholesky(A), np.linalg.solve(np.linalg.cholesky(A), B).T)).real
    want = np.sqrt(0.5 * np.sum(np.log(w) ** 2))
    require(abs(d - want) <= 1e-12 * cond * (1 + d), f"distance of two bodies is {d}, by definition {want}")


def diagonal(case, ctx):
    """Diagonal matrices of very different magnitudes, where the logarithms are known exactly."""
    n = case["n"]
    w, a = np.array(case["w"][:n], float), np.array(case["a"][:n], float)
    A, B = np.diag(2.0 ** w), np.diag(2.0 ** (w + a))
    want = np.log(2) * np.sqrt(0.5 * np.sum(a ** 2))
    ctx.label(f"n={n}", f"ratios up to 2^{int(np.abs(a).max())}")
    for X, Y in ((A, B), (B, A)):
        d = distance(X, Y)
        require(abs(d - want) <= 1e-9 * (1 + want), f"distance of diag(2^{np.diag(X).tolist()}) and diag(2^{np.diag(Y).tolist()}) is {d}, exact is {want}")


def shapes(case, ctx):
    """Matrices of different size are rejected."""
    rng = np.random.default_rng(case["seed"])
    A, B = (lambda n: np.eye(n) * (1 + rng.random()))(case["n"]), np.eye(case["k"]) * 2
    ctx.label(f"{case['n']} {case['k']}")
    if case["n"] == case["k"]:
        distance(A, B)
        return
    try:
        distance(A, B)
    except (AssertionError, ValueError):
        return
    raise Violation(f"matrices of size {case['n']} and {case['k']} are accepted")


_e = st.one_of(st.just(0.0), st.integers(-24, 24).map(lambda k: k / 8), st.sampled_from([1.0, 1.0, -1.0]), st.integers(-300, 300).map(lambda k: k / 1e4))
# one or two matrices that are far apart in some direction
_far = st.tuples(st.lists(_e, min_size=5, max_size=5), st.lists(st.integers(-28, 28).map(lambda k: k / 2), min_size=2, max_size=2)).map(lambda t: t[1][:1] + t[0] + t[1][1:])
_es = st.one_of(st.lists(_e, min_size=7, max_size=7), _e.map(lambda x: [x] * 7), _far)

PROP = Prop("C34", [
    Sub("metric", lambda: gen.fd(n=st.integers(1, 7), kind=st.sampled_from(["general", "general", "orthogonal", "identity"]), a=_es, b=_es, seed=gen.seeds), metric, 3000, 40000,
        rule="X X' and X diag(exp a) X' with repeated, equal and distinct a: exact value, symmetry, congruence, inverse, triangle, geodesic"),
    Sub("bodies", lambda: gen.fd(R=gen.rotation(3), t=gen.vec(3), seed=gen.seeds), bodies, 600, 8000, rule="pseudo-inertia matrices of two bodies, moved together"),
    Sub("diagonal", lambda: gen.fd(n=st.integers(1, 12), w=st.lists(st.integers(-20, 20), min_size=12, max_size=12), a=st.lists(st.one_of(st.integers(-3, 3), st.integers(-100, 100)), min_size=12, max_size=12)), diagonal, 600, 6000,
        rule="diagonal matrices up to 12x12, entries 2^-120 to 2^120 apart"),
    Sub("sizes", lambda: gen.fd(n=st.integers(1, 6), k=st.integers(1, 6), seed=gen.seeds), shapes, 100, 1000, rule="matrices of different size"),
], assumptions=["tolerances grow with the condition number", "the module is loaded from src/rigeo/unused/geodesic.py"])
