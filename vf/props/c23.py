"""C23: polynomials, moment and localizing matrices obey moment algebra."""
import itertools
import math

import cvxpy as cp
import numpy as np
import rigeo as rg
from hypothesis import strategies as st
from rigeo import moment as rm

from .. import gen
from ..geo import arr, inst, near, require
from ..harness import Inconclusive, Prop, Sub, Violation


def monomials(n, d):
    return [e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d]


def expo(x, n, what="index"):
    v = getattr(x, "value", None)
    if v is None or len(v) != n or any(int(k) != k or k < 0 for k in v):
        raise Violation(f"{what} is not a moment index in {n} variables: {x!r:.120}")
    return tuple(int(k) for k in v)


def mono(x, e):
    return math.prod(float(a) ** k for a, k in zip(x, e))


def P_of(spec, how="tuple", tol=None):
    """The real polynomial of a list of [exponents, coefficient]."""
    d = {}
    for e, c in spec:
        d[tuple(e)] = c
    mk = {"tuple": tuple, "index": rm.MomentIndex}[how]
    kw = {} if tol is None else {"tol": tol}
    return rm.Polynomial({mk(e): c for e, c in d.items()}, **kw), {e: c for e, c in d.items()}


def value(d, x):
    return sum(c * mono(x, e) for e, c in d.items())


def size(d, x):
    return sum(abs(c) * abs(mono(x, e)) for e, c in d.items()) + 1e-300


def same(p, d, n, X, what):
    """The polynomial p is the one with coefficients d."""
    inst(p, rm.Polynomial, what)
    got = {}
    for k, c in p.coefficients.items():
        e = expo(k, n, what + ": key")
        require(e not in got, f"{what}: exponent {e} occurs twice")
        got[e] = float(c)
    for e in set(got) | set(d):
        a, b = got.get(e, 0.0), d.get(e, 0.0)
        require(abs(a - b) <= 1e-12 * (abs(a) + abs(b)), f"{what}: coefficient of x^{e} is {a}, expected {b}")
    for x in X:
        v = float(np.asarray(p.evaluate(x)))
        w = value(d, x)
        require(abs(v - w) <= 1e-11 * size(d, x) + 1e-300, f"{what} at {list(x)}: value {v}, expected {w}")
    nz = [e for e, c in d.items() if c != 0]
    if nz:
        g = p.degree
        require(int(g) == g == max(sum(e) for e in nz), f"{what}: degree is {g}, expected {max(sum(e) for e in nz)}")


def algebra(case, ctx):
    n = case["n"]
    p, dp = P_of([(e[:n], c) for e, c in case["p"]], case["how"])
    tq = [(e[:n], c) for e, c in case["q"]]
    if case["cancel"] is not None:
        tq += [(e, -c if i != case["cancel"] else c) for i, (e, c) in enumerate(case_items(dp))]
    q, dq = P_of(tq, case["how"])
    X = [np.array(x[:n], float) for x in case["X"]] + [np.zeros(n), np.ones(n)]
    Xin = [x.tolist() if i % 2 else x for i, x in enumerate(X)]
    clean = lambda d: {e: c for e, c in d.items() if c != 0}
    dp, dq = clean(dp), clean(dq)
    if not dp and not dq:
        ctx.trivial("zero polynomials")
    same(p, dp, n, Xin, "polynomial")
    same(q, dq, n, Xin, "polynomial")
    tot = dict(dp)
    for e, c in dq.items():
        tot[e] = tot.get(e, 0) + c
    tot = clean(tot)
    ctx.label("cancelling" if len(tot) < len(set(dp) | set(dq)) else "sum", f"n={n}")
    same(p + q, tot, n, Xin, "sum")
    same(q + p, tot, n, Xin, "sum (swapped)")
    same(p, dp, n, Xin, "polynomial after adding")
    neg, _ = P_of([(e, -c) for e, c in dp.items()], case["how"])
    same(p + neg, {}, n, Xin, "p + (-p)")
    same(p + rm.Polynomial.zeros(), dp, n, Xin, "p + 0")
    same(rm.Polynomial.zeros() + p, dp, n, Xin, "0 + p")
    # multiplication by a monomial
    s = tuple(case["s"][:n])
    lp = p.localize(rm.MomentIndex(s))
    same(lp, {tuple(a + b for a, b in zip(e, s)): c for e, c in dp.items()}, n, Xin, f"polynomial localized about {s}")
    # substitution of values, arrays and expressions
    rng = np.random.default_rng(case["seed"])
    keys = sorted(set(dp) | {(0,) * n, s})
    vals = {e: float(rng.normal()) for e in keys}
    want = sum(c * vals[e] for e, c in dp.items())
    lim = 1e-12 * (1 + sum(abs(c * vals[e]) for e, c in dp.items()))
    if dp:
        r = p.substitute({rm.MomentIndex(e): v for e, v in vals.items()})
        r = r.value if hasattr(r, "value") else r
        require(abs(float(r) - want) <= lim, f"substituting values gives {r}, expected {want}")
        V = cp.Variable(len(keys))
        V.value = np.array([vals[e] for e in keys])
        r = p.substitute({rm.MomentIndex(e): V[i] for i, e in enumerate(keys)})
        require(isinstance(r, cp.Expression) and r.is_affine(), "substituting expressions does not give an affine expression")
        require(abs(float(r.value) - want) <= lim, f"substituting expressions gives {r.value}, expected {want}")
    # coefficients near zero
    t = case["tol"]
    if t > 0:
        pt, _ = P_of(case_items(dp), case["how"], tol=t)
        dt = {e: c for e, c in dp.items() if abs(c) > t}
        if all(abs(abs(c) - t) > 1e-9 * t for c in dp.values()):
            same(pt, dt, n, Xin, f"polynomial with tol={t}")
    # affine polynomials
    a, b = np.array(case["a"][:n], float), case["b"]
    da = {(0,) * n: b}
    for i in range(n):
        e = [0] * n
        e[i] = 1
        da[tuple(e)] = -a[i]
    same(rm.Polynomial.affine(a, b), clean(da), n, Xin, "affine polynomial")


def case_items(d):
    return [(list(e), c) for e, c in d.items()]


def indices(case, ctx):
    """MomentIndex is a value: equal exponents are equal, hash alike and add."""
    n = len(case["e"])
    e, f = case["e"], case["f"]
    I, K = rm.MomentIndex(e), rm.MomentIndex(np.array(f))
    require((I == K) == (e == f), f"MomentIndex{e} == MomentIndex{f} is {I == K}")
    require(I == rm.MomentIndex(tuple(e)) and hash(I) == hash(rm.MomentIndex(np.array(e))), f"equal indices {e} are not equal or hash differently")
    require(not (I == tuple(e)) and not (I == 0), f"MomentIndex{e} equals something that is not an index")
    for r in (I + K, K + I, I * K):
        require(expo(r, n) == tuple(a + b for a, b in zip(e, f)), f"{e} + {f} gives {r!r}")
    require(expo(sum([I, K, I]), n) == tuple(2 * a + b for a, b in zip(e, f)), "sum() of indices")
    require({I: 1}.get(rm.MomentIndex(list(e))) == 1, "an index does not find its own entry in a dictionary")
    m = np.add.outer(np.array([I, K], dtype=object), np.array([I, K], dtype=object))
    require(expo(m[0, 1], n) == tuple(a + b for a, b in zip(e, f)), "outer sum")


def basis(case, ctx):
    n, d = case["n"], case["d"]
    ctx.label(f"n={n} d={d}")
    b = rm.Polynomial.basis(n, d)
    B = [expo(x, n, f"basis({n},{d}) entry") for x in b]
    require(sorted(B) == sorted(monomials(n, d)), f"basis({n}, {d}) is {B}")
    require(rm.Polynomial.dim(n, d) == math.comb(n + d, d), f"dim({n}, {d}) is {rm.Polynomial.dim(n, d)}")
    x = np.array(case["x"][:n], float)
    one = rm.Polynomial.ones(n, d)
    same(one, {e: 1 for e in monomials(n, d)}, n, [x], f"ones({n}, {d})")
    M = rm.MomentMatrix(n, d)
    r = len(B)
    require(tuple(M.shape) == (r, r) and M.r == r, f"MomentMatrix({n}, {d}) has shape {M.shape}")
    S = np.asarray(M.indices)
    require(S.shape == (r, r), f"symbolic moment matrix has shape {S.shape}")
    D = [expo(S[0, j], n) for j in range(r)]
    require(sorted(D) == sorted(monomials(n, d)) and D[0] == (0,) * n, f"first row of the symbolic moment matrix is {D}")
    for i in range(r):
        for j in range(r):
            require(expo(S[i, j], n) == tuple(a + c for a, c in zip(D[i], D[j])), f"entry ({i},{j}) of the symbolic moment matrix is {S[i, j]!r}, basis exponents {D[i]}, {D[j]}")


def Mvals(mm, m, X):
    """The true moment matrix of point masses, in the order of the symbolic one."""
    n, r = mm.n, mm.shape[0]
    V = np.zeros((r, r))
    A = np.zeros((r, r))
    for i in range(r):
        for j in range(r):
            e = expo(mm.indices[i, j], n)
            V[i, j] = sum(w * mono(x, e) for w, x in zip(m, X))
            A[i, j] = sum(abs(w) * abs(mono(x, e)) for w, x in zip(m, X))
    return V, A


def worst(constraints):
    v = [float(np.max(c.violation())) for c in constraints]
    return max(v) if v else 0.0


def matrices(case, ctx):
    n, d = case["n"], case["d"]
    ctx.label(f"n={n} d={d}")
    mm = rm.MomentMatrix(n, d)
    k = len(case["m"])
    m, X = np.array(case["m"], float), np.array([x[:n] for x in case["X"]], float)[:k]
    m = m[:len(X)]
    V, A = Mvals(mm, m, X)
    r = len(V)
    rng = np.random.default_rng(case["seed"])
    # the moment matrix of a measure satisfies the constraints
    var = cp.Variable((r, r), symmetric=True) if case["sym"] else cp.Variable((r, r))
    cs = mm.moment_constraints(var)
    require(isinstance(cs, list) and all(isinstance(c, cp.constraints.constraint.Constraint) for c in cs), "moment_constraints is not a list of constraints")
    var.value = V
    tol = 1e-12 * (1 + A.max())
    require(worst(cs) <= tol, f"moments of {len(X)} point masses violate the moment constraints (by {worst(cs):.3g})")
    # any array in which entries of equal index differ is excluded
    W = V.copy()
    i, j = sorted(rng.choice(r, size=2)) if r > 1 else (0, 0)
    group = [(a, b) for a in range(r) for b in range(r) if expo(mm.indices[a, b], n) == expo(mm.indices[i, j], n)]
    others = [g for g in group if g not in ((i, j), (j, i))]
    delta = 0.1 * (1 + A.max())
    if others:
        ctx.label("repeated moment")
        W[i, j] += delta
        if i != j:
            W[j, i] += delta
        var.value = W
        require(worst(cs) > delta / 3, f"the constraints admit an array in which entries {(i, j)} and {others[0]} differ although both hold the moment {mm.indices[i, j]!r}")
    else:
        # a moment occurring once is free
        ctx.label("single moment")
        W[i, j] += delta
        W[j, i] = W[i, j]
        var.value = W
        require(worst(cs) <= tol, f"the constraints forbid changing the moment {mm.indices[i, j]!r} (entries {group})")
    if not case["sym"] and i != j:
        W = V.copy()
        W[j, i] += delta
        var.value = W
        require(worst(cs) > delta / 3, f"the constraints admit an array that is not symmetric at {(i, j)}")
    # localizing matrix of a polynomial
    p, dp = P_of([(e[:n], c) for e, c in case["p"]])
    dp = {e: c for e, c in dp.items() if c != 0 and sum(e) <= 2 * d}
    p, _ = P_of(case_items(dp))
    if not dp:
        return
    deg = max(sum(e) for e in dp)
    v = (deg + 1) // 2
    L = arr(mm.localize(V, p), what="localizing matrix")
    D = [expo(mm.indices[0, t], n) for t in range(r)]
    k = math.comb(n + d - v, n)
    Bs = D[:k]
    require(all(sum(e) <= d - v for e in Bs), "the leading basis monomials are not those of lower degree")
    want = np.array([[sum(w * value(dp, x) * mono(x, a) * mono(x, b) for w, x in zip(m, X)) for b in Bs] for a in Bs])
    mag = np.array([[sum(w * size(dp, x) * abs(mono(x, a) * mono(x, b)) for w, x in zip(m, X)) for b in Bs] for a in Bs])
    require(L.shape == want.shape, f"localizing matrix of a polynomial of degree {deg} has shape {L.shape}, expected {want.shape}")
    require(np.all(np.abs(L - want) <= 1e-11 * mag + 1e-300), f"localizing matrix of {dp} over point masses at {X.tolist()}: {L.tolist()}, expected {want.tolist()}")
    sym = mm.localizing_matrix(d - v, p)
    require(np.shape(sym) == want.shape, f"symbolic localizing matrix has shape {np.shape(sym)}, expected {want.shape}")
    x = X[0]
    for a in range(k):
        for b in range(k):
            s = float(sym[a, b].evaluate(x))
            w = value(dp, x) * mono(x, Bs[a]) * mono(x, Bs[b])
            require(abs(s - w) <= 1e-11 * (size(dp, x) * abs(mono(x, Bs[a]) * mono(x, Bs[b])) + 1e-300), f"symbolic localizing matrix entry ({a},{b}) at {x.tolist()} is {s}, expected {w}")


def feasible(case, ctx):
    """localizing_constraints admit M exactly when each localizing matrix is PSD."""
    n, d = case["n"], case["d"]
    mm = rm.MomentMatrix(n, d)
    rng = np.random.default_rng(case["seed"])
    X = rng.uniform(-1, 1, size=(case["k"], n))
    m = rng.random(len(X)) + 0.1
    V, A = Mvals(mm, m, X)
    polys, ds = [], []
    for a in range(case["np"]):
        deg = int(rng.integers(1, 2 * d + 1))
        es = [e for e in monomials(n, deg) if rng.random() < 0.5] or [(0,) * n]
        dp = {e: float(np.round(rng.normal(), 3)) for e in es}
        # lift it so that the smallest value over the points is as wanted
        lo = min(value(dp, x) for x in X)
        z = (0,) * n
        dp[z] = dp.get(z, 0.0) - lo + case["low"]
        dp = {e: c for e, c in dp.items() if c != 0}
        if not dp:
            dp = {z: 1.0}
        polys.append(P_of(case_items(dp))[0])
        ds.append(dp)
    lam = np.inf
    for dp in ds:
        deg = max(sum(e) for e in dp)
        k = math.comb(n + d - (deg + 1) // 2, n)
        Bs = [expo(mm.indices[0, t], n) for t in range(k)]
        L = np.array([[sum(w * value(dp, x) * mono(x, a) * mono(x, b) for w, x in zip(m, X)) for b in Bs] for a in Bs])
        lam = min(lam, float(np.linalg.eigvalsh(L).min()))
    ctx.label("localizing matrices PSD" if lam >= -1e-12 else "not PSD", f"n={n} d={d}", f"{len(polys)} polynomials")
    M = cp.Variable(mm.shape, PSD=True)
    t = cp.Variable()
    cs = mm.localizing_constraints(M, polys)
    pr = cp.Problem(cp.Minimize(cp.norm(M - V, "fro")), mm.moment_constraints(M) + cs)
    try:
        pr.solve(solver="CLARABEL")
    except cp.error.DCPError as ex:
        raise Violation(f"localizing constraints are not convex: {ex!s:.120}") from ex
    if not pr.status.startswith(("optimal", "infeasible")):
        raise Inconclusive(pr.status)
    dist = float(pr.value) if pr.status.startswith("optimal") else np.inf
    if lam >= -1e-12:
        require(dist <= 2e-4 * (1 + A.max()), f"moments of a measure on which every polynomial is at least {case['low']} are at distance {dist:.3g} from the localizing constraints")
    elif lam < -1e-2:
        require(dist > 1e-5, f"the localizing constraints admit moments whose localizing matrix has eigenvalue {lam:.3g}")


_k = st.one_of(st.integers(0, 12), st.sampled_from([1, 11, 10, 0, 111, 101]))
_e = st.lists(st.integers(0, 3), min_size=4, max_size=4)
_c = st.one_of(st.integers(-5, 5), gen.eighths, gen.eighths, st.tuples(gen.eighths, st.integers(-18, 9)).map(lambda t: t[0] * 10.0 ** t[1]))
_poly = st.lists(st.tuples(_e, _c).map(list), min_size=0, max_size=6)
_x = gen.vec(4, st.one_of(st.integers(-3, 3), gen.eighths))
_nd = st.sampled_from([(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (4, 1), (4, 2), (3, 3), (1, 5)])

PROP = Prop("C23", [
    Sub("algebra", lambda: gen.fd(n=st.integers(1, 4), cancel=st.one_of(st.none(), st.integers(0, 4)), p=_poly, q=_poly, how=st.sampled_from(["tuple", "index"]), X=st.lists(_x, min_size=1, max_size=3), s=_e,
                                  seed=gen.seeds, tol=st.sampled_from([0, 0.5, 1.5]), a=gen.vec(4, gen.eighths), b=gen.eighths), algebra, 4000, 60000, chunk=1000,
        rule="sparse polynomials in 1-4 variables, cancelling terms included: evaluation, sums, localizing, substitution, degree against dictionary arithmetic"),
    Sub("indices", lambda: st.integers(1, 5).flatmap(lambda n: st.one_of(
        gen.fd(e=st.lists(_k, min_size=n, max_size=n), f=st.lists(_k, min_size=n, max_size=n)),
        st.lists(_k, min_size=n, max_size=n).flatmap(lambda e: gen.fd(e=st.just(e), f=st.permutations(e).map(list))),
        st.lists(_k, min_size=n, max_size=n).flatmap(lambda e: gen.fd(e=st.just(e), f=st.integers(0, n - 1).map(lambda i: [x + (j == i) for j, x in enumerate(e)]))))),
        indices, 1500, 15000, rule="moment indices as values"),
    Sub("basis", lambda: gen.fd(n=st.integers(1, 5), d=st.integers(0, 5), x=gen.vec(5, gen.eighths)).filter(lambda c: c["n"] + c["d"] <= 8), basis, 200, 1500,
        rule="bases and symbolic moment matrices up to 5 variables and degree 5"),
    Sub("matrices", lambda: st.tuples(_nd, gen.fd(m=st.lists(gen.pos8, min_size=1, max_size=4), X=st.lists(_x, min_size=4, max_size=4), p=_poly, seed=gen.seeds, sym=st.booleans())).map(
        lambda t: dict(t[1], n=t[0][0], d=t[0][1])), matrices, 600, 10000, chunk=150,
        rule="moment matrices of point masses, arrays with one changed entry, localizing matrices of random polynomials"),
    Sub("feasible", lambda: st.tuples(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (1, 3), (2, 3), (1, 4)]), gen.fd(seed=gen.seeds, k=st.integers(1, 12), np=st.integers(1, 3), low=st.sampled_from([0.0, 0.3, -0.1, -0.5, -2.0]))).map(
        lambda t: dict(t[1], n=t[0][0], d=t[0][1])), feasible, 300, 5000, max_inconclusive=0.1, rule="localizing constraints against the eigenvalues of the localizing matrices"),
], assumptions=["moment matrices are compared relative to the sum of absolute terms", "CLARABEL decides the localizing constraints"])
