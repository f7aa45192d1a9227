"""C28: matrix and vector utilities satisfy their defining identities."""
import itertools
import math
from fractions import Fraction

import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import arr, boolean, near, require
from ..harness import Inconclusive, Prop, Sub, Violation


def exact(a, b, what):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        raise Violation(f"{what}: got {a.tolist()}, expected {b.tolist()}")


def halfvec(case, ctx):
    n = case["n"]
    A = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i, n):
            A[i, j] = A[j, i] = case["a"][k % len(case["a"])] + (k if case["distinct"] else 0)
            k += 1
    if case["int"]:
        A = np.rint(A).astype(int)
    ctx.label(f"n={n}", "int" if case["int"] else "float")
    up = [A[i, j] for i in range(n) for j in range(i, n)]
    A0 = A.copy()
    v = rg.vech(A)
    exact(v, up, f"vech of a {n}x{n} matrix")
    exact(A, A0, "the matrix after vech")
    v0 = np.array(v)
    B = rg.unvech(v)
    exact(B, A, "unvech(vech(A))")
    exact(v, v0, "the vector after unvech")
    exact(rg.vech(rg.unvech(np.array(up))), up, "vech(unvech(a))")
    # strictly upper triangle and other offsets
    for o in (1, case["k"]):
        exact(rg.vech(A, k=o), [A[i, j] for i in range(n) for j in range(n) if j - i >= o], f"vech(k={o})")
    # not symmetric: only the upper triangle counts
    C = A.copy()
    if n > 1:
        C[n - 1, 0] += 1
        exact(rg.vech(C), up, "vech of a matrix that is not symmetric")
    # wrong sizes
    m = len(up) + case["off"]
    tri = {i * (i + 1) // 2 for i in range(1, 30)}
    if m >= 1 and m not in tri:
        try:
            X = rg.unvech(np.arange(m, dtype=float))
        except (AssertionError, ValueError):
            return
        raise Violation(f"unvech of {m} values returns an array of shape {np.shape(X)}")


def is_tri(x):
    """Exact: (n or None)."""
    if x < 1:
        return None
    n = (math.isqrt(8 * x + 1) - 1) // 2
    return n if n * (n + 1) // 2 == x else None


def triangular(case, ctx):
    n = case["n"]
    x = n * (n + 1) // 2 + case["d"]
    kinds = [("int", x)]
    if abs(x) < 2 ** 63:
        kinds.append(("int64", np.int64(x)))
    try:
        if int(float(x)) == x:
            kinds += [("float", float(x)), ("float64", np.float64(x))]
    except OverflowError:
        pass
    ctx.label("triangular" if is_tri(x) else "not triangular", "huge" if abs(x) > 2 ** 53 else "small", "non-positive" if x < 1 else "")
    for name, v in kinds:
        r = rg.is_triangular_number(v)
        if not isinstance(r, tuple) or len(r) != 2:
            raise Violation(f"is_triangular_number({v!r}) returns {r!r}")
        t = boolean(r[0], "is_triangular_number")
        want = is_tri(x)
        require(t == (want is not None), f"is_triangular_number({name} {x}) says {t}" + (f", but it is {want}*{want + 1}/2" if want else ", but it is not triangular"))
        if want:
            require(r[1] == want, f"is_triangular_number({name} {x}) returns n={r[1]}, expected {want}")
    f = case["frac"]
    if abs(x) < 2 ** 40:
        r = rg.is_triangular_number(float(x) + f)
        require(not r[0], f"is_triangular_number({x + f}) says {r[0]}")


def skew(case, ctx):
    a, b = np.array(case["a"], float), np.array(case["b"], float)
    if case["int"]:
        a, b = np.rint(a).astype(int), np.rint(b).astype(int)
    S = arr(rg.skew3(a), (3, 3), "skew3")
    c = np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], float)
    tol = 1e-14 * (1 + np.abs(a).max() * np.abs(b).max())
    near(S @ b, c, 0, tol, what="skew3(a) @ b")
    exact(S, -S.T, "skew3(a) and its negative transpose")
    near(rg.skew3(a) @ a, np.zeros(3), 0, tol + 1e-14 * np.abs(a).max() ** 2, what="skew3(a) @ a")
    # lift3: A x for symmetric A
    v = np.array(case["s"], float)
    A = np.array([[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]])
    near(arr(rg.lift3(a), (3, 6), "lift3") @ v, A @ a, 1e-13, 1e-13 * (1 + np.abs(v).max() * np.abs(a).max()), what="lift3(x) @ vech(A)")


def vertices(case, ctx):
    h = case["h"]
    d = len(h)
    ctx.label(f"{d}D")
    V = arr(rg.box_vertices(np.array(h) if case["array"] else h), (2 ** d, d), "box_vertices")
    want = sorted(tuple(s * x for s, x in zip(sg, h)) for sg in itertools.product((-1.0, 1.0), repeat=d))
    have = sorted(map(tuple, (V + 0.0).tolist()))
    exact(have, np.array(want) + 0.0, "box_vertices")


def times(case, ctx):
    D, s = case["D"], case["s"]
    if case["mult"]:
        D = s * case["mult"] * (1 + case.get("nudge", 0))
    if not (1e-9 < D and D / s < 5000):
        ctx.trivial("too long")
        return
    r = rg.compute_evaluation_times(D, s) if case["step"] else rg.compute_evaluation_times(D)
    if not case["step"]:
        s = 0.1
    if not isinstance(r, tuple) or len(r) != 2:
        raise Violation(f"compute_evaluation_times returns {r!r:.100}")
    n, t = r
    t = arr(t, (int(n),), f"times of compute_evaluation_times({D}, {s})")
    require(isinstance(n, (int, np.integer)) and n >= 1, f"the number of times is {n!r}")
    require(t[0] == 0, f"the first time is {t[0]}")
    near(t, np.arange(n) * s, 1e-12, 0, what=f"times every {s} for {D}")
    e = 1e-9 * (D + s)
    # the last interval is the first to reach the end
    require(t[-1] + s >= D - e, f"the times {t[0]}..{t[-1]} every {s} do not cover the duration {D}")
    require(t[-1] <= D + e, f"the last time {t[-1]} is after the duration {D}")
    exactly = abs(D / s - round(D / s)) > 1e-9 * (1 + D / s)
    if exactly:
        ctx.label("step does not divide the duration")
        require(n == math.ceil(D / s), f"{n} times for duration {D} with step {s}, expected {math.ceil(D / s)}")
    else:
        ctx.label("step divides the duration")
        q = Fraction(D) / Fraction(s)
        if q.denominator == 1:
            # the floating-point quotient is exact
            ctx.label("exactly")
            require(n == q, f"{n} times for duration {D} with step {s}, expected {q}")
        require(n in (round(D / s), round(D / s) + 1), f"{n} times for duration {D} with step {s}")
    for bad in ((0.0, s), (-D, s), (D, 0.0), (D, -s)):
        try:
            x = rg.compute_evaluation_times(*bad)
        except (AssertionError, ValueError):
            continue
        raise Violation(f"compute_evaluation_times{bad} returns {x!r:.100}")


def rmse(case, ctx):
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    Y = rng.normal(size=(n, 6, 10)) * case["scale"]
    th = rng.normal(size=10)
    E = rng.normal(size=(n, 6)) * rng.choice([0, 1, 100], size=(n, 1))
    w = np.array([sum(Y[i, r, k] * th[k] for k in range(10)) for i in range(n) for r in range(6)]).reshape(n, 6) - E
    got = float(arr(rg.validation_rmse(Y, w, th), (), "validation_rmse"))
    want = math.sqrt(sum(float(e) ** 2 for row in E for e in row) / n)
    ctx.label(f"{min(n, 5)} wrenches")
    require(abs(got - want) <= 1e-9 * (1 + want + case["scale"]), f"validation_rmse of {n} wrenches is {got}, expected {want}")
    p = rng.permutation(n)
    require(abs(float(rg.validation_rmse(Y[p], w[p], th)) - got) <= 1e-9 * (1 + want + case["scale"]), "validation_rmse depends on the order of the samples")


def unordered(case, ctx):
    """allclose_unordered is equality of multisets of rows (rows equal or clearly apart)."""
    A = np.array(case["A"], float)
    n, d = A.shape
    rng = np.random.default_rng(case["seed"])
    B = A[rng.permutation(n)] + rng.uniform(-1, 1, size=A.shape) * 1e-10
    ctx.label("repeated rows" if len(np.unique(A, axis=0)) < n else "distinct rows")
    require(boolean(rg.allclose_unordered(A, B), "allclose_unordered"), "rows in another order are reported different")
    require(boolean(rg.allclose_unordered(B, A), "allclose_unordered"), "rows in another order are reported different")
    # change one entry
    C = B.copy()
    i, j = rng.integers(n), rng.integers(d)
    C[i, j] += 0.25 * rng.choice([-1, 1])
    same = sorted(map(tuple, np.rint(C * 8).tolist())) == sorted(map(tuple, np.rint(A * 8).tolist()))
    for X, Y in ((A, C), (C, A)):
        require(boolean(rg.allclose_unordered(X, Y)) == same, f"a changed row is {'reported different' if same else 'not noticed'}: {X.tolist()} and {Y.tolist()}")
    # change multiplicities: replace one row by another
    if n > 1:
        D = B.copy()
        k, l = rng.choice(n, size=2, replace=False)
        D[k] = D[l]
        same = sorted(map(tuple, np.rint(D * 8).tolist())) == sorted(map(tuple, np.rint(A * 8).tolist()))
        for X, Y in ((A, D), (D, A)):
            require(boolean(rg.allclose_unordered(X, Y)) == same, f"a changed multiplicity is {'reported different' if same else 'not noticed'}: {X.tolist()} and {Y.tolist()}")
        # columns of two rows exchanged: same columns, other rows
        E = B.copy()
        E[[k, l], j] = E[[l, k], j]
        same = sorted(map(tuple, np.rint(E * 8).tolist())) == sorted(map(tuple, np.rint(A * 8).tolist()))
        for X, Y in ((A, E), (E, A)):
            require(boolean(rg.allclose_unordered(X, Y)) == same, f"entries exchanged between rows are {'reported different' if same else 'not noticed'}: {X.tolist()} and {Y.tolist()}")
    # the tolerances are those of numpy.isclose
    F = A[rng.permutation(n)] + 0.01
    require(boolean(rg.allclose_unordered(A, F, rtol=0, atol=0.02)), "atol is not honoured")
    require(not boolean(rg.allclose_unordered(A, F, rtol=0, atol=0.001)), "a difference of 0.01 passes atol=0.001")


_small = st.integers(-16, 16).map(lambda k: k / 8)
_n = st.one_of(st.integers(0, 60), st.integers(0, 10 ** 6), st.integers(1, 10 ** 10), st.integers(10 ** 7, 10 ** 9), st.integers(1, 10 ** 30), st.integers(1, 300).map(lambda k: 10 ** k))

PROP = Prop("C28", [
    Sub("halfvec", lambda: gen.fd(n=st.integers(1, 12), a=st.lists(gen.num, min_size=1, max_size=12), distinct=st.booleans(), int=st.booleans(), k=st.integers(-3, 5), off=st.integers(-5, 5)), halfvec, 2000, 20000,
        rule="symmetric matrices up to 12x12, every offset, wrong sizes"),
    Sub("triangular", lambda: gen.fd(n=_n, d=st.sampled_from([0, 0, 1, -1, 2, -3, 7]), frac=st.sampled_from([0.5, 0.25, 1e-3])), triangular, 3000, 30000,
        rule="triangular numbers and their neighbours, from zero to far beyond 2^53, as int, numpy int and float"),
    Sub("skew", lambda: gen.fd(a=gen.vec(3, st.one_of(gen.num, gen.big)), b=gen.vec(3, st.one_of(gen.num, gen.big)), s=gen.vec(6), int=st.booleans()), skew, 1500, 15000, rule="cross products and lifts"),
    Sub("vertices", lambda: st.integers(1, 8).flatmap(lambda d: gen.fd(h=st.lists(gen.pos(), min_size=d, max_size=d), array=st.booleans())), vertices, 500, 5000, rule="boxes in 1-8 dimensions"),
    Sub("times", lambda: gen.fd(D=gen.logpos, s=gen.logpos, mult=st.sampled_from([0, 0, 1, 2, 3, 7, 10, 33]), nudge=st.sampled_from([0, 0, 1e-8, -1e-8, 1e-6, -1e-6, 1e-3]), step=st.sampled_from([True, True, True, False])), times, 2000, 20000, rule="durations and steps, dividing or not"),
    Sub("rmse", lambda: gen.fd(n=st.integers(1, 20), seed=gen.seeds, scale=st.sampled_from([1.0, 0.0, 100.0])), rmse, 800, 8000, rule="random regressors with errors of different size"),
    Sub("unordered", lambda: st.tuples(st.integers(1, 8), st.integers(1, 4)).flatmap(lambda t: gen.fd(A=st.lists(st.lists(_small, min_size=t[1], max_size=t[1]), min_size=t[0], max_size=t[0]), seed=gen.seeds)), unordered, 3000, 30000,
        rule="lattice rows with repetitions, permuted, one entry changed, one row replaced, entries exchanged"),
], assumptions=["rows to be compared are equal up to 1e-10 or differ by at least 1/8"])
