"""C21: parameter constraints enforce symmetry and J >= eps I."""
import cvxpy as cp
import numpy as np
import rigeo as rg
from rigeo import constraint as rc
from hypothesis import strategies as st

from .. import gen, sdp
from ..geo import J_of, arr, build, build_all, near, oracle, points_in, require, vec_of
from ..harness import Prop, Sub, Violation


def interior_body(os, m, seed, weights=None):
    """A body well inside the shapes with a well conditioned pseudo-inertia matrix.

    The shares of the mass in each of the shapes may be given (some of them zero).
    """
    J = np.zeros((4, 4))
    w = np.array(weights[:len(os)] if weights else np.ones(len(os)), float)
    w = w / w.sum() if w.any() else np.full(len(os), 1 / len(os))
    for i, o in enumerate(os):
        P = np.vstack((o.c + 0.8 * (points_in(o, seed + i, 8, boundary=0.6) - o.c), o.c + 0.6 * o.rin * np.vstack((np.eye(3), -np.eye(3)))))
        J += J_of(np.full(len(P), m * w[i] / len(P)), P)
    return J


def enforced(shape, family, os, case, ctx):
    m = case["m"]
    J0 = interior_body(os, m, case["seed"], case.get("w"))
    lam = float(np.linalg.eigvalsh(J0).min())
    eps = case["frac"] * lam
    rng = np.random.default_rng(case["seed"])
    scale = np.abs(J0).max()
    tol = 1e-5 * scale
    ctx.label(family, case["var"], "eps=0" if eps == 0 else "eps>0" if case["frac"] <= 1 else "eps too large for the sample")
    sup = sdp.Sup(shape, family, case["var"], mass=m, eps=eps)
    # lowest value of v'Jv over the admitted matrices
    V = [np.append(np.zeros(3), 0.0) for _ in range(3)]
    lamv, U = np.linalg.eigh(J0)
    for v in (rng.normal(size=4), U[:, 0], np.append(rng.normal(size=3), 0)):
        v = v / np.linalg.norm(v)
        a = -sup(-np.outer(v, v))
        require(a >= eps - tol, f"{sup.what} with eps={eps:.6g} admit v'Jv = {a:.6g} for the unit vector {v.tolist()}")
    # symmetry
    i, j = rng.choice(4, size=2, replace=False)
    K = np.zeros((4, 4))
    K[i, j], K[j, i] = 1, -1
    a = sup(K)
    require(a <= tol * 10, f"{sup.what} with eps={eps:.6g} admit J[{i},{j}] - J[{j},{i}] = {a}")
    # realizable bodies satisfying the bound stay admitted
    if case["frac"] <= 0.999:
        proj = sdp.Project(shape, family, case["var"], eps=eps)
        e = proj(J0)
        require(e <= 1e-4 * scale, f"{proj.what} with eps={eps:.6g} exclude a realizable body with smallest eigenvalue {lam:.6g} (by {e:.3g})")
    # the 10-vector and the matrix are treated identically
    if case["both"]:
        o = os[0]
        D = sdp.random_D(rng, o.size, o.c)
        a = sup(D)
        b = sdp.Sup(shape, family, "J" if case["var"] == "vec" else "vec", mass=m, eps=eps)(D)
        if not (a == b or abs(a - b) <= 5e-4 * (m + abs(a))):
            raise Violation(f"{family} constraints with eps={eps:.6g}: optimum is {a} for {case['var']}, {b} for the other form of the parameters")
    # more than the mass itself is impossible
    if case["huge"]:
        big = sdp.Sup(shape, family, case["var"], mass=m, eps=1.5 * m)
        a = big(np.zeros((4, 4)))
        require(a == -np.inf, f"{big.what} with eps={1.5 * m} admit a matrix with J[3,3] = {m}")


def families(case, ctx):
    c = case["f"]
    o = oracle(c["s"])
    ctx.label(c["s"]["k"])
    enforced(build(c["s"]), c["family"], [o], case, ctx)


def body(case, ctx):
    os = [oracle(s) for s in case["shapes"]]
    b = rg.RigidBody(shapes=build_all(case["shapes"]))
    ctx.label(f"{len(os)} shapes")
    enforced(b, "body", os, case, ctx)


def feasibility(case, ctx):
    """The ready-made feasibility problem honours eps."""
    s = case["s"]
    o = oracle(s)
    shape = build(s)
    m = case["m"]
    J0 = interior_body([o], m, case["seed"], None)
    J0 = (J0 + J0.T) / 2
    lam = float(np.linalg.eigvalsh(J0).min())
    eps = case["frac"] * lam
    if case["vec"]:
        var = cp.Parameter(10)
        value = vec_of(J0)
    else:
        var = cp.Parameter((4, 4), PSD=True)
        value = J0
    d = case["d"]
    ctx.label(s["k"], "vec" if case["vec"] else "J", f"order {d}", "above" if case["frac"] > 1 else "below")
    problem = shape.moment_sdp_feasibility_problem(var, eps=eps, d=d) if eps or d != 2 else shape.moment_sdp_feasibility_problem(var)
    var.value = value
    k = sdp.run(problem, "feasibility problem")
    want = "infeasible" if case["frac"] > 1 else "optimal"
    require(k == want, f"feasibility problem with eps={eps:.6g}, d={d} is {k} for a body inside the shape with smallest eigenvalue {lam:.6g}")


def helpers(case, ctx):
    """The pseudo-inertia helpers on their own, and with values."""
    rng = np.random.default_rng(case["seed"])
    eps = case["eps"]
    X = rng.normal(size=(4, 4)) * 10.0 ** rng.integers(-1, 2)
    J0 = X @ X.T * case["rank"] / 4 + (eps + 0.1) * np.eye(4)
    th = vec_of(J0)
    # a 10-vector and the matrix it encodes
    E = rc.pim_must_equal_vec(th)
    near(arr(E.value if isinstance(E, cp.Expression) else E, (4, 4), "pim_must_equal_vec"), J0, what="pim_must_equal_vec")
    var = cp.Variable(10)
    E = rc.pim_must_equal_vec(var)
    var.value = th
    near(arr(E.value, (4, 4), "pim_must_equal_vec(variable)"), J0, what="pim_must_equal_vec(variable)")
    th2 = rng.normal(size=10)
    var.value = th2
    near(arr(E.value, (4, 4)), sum(A * t for A, t in zip(sdp.vec_matrices(), th2)), what="pim_must_equal_vec(variable)")
    ctx.label("eps=0" if eps == 0 else "eps>0", case["kind"])

    def admitted(J, c, J1):
        k = sdp.run(cp.Problem(cp.Minimize(cp.norm(J - J1, "fro")), c), "pim constraints")
        require(k == "optimal", f"pim constraints: {k}")
        return float(np.linalg.norm(J.value - J1))
    J, Jx, extra = sdp.variable(case["kind"])
    if case["kind"] == "vec":
        c = None
        Jp, c = rc.pim_must_equal_param_var(J, eps)
    else:
        if case["direct"]:
            Jp, c = J, rc.pim_psd(J, eps=eps)
        else:
            Jp, c = rc.pim_must_equal_param_var(J, eps)
    require(isinstance(c, list), "not a list of constraints")
    require(admitted(Jx, c + extra, J0) <= 1e-4 * (1 + np.abs(J0).max()), f"a symmetric matrix with eigenvalues >= {eps + 0.1} is not admitted (eps={eps})")
    if case["kind"] != "vec":
        require(Jp is J or np.array_equal(np.shape(Jp), (4, 4)), "pseudo-inertia expression has a wrong shape")
    # eigenvalue bound: the closest admitted matrix to one that violates it
    w, V = np.linalg.eigh(J0)
    v = V[:, 0]
    low = eps - case["gap"]
    J1 = J0 + (low - w[0]) * np.outer(v, v)
    sdp.run(cp.Problem(cp.Minimize(cp.norm(Jx - J1, "fro")), c + extra), "pim constraints")
    got = arr(Jx.value, (4, 4))
    near(got, got.T, atol=1e-5 * (1 + np.abs(J0).max()), rtol=0, what="J and its transpose")
    e = np.linalg.eigvalsh((got + got.T) / 2).min()
    require(e >= eps - 1e-5 * (1 + np.abs(J0).max()), f"admitted matrix has eigenvalue {e}, eps={eps}")
    want = J0 + (eps - w[0]) * np.outer(v, v)
    near(got, want, atol=2e-3 * (1 + np.abs(J0).max()), rtol=0, what="closest admitted matrix")
    # asymmetric target: the closest admitted matrix is its symmetric part
    S = np.zeros((4, 4))
    i, j = rng.choice(4, 2, replace=False)
    S[i, j], S[j, i] = 0.3, -0.3
    if case["kind"] in ("J", "slice"):
        sdp.run(cp.Problem(cp.Minimize(cp.norm(Jx - J0 - S, "fro")), c + extra), "pim constraints")
        near(arr(Jx.value, (4, 4)), J0, atol=1e-3 * (1 + np.abs(J0).max()), rtol=0, what="closest symmetric matrix")
    # wrong shapes
    for shape in ((4, 3), (3, 3), (9,), (11,), (5, 5), (10, 1), (4,), (1, 10), (16,)):
        for bad in (cp.Variable(shape), np.zeros(shape)):
            try:
                rc.pim_must_equal_param_var(bad, 0)
            except ValueError:
                continue
            raise Violation(f"a parameter variable of shape {shape} is accepted")


def schur(case, ctx):
    """[[A, B], [B', C]] from scalars, vectors, matrices and expressions."""
    rng = np.random.default_rng(case["seed"])
    n, k = case["n"], case["k"]
    A, B, C = rng.normal(size=(n, n)), rng.normal(size=(n, k)), rng.normal(size=(k, k))
    want = np.block([[A, B], [B.T, C]])
    ctx.label(f"{n}x{k}", *[f"{a}:{b}" for a, b in zip("ABC", case["as"])])

    def put(X, how):
        shapes = [X.shape]
        if X.shape[1] == 1:
            shapes.append((X.shape[0],))
        if X.size == 1:
            shapes += [(), (1,)]
        s = shapes[how[1] % len(shapes)]
        Y = X.reshape(s)
        if how[0] == "value":
            return float(Y) if s == () else Y
        if how[0] == "int":
            return Y
        V = cp.Variable(s) if how[0] == "var" else cp.Parameter(s)
        V.value = Y
        return V if how[0] in ("var", "par") else 1.0 * V + 0
    parts = [put(X, h) for X, h in zip((A, B, C), case["as"])]
    E = rc.schur(*parts)
    got = E.value if isinstance(E, cp.Expression) else E
    near(arr(got, (n + k, n + k), "schur"), want, what="schur")


_m = st.sampled_from([1.0, 1.0, 0.25, 4.0])
_frac = st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.1])
_common = dict(m=_m, frac=_frac, var=sdp.params, both=st.booleans(), huge=st.booleans(), seed=gen.seeds)
_cheap = st.one_of(gen.fd(s=sdp.s_box(), family=st.sampled_from(["vertex", "custom"])), gen.fd(s=sdp.s_poly(False), family=st.just("vertex")),
                   gen.fd(s=sdp.s_cyl(), family=st.just("custom")), gen.fd(s=sdp.s_ell(False), family=st.just("ell")))
_sdp = gen.fd(s=sdp.s_shape(("box", "cyl", "cyl", "poly")), family=st.just("sdp"))
_w = st.one_of(st.none(), st.lists(st.sampled_from([0.0, 0.01, 1.0, 3.0]), min_size=3, max_size=3))
_how = st.tuples(st.sampled_from(["value", "var", "par", "expr"]), st.integers(0, 3)).map(list)

PROP = Prop("C21", [
    Sub("cheap", lambda: gen.fd(f=_cheap, **_common), families, 500, 7000, max_inconclusive=0.1,
        rule="vertex, specific and ellipsoid constraints with eps >= 0: smallest eigenvalue, symmetry, realizable bodies stay admitted, vector and matrix agree"),
    Sub("sdp", lambda: gen.fd(f=_sdp, **_common), families, 72, 1200, max_inconclusive=0.1, chunk=6, rule="order 2 moment relaxation with eps >= 0"),
    Sub("body", lambda: gen.fd(shapes=gen.shapes(sdp.s_shape(("ell", "cyl", "box", "ell")), 3), w=_w, **_common), body, 48, 800, max_inconclusive=0.1, chunk=4,
        rule="bodies of 1-3 shapes with eps >= 0"),
    Sub("feasibility", lambda: gen.fd(s=sdp.s_shape(("box", "cyl", "poly")), m=_m, vec=st.booleans(), d=st.sampled_from([2, 2, 1]), frac=st.sampled_from([0.0, 0.3, 0.9, 1.1, 2.0]), seed=gen.seeds),
        feasibility, 64, 1000, max_inconclusive=0.2, chunk=8, rule="moment_sdp_feasibility_problem: feasible for a body inside exactly when its smallest eigenvalue is at least eps"),
    Sub("helpers", lambda: gen.fd(eps=st.sampled_from([0, 0.0, 0.01, 0.5, 3]), kind=sdp.params, direct=st.booleans(), rank=st.integers(0, 4), gap=st.sampled_from([0.05, 1.0]), seed=gen.seeds),
        helpers, 400, 5000, rule="pim_psd, pim_must_equal_vec, pim_must_equal_param_var; wrong shapes are rejected"),
    Sub("schur", lambda: gen.fd(n=st.integers(1, 4), k=st.integers(1, 3), seed=gen.seeds, **{"as": st.lists(_how, min_size=3, max_size=3)}), schur, 800, 8000,
        rule="schur from scalars, vectors, matrices, variables, parameters and expressions of every shape"),
], assumptions=["eigenvalue bounds are judged within 1e-5 of the size of J (solver accuracy)", "CLARABEL is used"])
