"""C04: the physical-consistency verdict is positive semidefiniteness of J."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import arr, boolean, J_of, near, require, rot, tvec
from ..harness import Inconclusive, Prop, Sub


def verdict(q, eps=None):
    return boolean(q.consistent() if eps is None else q.consistent(eps=eps), "consistent()")


def spectrum(case, ctx):
    Q = rot(case["R"], 4)
    lam = np.array(case["lam"], float)
    J = Q @ np.diag(lam) @ Q.T
    J = 0.5 * (J + J.T)
    if J[3, 3] <= 1e-6:
        ctx.trivial("non-positive mass")
        return
    w = np.linalg.eigvalsh(J)
    nrm = np.abs(w).max()
    q = rg.InertialParameters.from_pim(J.copy())
    gap = 1e-6 * nrm
    for eps in [0.0, w[0] - case["d"] * nrm, w[0] + case["d"] * nrm, w[-1] + nrm, -2 * nrm, case["eps"]]:
        if abs(w[0] - eps) < gap:
            ctx.label("borderline skipped")
            continue
        want = bool(w[0] >= eps)
        ctx.label(f"accept={want}")
        require(verdict(q, eps) == want, f"consistent(eps={eps:.6g}) is {not want} but the smallest eigenvalue of J is {w[0]:.6g}")
    if abs(w[0]) >= gap:
        require(verdict(q) == (w[0] >= 0), f"consistent() wrong: smallest eigenvalue of J is {w[0]:.6g}")
        # invariance of the eps=0 verdict
        T = case["t"]
        R, x = rot(T["R"]), tvec(T["t"])
        r = q.transform(rotation=R, translation=x)
        w2 = np.linalg.eigvalsh(arr(r.J, (4, 4)))
        if abs(w2[0]) > 1e-7 * np.abs(w2).max():
            require(verdict(r) == (w[0] >= 0), "verdict changed under a rigid transform")
        k = case["k"]
        require(verdict(rg.InertialParameters.from_pim(k * J)) == (w[0] >= 0), f"verdict changed when the mass was scaled by {k}")


def triangle(case, ctx):
    """Principal inertias about the CoM: physical iff the triangle inequality holds."""
    l, k = case.get("u") or (1.0, 1.0)
    I = np.array(case["I"], float) * case["m"] * k * l * l if case.get("u") else np.array(case["I"], float)
    R, c, m = rot(case["R"]), tvec(case["c"]) * l, case["m"] * k
    Ic = R @ np.diag(I) @ R.T
    slack = min(I.sum() - 2 * I)
    q = rg.InertialParameters(mass=m, com=c, I=Ic, translate_from_com=True)
    J = np.eye(4)
    Hc = 0.5 * np.trace(Ic) * np.eye(3) - Ic
    J[:3, :3] = Hc + m * np.outer(c, c)
    J[:3, 3] = J[3, :3] = m * c
    J[3, 3] = m
    w = np.linalg.eigvalsh(J)
    if abs(w[0]) < (1e-8 if l == 1 else 1e-11) * np.abs(w).max():
        raise Inconclusive("borderline")
    if l != 1 or k != 1:
        ctx.label("other units")
    want = bool(slack > 0)
    ctx.label("physical" if want else "violates triangle inequality")
    require(verdict(q) == want, f"principal inertias {I} (about the CoM): consistent() is {not want}")


def mass_distribution(case, ctx):
    pm = case["pm"]
    J = J_of(pm["m"], pm["p"])
    w = np.linalg.eigvalsh(J)
    if w[0] < 1e-9 * w[-1]:
        ctx.trivial("degenerate distribution")
        return
    q = rg.InertialParameters.from_point_masses(masses=pm["m"], points=pm["p"])
    require(verdict(q), f"a real mass distribution is rejected (eigenvalues of J {w})")


def randoms(case, ctx):
    s = case["seed"]
    q = rg.InertialParameters.random(rng=s)
    J = arr(q.J, (4, 4))
    near(J, J.T, what="random J symmetric")
    require(np.linalg.eigvalsh(J)[0] >= -1e-12 * np.trace(J), f"random parameters are not consistent: {np.linalg.eigvalsh(J)}")
    require(float(q.mass) > 0, "random mass is not positive")
    if np.linalg.eigvalsh(J)[0] > 1e-9 * np.trace(J):
        require(verdict(q), "random parameters reported inconsistent")
    q2 = rg.InertialParameters.random(rng=s)
    require(np.array_equal(q.vec, q2.vec), "same seed gives different random parameters")
    q3 = rg.InertialParameters.random(rng=np.random.default_rng(s))
    require(np.array_equal(q.vec, q3.vec), "generator with the seed gives different random parameters")
    q4 = rg.InertialParameters.random(rng=s + 1)
    require(not np.array_equal(q.vec, q4.vec), "different seeds give identical random parameters")
    g = np.random.default_rng(s)
    a, b = rg.InertialParameters.random(rng=g), rg.InertialParameters.random(rng=g)
    require(not np.array_equal(a.vec, b.vec), "a generator is not advanced by random()")
    n = case["n"]
    P = arr(rg.random_psd_matrix(n, rng=s), (n, n))
    near(P, P.T, what="random_psd_matrix symmetric")
    require(np.linalg.eigvalsh(P)[0] >= -1e-12 * (1 + np.trace(P)), "random_psd_matrix is not positive semidefinite")
    require(np.array_equal(P, rg.random_psd_matrix(n, rng=s)), "random_psd_matrix not reproducible")
    require(np.array_equal(P, rg.random_psd_matrix(n, rng=np.random.default_rng(s))), "random_psd_matrix not reproducible")


lam = st.one_of(gen.pos(False), gen.pos(False), st.sampled_from([0.0, -0.001, -0.1, -1.0, 1e-3]))

PROP = Prop("C04", [
    Sub("spectrum", lambda: gen.fd(R=gen.rotation(4, none=False), lam=gen.lists(lam, 4), d=st.sampled_from([1e-4, 0.01, 0.3]),
                                   eps=gen.num, k=gen.pos(), t=gen.transform()),
        spectrum, 3000, 40000,
        rule="J with a chosen spectrum (definite, indefinite, singular) and eps around the smallest eigenvalue; trivial if J33 <= 0"),
    Sub("triangle", lambda: gen.fd(I=gen.vec(3, gen.pos(False)), R=gen.rotation(3), c=gen.center(3, False), m=gen.masses, u=st.one_of(st.none(), gen.units)),
        triangle, 3000, 20000, rule="principal inertias satisfying or violating the triangle inequality"),
    Sub("mass_distribution", lambda: gen.fd(pm=gen.point_masses(4, 9)), mass_distribution, 1500, 15000,
        rule="spanning point-mass sets are accepted; trivial if they do not span"),
    Sub("randoms", lambda: gen.fd(seed=gen.seeds, n=st.integers(1, 6)), randoms, 400, 5000, rule="random parameters and PSD matrices"),
], assumptions=["verdicts within 1e-6 of the threshold (relative to the norm of J) are not judged"])
