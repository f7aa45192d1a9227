"""C01: every representation of inertial parameters describes the same body."""
import cvxpy as cp
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import J_of, arr, boolean, inst, near, require, vec_of
from ..harness import Prop, Sub, Violation


def skew(p):
    return np.array([[0, -p[2], p[1]], [p[2], 0, -p[0]], [-p[1], p[0], 0]])


def truth(pm):
    m = np.array(pm["m"], float)
    p = np.array(pm["p"], float).reshape(-1, 3)
    J = J_of(m, p)
    M = np.zeros((6, 6))
    for mi, pi in zip(m, p):
        S = skew(pi)
        M += mi * np.block([[-S @ S, S], [-S, np.eye(3)]])
    return J, M, np.abs(p).max(initial=0.0)


def blocks(M, r):
    """A 6 x 6 spatial mass matrix with every entry in units of mass."""
    D = np.append(np.full(3, 1 / r), np.ones(3))
    return D[:, None] * M * D


def pim_units(J, r):
    D = np.append(np.full(3, 1 / r), 1.0)
    return D[:, None] * J * D


def vec_units(v, r):
    return np.asarray(v) / np.concatenate(([1], np.full(3, r), np.full(6, r * r)))


def check_all(q, J, M, scale, what):
    """Every readout of q against the definitions."""
    inst(q, rg.InertialParameters, what)
    m, h, H = J[3, 3], J[3, :3], J[:3, :3]
    # compared in units of the mass and of the largest coordinate
    r = scale or 1.0
    u = m or 1.0
    tol = dict(rtol=1e-9, atol=1e-11)
    near(arr(q.mass, (), what + ".mass") / u, m / u, what=what + ".mass", **tol)
    near(arr(q.h, (3,)) / (u * r), h / (u * r), what=what + ".h", **tol)
    near(arr(q.H, (3, 3)) / (u * r * r), H / (u * r * r), what=what + ".H", **tol)
    near(pim_units(arr(q.J, (4, 4)), r) / u, pim_units(J, r) / u, what=what + ".J", **tol)
    I = np.trace(H) * np.eye(3) - H
    near(arr(q.I, (3, 3)) / (u * r * r), I / (u * r * r), what=what + ".I", **tol)
    near(vec_units(arr(q.vec, (10,)), r) / u, vec_units(vec_of(J), r) / u, what=what + ".vec", **tol)
    near(blocks(arr(q.M, (6, 6)), r) / u, blocks(M, r) / u, what=what + ".M", **tol)
    if m > 0:
        c = h / m
        Hc = H - m * np.outer(c, c)
        near(arr(q.com, (3,)) / r, c / r, rtol=1e-8, atol=1e-11, what=what + ".com")
        near(arr(q.Hc, (3, 3)) / (u * r * r), Hc / (u * r * r), what=what + ".Hc", rtol=1e-9, atol=1e-10)
        near(arr(q.Ic, (3, 3)) / (u * r * r), (np.trace(Hc) * np.eye(3) - Hc) / (u * r * r), what=what + ".Ic", rtol=1e-9, atol=1e-10)
    else:
        near(arr(q.Hc, (3, 3)) / (r * r), H / (r * r), what=what + ".Hc (massless)", **tol)


def forms(case, ctx):
    pm = gen.in_units(case["pm"], case.get("u", [1, 1]))
    J, M, scale = truth(pm)
    m, h, H = J[3, 3], J[3, :3].copy(), J[:3, :3].copy()
    ctx.label("first=" + case["first"], "second=" + case["second"], "about=" + case["about"],
              "massless" if m == 0 else "mass>0")
    if len(pm["m"]) == 1 and not any(pm["p"][0]):
        ctx.trivial("single point at origin")
    kw = {}
    c = h / m if m > 0 else np.array(case["c0"], float)
    if case["first"] == "h":
        kw["h"] = h
    else:
        kw["com"] = c
    S = H
    if case["about"] == "com":
        S = H - m * np.outer(c, c)
        kw["translate_from_com"] = True
    if case["second"] == "H":
        kw["H"] = S
    else:
        kw["I"] = np.trace(S) * np.eye(3) - S
    q = rg.InertialParameters(mass=m, **kw)
    check_all(q, J, M, scale, f"InertialParameters({','.join(kw)})")
    # conversions back
    check_all(rg.InertialParameters.from_vec(np.array(q.vec)), J, M, scale, "from_vec(vec)")
    check_all(rg.InertialParameters.from_pim(np.array(q.J)), J, M, scale, "from_pim(J)")
    check_all(rg.InertialParameters.from_vec(vec_of(J)), J, M, scale, "from_vec")
    check_all(rg.InertialParameters.from_pim(J.copy()), J, M, scale, "from_pim")
    pts, ms = pm["p"], pm["m"]
    if case["array"]:
        pts, ms = np.array(pts, float), np.array(ms, float)
    check_all(rg.InertialParameters.from_point_masses(masses=ms, points=pts), J, M, scale, "from_point_masses")
    require(boolean(q.is_same(rg.InertialParameters.from_pim(J.copy()))), "is_same is False for the same parameters")


def defaults(case, ctx):
    m, c = case["m"] * case.get("u", [1, 1])[1], np.array(case["c"], float) * case.get("u", [1, 1])[0]
    ctx.label("massless" if m == 0 else "mass>0", case["mode"])
    if case["mode"] == "com":
        q = rg.InertialParameters(mass=m, com=c, translate_from_com=case["tr"])
    elif case["mode"] == "h":
        q = rg.InertialParameters(mass=m, h=m * c, translate_from_com=case["tr"])
    else:
        c = np.zeros(3)
        q = rg.InertialParameters(mass=m, translate_from_com=case["tr"])
    J, M, scale = truth({"m": [m], "p": [list(c)]})
    check_all(q, J, M, scale, "point mass " + case["mode"])
    z = rg.InertialParameters.zero()
    near(arr(z.J, (4, 4)), np.zeros((4, 4)), what="zero().J")
    near(arr(z.vec, (10,)), np.zeros(10), what="zero().vec")
    if m > 0:
        # only one of com / second moment given about the CoM
        S = np.diag([1.0, 2.0, 3.0]) * m
        q = rg.InertialParameters(mass=m, I=np.trace(S) * np.eye(3) - S)
        near(arr(q.H, (3, 3)), S, what="H from I with default CoM", rtol=1e-9, atol=1e-12 * m)
        near(arr(q.h, (3,)), np.zeros(3), what="default h")


def arbitrary_vec(case, ctx):
    """Round trips of any parameter vector / symmetric matrix with positive mass."""
    v = np.array(case["v"], float)
    v[0] = case["m"]
    q = rg.InertialParameters.from_vec(v.copy())
    s = np.abs(v).max() + 1
    near(arr(q.vec, (10,)), v, rtol=1e-9, atol=1e-10 * s, what="from_vec(v).vec")
    J = arr(q.J, (4, 4))
    near(vec_of(J), v, rtol=1e-9, atol=1e-10 * s, what="J of from_vec(v)")
    p = rg.InertialParameters.from_pim(J.copy())
    near(arr(p.vec, (10,)), v, rtol=1e-9, atol=1e-10 * s, what="from_pim(J).vec")
    A = rg.pim_sum_vec_matrices()
    require(len(A) == 10, "pim_sum_vec_matrices does not return 10 matrices")
    near(sum(arr(a, (4, 4)) * x for a, x in zip(A, v)), J, rtol=1e-9, atol=1e-10 * s, what="sum A_i v_i")
    x = cp.Variable(10)
    x.value = v
    e = rg.pim_must_equal_vec(x)
    near(arr(e.value, (4, 4)), J, rtol=1e-9, atol=1e-10 * s, what="pim_must_equal_vec of a variable")
    e = rg.pim_must_equal_vec(v)
    near(arr(getattr(e, "value", e), (4, 4)), J, rtol=1e-9, atol=1e-10 * s, what="pim_must_equal_vec")
    S = J[:3, :3]
    I = arr(rg.H2I(S.copy()), (3, 3), "H2I")
    near(I, np.trace(S) * np.eye(3) - S, rtol=1e-12, atol=1e-12 * s, what="H2I")
    near(arr(rg.I2H(I.copy()), (3, 3), "I2H"), S, rtol=1e-9, atol=1e-11 * s, what="I2H(H2I(H))")
    near(arr(rg.H2I(rg.I2H(S.copy())), (3, 3)), S, rtol=1e-9, atol=1e-11 * s, what="H2I(I2H(I))")


def reject(case, ctx):
    m, c = case["m"], np.array(case["c"], float)
    K = np.eye(3)
    kw = {"h": m * c, "com": c} if case["which"] == "hcom" else {"H": K, "I": K}
    if case["extra"]:
        kw.update({"H": K} if case["which"] == "hcom" else {"com": c})
    if case["zero"]:
        kw = {k: np.zeros_like(v) for k, v in kw.items()}
    try:
        rg.InertialParameters(mass=m, translate_from_com=case["tr"], **kw)
    except ValueError:
        return
    raise Violation(f"InertialParameters({', '.join(kw)}) was accepted")


def same(case, ctx):
    pm = case["pm"]
    J, M, scale = truth(pm)
    q = rg.InertialParameters.from_pim(J.copy())
    i, j = case["ij"]
    J2 = J.copy()
    d = case["d"] * (1 + np.abs(J).max())
    J2[i, j] += d
    if i != j:
        J2[j, i] += d
    if J2[3, 3] <= 0:
        ctx.trivial("negative mass")
        return
    ctx.label(f"entry {i}{j}")
    r = rg.InertialParameters.from_pim(J2)
    require(not boolean(q.is_same(r)), f"is_same is True although J[{i},{j}] differs by {d}")
    require(not boolean(r.is_same(q)), f"is_same is True although J[{i},{j}] differs by {d}")
    J3 = J * (1 + 1e-13)
    require(boolean(q.is_same(rg.InertialParameters.from_pim(J3))), "is_same is False for equal parameters")


def s_forms():
    return gen.fd(pm=gen.point_masses(1, 6, m=gen.masses0), u=gen.units, first=st.sampled_from(["h", "com"]),
                  second=st.sampled_from(["H", "I"]), about=st.sampled_from(["origin", "com"]),
                  array=st.booleans(), c0=gen.vec(3))


PROP = Prop("C01", [
    Sub("forms", s_forms, forms, 3000, 40000,
        rule="1-6 point masses (mass 0 allowed) described in a random constructor form and read back in every form; "
             "non-trivial unless it is one point at the origin"),
    Sub("defaults", lambda: gen.fd(m=gen.masses0, c=gen.vec(3), u=gen.units, mode=st.sampled_from(["com", "h", "none"]), tr=st.booleans()),
        defaults, 1000, 10000, rule="omitted constructor arguments"),
    Sub("arbitrary_vec", lambda: gen.fd(v=gen.vec(10, st.one_of(gen.num, gen.big)), m=gen.masses),
        arbitrary_vec, 800, 8000, rule="arbitrary (also unphysical) 10-vectors with positive mass, round-tripped"),
    Sub("reject", lambda: gen.fd(m=gen.masses, c=gen.vec(3), which=st.sampled_from(["hcom", "HI"]),
                                 extra=st.booleans(), tr=st.booleans(), zero=st.booleans()),
        reject, 300, 2000, rule="over-specified constructor calls"),
    Sub("same", lambda: gen.fd(pm=gen.point_masses(1, 5), ij=st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list),
                               d=st.sampled_from([0.5, -0.25, 0.01, 1e-3, -1e-3])),
        same, 1500, 15000, rule="a parameter set against itself and a copy with one changed entry of J"),
])
