"""C05: wrench, regressor and mass matrix all obey Newton-Euler."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import J_of, arr, inst, near, require, vec_of
from ..harness import Prop, Sub


def sv(x):
    return rg.SV(linear=np.array(x[:3], float), angular=np.array(x[3:], float))


def wrench(case, ctx):
    pm = case["pm"]
    m, p = np.array(pm["m"], float), np.array(pm["p"], float)
    v, w = np.array(case["V"][:3], float), np.array(case["V"][3:], float)
    a, al = np.array(case["A"][:3], float), np.array(case["A"][3:], float)
    q = rg.InertialParameters.from_point_masses(masses=m, points=p)
    if len(m) < 2 or not w.any():
        ctx.trivial("one mass or no rotation")
    V, A = sv(case["V"]), sv(case["A"])
    # sum over mass elements of the d'Alembert force and its moment about the origin
    f, n = np.zeros(3), np.zeros(3)
    mag = 0.0
    for mi, pi in zip(m, p):
        acc = a + np.cross(al, pi) + np.cross(w, v) + np.cross(w, np.cross(w, pi))
        f += mi * acc
        n += np.cross(pi, mi * acc)
        mag += mi * (1 + np.abs(pi).max()) ** 2 * (np.abs(a).max() + np.abs(al).max() + (1 + np.abs(w).max() + np.abs(v).max()) ** 2)
    W = inst(q.body_wrench(V, A), rg.SpatialVector, "body_wrench")
    tol = dict(rtol=1e-8, atol=1e-10 * mag + 1e-300)
    near(arr(W.linear, (3,)), f, what="force part of the body wrench", **tol)
    near(arr(W.angular, (3,)), n, what="moment part of the body wrench", **tol)
    near(arr(W.vec, (6,)), np.concatenate((n, f)), what="body wrench vector (angular first)", **tol)
    Y = arr(rg.RigidBody.regressor(V, A), (6, 10), "regressor")
    near(Y @ vec_of(J_of(m, p)), np.concatenate((n, f)), what="regressor @ vec", **tol)
    body = rg.RigidBody([], q)
    near(arr(body.regressor(V, A), (6, 10)), Y, what="regressor through an instance")
    # mass matrix and lifting
    L = arr(rg.lift6(V), (6, 10), "lift6")
    near(L @ arr(q.vec, (10,)), arr(q.M, (6, 6)) @ arr(V.vec, (6,)), what="lift6(V) vec = M V", **tol)
    # momentum of the mass elements
    lin = sum(mi * (v + np.cross(w, pi)) for mi, pi in zip(m, p))
    ang = sum(np.cross(pi, mi * (v + np.cross(w, pi))) for mi, pi in zip(m, p))
    near(arr(q.M) @ V.vec, np.concatenate((ang, lin)), what="M V is the momentum", **tol)


def exact(got, want, mag, what):
    """Componentwise equality up to rounding, whatever the magnitude of each component."""
    got = arr(got, np.shape(want), what)
    require(np.all(np.abs(got - want) <= 1e-14 * np.abs(mag)), f"{what}: {got.tolist()}, expected {np.asarray(want).tolist()}")


def scaled(case, ctx):
    """The same algebra with components of very different magnitude."""
    a = np.array(case["a"], float) * 10.0 ** np.repeat(case["ea"], 3)
    b = np.array(case["b"], float) * 10.0 ** np.repeat(case["eb"], 3)
    k = case["k"] * 10.0 ** case["ek"]
    if not a.any() or not b.any():
        ctx.trivial("zero")
    ctx.label(f"magnitudes 1e{min(case['ea'] + case['eb'])}..1e{max(case['ea'] + case['eb'])}")
    A, B = rg.SV.from_vec(a.copy()), rg.SV(linear=b[3:].copy(), angular=b[:3].copy())
    exact(A.vec, a, 0, "from_vec")
    exact(B.vec, b, 0, "SV")
    exact((A + B).vec, a + b, np.abs(a) + np.abs(b), "SV sum")
    exact((A - B).vec, a - b, np.abs(a) + np.abs(b), "SV difference")
    exact((B - A).vec, b - a, np.abs(a) + np.abs(b), "SV difference")
    exact((A - rg.SV.zero()).vec, a, 0, "SV - 0")
    exact((A - A).vec, np.zeros(6), 0, "A - A")
    exact((A * k).vec, a * k, a * k, "SV product")
    if k:
        exact((A / k).vec, a / k, 2 * a / k, "SV quotient")
    w, v = a[:3], a[3:]
    cr = lambda x, y: np.cross(x, y)
    ab = lambda x, y: np.array([abs(x[1] * y[2]) + abs(x[2] * y[1]), abs(x[0] * y[2]) + abs(x[2] * y[0]), abs(x[0] * y[1]) + abs(x[1] * y[0])])
    m = 100 * np.concatenate((ab(w, b[:3]), ab(v, b[:3]) + ab(w, b[3:])))
    exact(A.adjoint() @ b, np.concatenate((cr(w, b[:3]), cr(v, b[:3]) + cr(w, b[3:]))), m, "adjoint")
    exact(rg.skew3(w) @ b[3:], cr(w, b[3:]), 100 * ab(w, b[3:]), "skew3")
    exact(rg.contact_jacobian(w) @ v, np.concatenate((cr(w, v), v)), 100 * np.concatenate((ab(w, v), np.abs(v))), "contact Jacobian")
    S = np.array([1.0, 0.2, -0.1, 2.0, 0.3, 3.0]) * 10.0 ** case["ek"]
    M = np.array([[S[0], S[1], S[2]], [S[1], S[3], S[4]], [S[2], S[4], S[5]]])
    exact(rg.lift3(w) @ S, M @ w, 100 * np.abs(M) @ np.abs(w), "lift3")
    # the wrench is bilinear in mass and acceleration
    m0, c0 = 10.0 ** case["ek"], np.array(case["c"], float)
    I = np.array([[3.0, 0.1, 0.2], [0.1, 4.0, -0.3], [0.2, -0.3, 5.0]]) * m0
    I = I + m0 * (c0 @ c0 * np.eye(3) - np.outer(c0, c0))
    q = rg.InertialParameters(mass=m0, h=m0 * c0, I=I)
    W = arr(q.body_wrench(A, B).vec, (6,))
    aw, al, bw, bl = w, v, b[:3], b[3:]
    f = m0 * (bl + cr(bw, c0) + cr(aw, al) + cr(aw, cr(aw, c0)))
    nn = I @ bw + cr(aw, I @ aw) + m0 * cr(c0, bl + cr(aw, al))
    ac = np.abs(c0)
    mf = m0 * (np.abs(bl) + ab(bw, c0) + ab(aw, al) + ab(np.abs(aw), ab(aw, c0)))
    aI = np.abs(I) + m0 * 10 * (1 + c0 @ c0)
    mn = aI @ np.abs(bw) + ab(aw, aI @ np.abs(aw)) + m0 * ab(ac, np.abs(bl) + ab(aw, al))
    mn = mn + m0 * np.abs(al).max() ** 2
    mm = 1e4 * np.concatenate((mn + np.abs(aw).max() ** 2 * aI.max() + np.abs(bw).max() * aI.max(), mf))
    exact(W, np.concatenate((nn, f)), mm, "body wrench (V, A)")
    Y = arr(rg.RigidBody.regressor(A, B), (6, 10), "regressor")
    exact(Y @ q.vec, np.concatenate((nn, f)), mm, "regressor @ vec")


def helpers(case, ctx):
    x, y, k = np.array(case["x"], float), np.array(case["y"], float), case["k"]
    a6, b6 = np.array(case["a"], float), np.array(case["b"], float)
    s = np.abs(np.concatenate((x, y, a6, b6))).max() + 1
    tol = dict(rtol=1e-10, atol=1e-11 * s * s)
    near(arr(rg.skew3(x), (3, 3)) @ y, np.cross(x, y), what="skew3", **tol)
    S = np.array([[a6[0], a6[1], a6[2]], [a6[1], a6[3], a6[4]], [a6[2], a6[4], a6[5]]])
    near(arr(rg.lift3(x), (3, 6)) @ np.array([S[0, 0], S[0, 1], S[0, 2], S[1, 1], S[1, 2], S[2, 2]]), S @ x, what="lift3", **tol)
    near(arr(rg.contact_jacobian(x), (6, 3)) @ y, np.concatenate((np.cross(x, y), y)), what="contact Jacobian", **tol)
    # spatial vectors
    A = rg.SV.from_vec(a6.copy())
    near(arr(A.angular, (3,)), a6[:3], what="from_vec angular")
    near(arr(A.linear, (3,)), a6[3:], what="from_vec linear")
    near(arr(A.vec, (6,)), a6, what="from_vec vec")
    lin, ang = b6[3:], b6[:3]
    if case["as_list"]:
        lin, ang = lin.tolist(), ang.tolist()
    B = rg.SV(linear=lin, angular=ang)
    near(arr(B.vec, (6,)), b6, what="SV(linear, angular).vec")
    # integer components next to fractional ones
    for li, an in ((np.rint(b6[3:]).astype(int), b6[:3]), (b6[3:], np.rint(b6[:3]).astype(int)), (np.rint(b6[3:]).astype(int), None), (None, np.rint(b6[:3]).astype(int))):
        C = rg.SV(linear=li, angular=an)
        want = np.concatenate((np.zeros(3) if an is None else an, np.zeros(3) if li is None else li)).astype(float)
        near(arr(C.vec, (6,)), want, what="SV with integer components")
        near(arr((C + A).vec, (6,)), want + a6, what="SV with integer components, sum", **tol)
        near(arr((C * 0.5).vec, (6,)), want / 2, what="SV with integer components, product", **tol)
    near(arr(rg.SV.from_vec(np.rint(a6).astype(int)).vec), np.rint(a6), what="SV from an integer vector")
    near(arr((rg.SV.from_vec(np.rint(a6).astype(int)) + B).vec), np.rint(a6) + b6, what="SV from an integer vector, sum", **tol)
    near(arr(rg.SV(linear=lin).vec, (6,)), np.concatenate((np.zeros(3), b6[3:])), what="SV(linear)")
    near(arr(rg.SV(angular=ang).vec, (6,)), np.concatenate((b6[:3], np.zeros(3))), what="SV(angular)")
    near(arr(rg.SV.zero().vec, (6,)), np.zeros(6), what="SV.zero")
    near(arr((A + B).vec, (6,)), a6 + b6, what="SV sum", **tol)
    near(arr((A - B).vec, (6,)), a6 - b6, what="SV difference", **tol)
    near(arr((A * k).vec, (6,)), a6 * k, what="SV product", **tol)
    if k != 0:
        near(arr((A / k).vec, (6,)), a6 / k, rtol=1e-12, atol=1e-12, what="SV quotient")
    near(arr(A.vec), a6, what="SV operand unchanged")
    near(arr(B.vec), b6, what="SV operand unchanged")
    # motion cross product
    M = arr(A.adjoint(), (6, 6), "adjoint")
    w, v = a6[:3], a6[3:]
    near(M @ b6, np.concatenate((np.cross(w, b6[:3]), np.cross(v, b6[:3]) + np.cross(w, b6[3:]))), what="adjoint", **tol)
    # random spatial vectors
    Z = rg.SV.random_diag_normal(A, rg.SV.zero(), rng=case["seed"])
    near(arr(Z.vec, (6,)), a6, rtol=1e-9, atol=1e-9, what="random_diag_normal with zero variance")
    cov = rg.SV.from_vec(np.array(case["cov"], float))
    r1 = rg.SV.random_diag_normal(A, cov, rng=case["seed"])
    r2 = rg.SV.random_diag_normal(A, cov, rng=case["seed"])
    require(np.array_equal(r1.vec, r2.vec), "random_diag_normal not reproducible")
    sd = np.sqrt(np.array(case["cov"], float))
    require(np.all(np.abs(r1.vec - a6) <= 12 * sd + 1e-9), "random_diag_normal sample inconsistent with its variance")


PROP = Prop("C05", [
    Sub("wrench", lambda: gen.fd(pm=gen.point_masses(1, 6, m=gen.masses0, far=True), V=gen.halves(st.one_of(gen.num, gen.num, gen.big)), A=gen.halves(st.one_of(gen.num, gen.num, gen.big))),
        wrench, 3000, 40000,
        rule="point masses with a random twist and acceleration; non-trivial with >= 2 masses and an angular velocity"),
    Sub("helpers", lambda: gen.fd(x=gen.vec(3), y=gen.vec(3), a=gen.halves(), b=gen.halves(), k=st.one_of(gen.num, st.integers(-3, 3)),
                                  as_list=st.booleans(), seed=gen.seeds, cov=gen.vec(6, gen.pos8)),
        helpers, 2500, 25000, rule="lifting helpers, contact Jacobian and spatial-vector algebra on random vectors"),
    Sub("scaled", lambda: gen.fd(a=gen.halves(), b=gen.halves(), c=gen.vec(3), k=gen.num, ea=gen.vec(2, st.integers(-10, 6)), eb=gen.vec(2, st.integers(-10, 6)), ek=st.integers(-6, 6)),
        scaled, 2000, 25000, rule="linear and angular parts with magnitudes from 1e-10 to 1e6, compared component by component to rounding"),
])
