"""C03: transforming parameters equals moving the mass itself."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import J_of, arr, boolean, hom, inst, near, require, rot, tvec
from ..harness import Prop, Sub
from .c01 import pim_units


def chain(case, ctx):
    u = case.get("u", [1, 1])
    pm = gen.in_units(case["pm"], u)
    m = np.array(pm["m"], float)
    p = np.array(pm["p"], float)
    q0 = rg.InertialParameters.from_point_masses(masses=m, points=p)
    q = q0
    T = np.eye(4)
    size = np.abs(p).max()
    mass = m.sum() or 1.0
    ctx.label(f"steps={len(case['ts'])}", f"masses={len(m)}", "other units" if list(u) != [1, 1] else "")
    rotated = False

    def cmp(got, want, what, tol=1e-10):
        r = size or 1.0
        near(pim_units(got, r) / mass, pim_units(want, r) / mass, rtol=1e-9, atol=tol, what=what)
    for t in case["ts"]:
        R, x = rot(t["R"]), tvec(t["t"]) * u[0]
        rotated |= not np.array_equal(R, np.eye(3))
        kw = {}
        if t["R"] is not None:
            kw["rotation"] = R
        if t["t"] is not None:
            kw["translation"] = x
        q = inst(q.transform(**kw), rg.InertialParameters)
        p = p @ R.T + x
        T = hom(R, x) @ T
        size = max(size, np.abs(p).max(), np.abs(x).max())
        cmp(arr(q.J, (4, 4)), J_of(m, p), "J after transform")
        # agrees with T J T'
        Tr = arr(rg.transform_matrix(**kw), (4, 4), "transform_matrix")
        near(Tr, hom(R, x), rtol=1e-12, atol=1e-12 * size, what="transform_matrix")
        Ti = arr(rg.transform_matrix_inv(**kw), (4, 4), "transform_matrix_inv")
        near(Tr @ Ti, np.eye(4), rtol=1e-9, atol=1e-11 * (1 + size), what="transform_matrix @ transform_matrix_inv")
    if not rotated or len(m) < 2:
        ctx.trivial("no rotation or one mass")
    cmp(arr(q.J), T @ arr(q0.J) @ T.T, "J compared with T J T'", 1e-9)
    require(abs(float(q.mass) - m.sum()) <= 1e-12 * m.sum(), "mass changed by a transform")
    if m.sum() > 0:
        r = size or 1.0
        near(np.linalg.eigvalsh(arr(q.Ic, (3, 3)) / (mass * r * r)), np.linalg.eigvalsh(arr(q0.Ic, (3, 3)) / (mass * r * r)), rtol=1e-8, atol=1e-9,
             what="eigenvalues of the inertia about the CoM")
    # inverse
    Ti = np.linalg.inv(T)
    back = q.transform(rotation=Ti[:3, :3], translation=Ti[:3, 3])
    cmp(arr(back.J, (4, 4)), arr(q0.J), "J after transform and inverse", 1e-9)
    # original unchanged, sum distributes
    cmp(arr(q0.J), J_of(m, np.array(pm["p"], float)), "original J")
    if len(m) >= 2:
        a = rg.InertialParameters.from_point_masses(masses=m[:1], points=np.array(pm["p"], float)[:1])
        b = rg.InertialParameters.from_point_masses(masses=m[1:], points=np.array(pm["p"], float)[1:])
        R, x = T[:3, :3], T[:3, 3]
        cmp(arr((a + b).transform(R, x).J), arr((a.transform(R, x) + b.transform(R, x)).J), "transform of a sum", 1e-9)


def matrices(case, ctx):
    n = case["n"]
    R, t = rot(case["R"], n), np.array(case["t"][:n], float)
    ctx.label(f"dim={n}")
    kw = {"dim": n}
    if case["useR"]:
        kw["rotation"] = R.tolist() if case["as_list"] else R
    else:
        R = np.eye(n)
    if case["useT"]:
        kw["translation"] = t.tolist() if case["as_list"] else t
    else:
        t = np.zeros(n)
    s = 1 + np.abs(t).max()
    T = arr(rg.transform_matrix(**kw), (n + 1, n + 1), "transform_matrix")
    Ti = arr(rg.transform_matrix_inv(**kw), (n + 1, n + 1), "transform_matrix_inv")
    near(T, hom(R, t), rtol=1e-12, atol=1e-12, what="transform_matrix")
    near(Ti, hom(R.T, -R.T @ t), rtol=1e-9, atol=1e-11 * s, what="transform_matrix_inv")
    near(Ti @ T, np.eye(n + 1), rtol=1e-9, atol=1e-11 * s, what="inverse product")
    x = np.array(case["x"][:n], float)
    near((T @ np.append(x, 1))[:n], R @ x + t, rtol=1e-9, atol=1e-10 * (s + np.abs(x).max()), what="T applied to a point")
    cr, ct = rg.clean_transform(kw.get("rotation"), kw.get("translation"), dim=n)
    near(arr(cr, (n, n)), R, what="clean_transform rotation")
    near(arr(ct, (n,)), t, what="clean_transform translation")


PROP = Prop("C03", [
    Sub("chain", lambda: gen.fd(pm=gen.point_masses(1, 5, m=gen.masses0), u=gen.units, ts=st.lists(gen.transform(), min_size=1, max_size=4)),
        chain, 2500, 30000,
        rule="point masses moved through 1-4 rigid transforms; non-trivial with a rotation and >= 2 masses"),
    Sub("matrices", lambda: st.integers(1, 5).flatmap(lambda n: gen.fd(
        n=st.just(n), R=gen.rotation(n), t=gen.vec(5, st.one_of(gen.num, gen.big)), x=gen.vec(5), useR=st.booleans(),
        useT=st.booleans(), as_list=st.booleans())),
        matrices, 2000, 20000, rule="homogeneous transforms in dimension 1-5, arguments omitted / lists / arrays"),
])
