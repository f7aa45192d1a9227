"""C08: rigidly transforming a shape moves exactly its point set."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import (BoxO, EllO, PolyO, arr, booleans, body_directions, build, inst, jitter, member_probes, moved, near, oracle,
                   require, rot, scale_of, tvec)
from ..harness import Prop, Sub, Violation

CLS = {"box": "Box", "ell": "Ellipsoid", "cyl": "Cylinder", "cap": "Capsule", "poly": "ConvexPolyhedron"}


def match_rows(A, B, tol, what):
    A, B = np.asarray(A, float), np.asarray(B, float)
    if A.shape != B.shape:
        raise Violation(f"{what}: {A.shape[0]} rows, expected {B.shape[0]}")
    D = np.abs(A[:, None] - B[None]).max(axis=2)
    if D.min(axis=1).max() > tol or D.min(axis=0).max() > tol:
        raise Violation(f"{what}: rows {A.tolist()} differ from expected {B.tolist()}")


def check_shape(s, o, spec, seed, what, tight):
    """The real shape s is the set o (membership, vertices, sizes)."""
    inst(s, getattr(rg, CLS[spec["k"]]), what)
    P, want = member_probes(o, seed)
    got = booleans(s.contains(P), len(P), what + ".contains")
    bad = np.nonzero(got != want)[0]
    if len(bad):
        i = int(bad[0])
        raise Violation(f"{what}: contains({P[i].tolist()}) is {bool(got[i])}, expected {bool(want[i])}")
    t = tight * scale_of(o)
    if spec["k"] in ("box", "ell"):
        near(np.sort(arr(s.half_extents)), np.sort(o.h), rtol=1e-12, atol=1e-300, what=what + " half extents")
    if spec["k"] != "poly":
        near(arr(s.center, (o.dim,)), o.c, rtol=1e-9, atol=t, what=what + " center")
    if spec["k"] in ("box", "poly"):
        match_rows(arr(s.vertices), o.V, t, what + " vertices")
    if spec["k"] == "cyl":
        require(float(s.length) == o.L and float(s.radius) == o.r, what + " changed its length or radius")
    if spec["k"] == "cap":
        require(float(s.inner_length) == o.L and float(s.radius) == o.r, what + " changed its length or radius")
        near(float(s.full_length), o.L + 2 * o.r, what="full_length")
    if spec["k"] in ("cyl", "cap"):
        c = s if spec["k"] == "cyl" else s.cylinder
        match_rows(arr(c.endpoints(), (2, 3)), np.array([o.c + o.L / 2 * o.a, o.c - o.L / 2 * o.a]), t, what + " endpoints")
        match_rows(np.array([arr(e.center, (3,)) for e in c.disks]), np.array([o.c + o.L / 2 * o.a, o.c - o.L / 2 * o.a]), t, what + " disk centers")
        for e in c.disks:
            h = arr(e.half_extents, (3,))
            k = int(np.argmin(h))
            near(np.sort(h), [0, o.r, o.r], rtol=1e-12, atol=0, what=what + " disk half extents")
            require(o.r == 0 or abs(abs(arr(e.rotation, (3, 3))[:, k] @ o.a) - 1) < 1e-9, what + " disks are not across the axis")
        d = abs(arr(c.longitudinal_axis, (3,)) @ o.a)
        require(abs(d - 1) < 1e-9, what + " longitudinal axis is wrong")
        near(arr(c.transverse_axes, (3, 2)).T @ o.a, np.zeros(2), atol=1e-9, what=what + " transverse axes")
    if spec["k"] in ("box", "cyl"):
        near(float(s.volume), o.volume, rtol=1e-9, atol=1e-300, what=what + " volume")


def chain(case, ctx):
    spec = case["s"]
    n = len(spec["h"]) if spec["k"] == "ell" else 3
    o, s = oracle(spec), build(spec)
    o0, s0 = o, s
    ctx.label("kind=" + spec["k"], f"dim={n}", "degenerate" if o.rank < o.dim else "full", f"steps={len(case['ts'])}",
              "already rotated" if spec["R"] else "axis-aligned")
    T, x = np.eye(n), np.zeros(n)
    for k, t in enumerate(case["ts"]):
        g = [[i % n, j % n, a] for i, j, a in (t["R"] or []) if i % n != j % n]
        R, tr = rot(g, n), tvec(None if t["t"] is None else t["t"][:n], n)
        kw = {}
        if t["R"] is not None:
            kw["rotation"] = R.tolist() if t["list"] else R
        if t["t"] is not None:
            kw["translation"] = tr.tolist() if t["list"] else tr
        s = s.transform(**kw)
        o = moved(o, R, tr)
        T, x = R @ T, R @ x + tr
        check_shape(s, o, spec, case["seed"] + k, f"{spec['k']} after transform {k + 1}", 1e-9)
    check_shape(s0, o0, spec, case["seed"], "original after transforms", 1e-12)
    back = s.transform(rotation=T.T, translation=-T.T @ x)
    big = scale_of(o) + np.abs(x).max()
    check_shape(back, o0, spec, case["seed"] + 9, "transform and inverse", 1e-9 * big / scale_of(o0) if spec["k"] != "poly" else 1e-9 * big / scale_of(o0))
    once = s0.transform(rotation=T, translation=x)
    check_shape(once, o, spec, case["seed"] + 11, "composed transform", 1e-9 * big / scale_of(o))
    if T.shape == (1, 1) or np.allclose(T, np.eye(n)):
        ctx.trivial("no rotation")


def about_center(case, ctx):
    spec = case["s"]
    o, s = oracle(spec), build(spec)
    n = o.dim
    g = [[i % n, j % n, a] for i, j, a in case["R"] or [] if i % n != j % n]
    R = rot(g, n)
    ctx.label("kind=" + spec["k"], f"dim={n}")
    r = s.rotate_about_center(R)
    o2 = type(o)(o.h, R @ o.R, o.c)
    check_shape(r, o2, spec, case["seed"], "rotate_about_center", 1e-10)
    near(arr(r.center, (n,)), o.c, rtol=0, atol=0, what="center after rotate_about_center")
    check_shape(s, o, spec, case["seed"], "original after rotate_about_center", 1e-12)
    r2 = r.rotate_about_center(R.T)
    check_shape(r2, o, spec, case["seed"], "rotate_about_center and inverse", 1e-9)


def poly_nd(case, ctx):
    """General polyhedra in 1-4 dimensions and polyhedron forms."""
    n = case["n"]
    V = np.array(case["V"], float)[:, :n] / 2
    from ..geo import extreme_points
    if np.linalg.matrix_rank(V - V[0]) < n:
        ctx.trivial("flat")
        return
    V = V[extreme_points(V)]
    ctx.label(f"dim={n}", f"nv={len(V)}")
    R, t = rot(case["R"], n), np.array(case["t"][:n], float)
    p = rg.ConvexPolyhedron.from_vertices(V)
    q = p.transform(rotation=R, translation=t)
    o = PolyO(V @ R.T + t)
    tol = 1e-9 * scale_of(o)
    match_rows(arr(q.vertices), o.V, tol, "vertices after transform")
    match_rows(arr(p.vertices), V, 0, "original vertices")
    P, want = member_probes(o, case["seed"])
    got = booleans(q.contains(P), len(P))
    require(np.array_equal(got, want), f"transformed {n}-D polyhedron contains the wrong points")
    q1 = p.transform(rotation=R)
    match_rows(arr(q1.vertices), V @ R.T, tol, "vertices after rotation")
    q2 = p.transform(translation=t)
    match_rows(arr(q2.vertices), V + t, tol, "vertices after translation")


def tstep():
    return gen.fd(R=gen.rotation(5), t=gen.center(5), list=st.booleans())


def tstep3():
    return gen.fd(R=gen.rotation(3, angle=gen.angle_clear), t=gen.poly_center(3), list=st.booleans())


def s_chain():
    smooth = st.one_of(gen.shape3(("box", "ell", "cyl", "cap"), wide=True, degenerate=True),
                       st.integers(1, 5).flatmap(lambda n: gen.ell(n, degenerate=True)))
    return st.one_of(
        gen.fd(s=smooth, ts=st.lists(tstep(), min_size=1, max_size=3), seed=gen.seeds),
        gen.fd(s=smooth, ts=st.lists(tstep(), min_size=1, max_size=3), seed=gen.seeds),
        gen.fd(s=gen.poly(), ts=st.lists(tstep3(), min_size=1, max_size=2), seed=gen.seeds))


def confirm_chain(case):
    # neighbours: vary the polyhedron and turn the transforms a little further
    out = jitter(case)
    for i, c in enumerate(out):
        for t in c["ts"]:
            if t["R"] is not None:
                t["R"] = t["R"] + [[0, 1, 13 + 4 * i], [1, 2, 29 + 3 * i]]
    return out


def confirm_nd(case):
    out = []
    for i in range(6):
        c = dict(case)
        n = case["n"]
        if n > 1 and i % 2:
            c["R"] = (case["R"] or []) + [[0, 1, 13 + i], [n - 2, n - 1, 29 - i]]
        c["t"] = [x * (1 + 0.013 * (i + 1)) for x in case["t"]]
        c["V"] = [[2 * y for y in v] for v in case["V"]] if i >= 4 else case["V"]
        out.append(c)
    return out


PROP = Prop("C08", [
    Sub("chain", s_chain, chain, 4000, 50000, confirm=confirm_chain,
        rule="any shape taken through 1-3 rigid transforms, back, and once through the composed transform; trivial without rotation"),
    Sub("about_center", lambda: gen.fd(s=st.one_of(gen.box(degenerate=True), st.integers(1, 5).flatmap(lambda n: gen.ell(n, degenerate=True))),
                                       R=gen.rotation(5), seed=gen.seeds),
        about_center, 2000, 20000, rule="boxes and ellipsoids rotated about their centre and back"),
    Sub("poly_nd", lambda: st.integers(1, 4).flatmap(lambda n: gen.fd(
        n=st.just(n), V=gen.lattice_points(4, 3, 9), R=gen.rotation(n, angle=gen.angle_clear), t=gen.vec(4, gen.eighths), seed=gen.seeds)),
        poly_nd, 1500, 15000, confirm=confirm_nd, rule="lattice polytopes in 1-4 dimensions; trivial when flat"),
], assumptions=["poses that are nearly but not exactly axis-aligned are excluded for general polyhedra (see KNOWN_FINDINGS.txt)"])
