"""C06: containment queries answer for exactly the shape's point set."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import (BoxO, CapO, EllO, PolyO, arr, body_directions, boolean, booleans, build, jitter, member_probes, oracle,
                   ortho_dirs, outward, require, scale_of, unit)
from ..harness import Prop, Sub, Violation


def degen_label(ctx, spec, o):
    ctx.label("kind=" + spec["k"], "dim=%d" % o.dim, "degenerate" if o.rank < o.dim else "full",
              "rotated" if spec["R"] else "axis-aligned", "centred" if spec["c"] is None else "offset")


def members(case, ctx):
    spec = case["s"]
    o, s = oracle(spec), build(spec)
    degen_label(ctx, spec, o)
    P, want = member_probes(o, case["seed"])
    got = booleans(s.contains(P), len(P), "contains(batch)")
    bad = np.nonzero(got != want)[0]
    if len(bad):
        i = int(bad[0])
        raise Violation(f"contains({P[i].tolist()}) is {bool(got[i])}, expected {bool(want[i])} for {spec}")
    # the same with a given tolerance far below every margin
    got = booleans(s.contains(P, tol=1e-7), len(P), "contains(batch, tol)")
    require(np.array_equal(got, want), f"contains(tol=1e-7) disagrees with the point set of {spec}")
    # exact boundary points (faces, edges, vertices, poles)
    B = [o.boundary(u) for u in body_directions(o, case["seed"] + 1, 4)]
    if isinstance(o, (BoxO, PolyO)):
        B += list(o.V)
        B += [0.5 * (a + b) for a, b in zip(o.V[:-1], o.V[1:])]
    B = np.array(B)
    got = booleans(s.contains(B), len(B), "contains(boundary points)")
    if not got.all():
        raise Violation(f"boundary point {B[int(np.argmin(got))].tolist()} of {spec} reported outside")


def tolerance(case, ctx):
    spec, tol = case["s"], case["tol"]
    o, s = oracle(spec), build(spec)
    degen_label(ctx, spec, o)
    ctx.label(f"tol={tol}")
    pts = []
    for u in body_directions(o, case["seed"], 4):
        if np.linalg.norm(o.into(u)) > 1e-6:
            x, n = outward(o, o.into(u))
            for f in (0.05, 0.3, 0.8, 1.3, 3.0, 30.0):
                pts.append((x + f * tol * n, f * tol, 0.0))
        b = o.boundary(u)
        L = np.linalg.norm(b - o.c)
        if L > 0:
            for f in (0.1, 0.4, 0.8, 1.5, 5.0):
                pts.append((o.c + (1 + f * tol / 2) * (b - o.c), None, 0.0))
                pts.append((o.c + (1 + f * tol / L) * (b - o.c), None, 0.0))
    for w in ortho_dirs(o):
        for f in (0.3, 0.8, 2.0, 10.0):
            pts.append((o.interior(w + 0.3, 0.5) + f * tol * w, 0.0, f * tol))
    P = np.array([p for p, _, _ in pts])
    got = booleans(s.contains(P, tol=tol), len(P), "contains(batch, tol)")
    ndec = 0
    rnd = 1e-13 * scale_of(o)
    for i, (p, e, off) in enumerate(pts):
        if isinstance(o, (BoxO, PolyO)):
            F, h = o.facets()
            v = float((F @ p - h).max())
            want = True if v <= 0.95 * tol - rnd else (False if v >= 1.05 * tol + rnd else None)
        else:
            # distance outside within the affine hull, and the normalised (gauge) excess
            q = p - off * unit(p - o.c) if False else p
            g = o.gauge(q)
            ex = g * g - 1
            if isinstance(o, CapO) and o.r > 0:
                d = o.sdist(p)
                lo = hi = d
                ex = (1 + d / o.r) ** 2 - 1 if d > 0 else -1.0
                if o.L > 0:
                    y = o.R.T @ (p - o.c)
                    ex = min(ex, max((y[0] ** 2 + y[1] ** 2) / o.r ** 2 - 1, (2 * y[2] / o.L) ** 2 - 1))
            elif e is not None:
                lo = hi = e
            else:
                lo, hi = (g - 1) * o.rrel, (g - 1) * np.linalg.norm(p - o.c) / max(g, 1e-300)
            hi = max(hi, 0.0)
            if isinstance(o, CapO) and o.r == 0:
                lo /= np.sqrt(3)  # coordinate-wise tolerance around the two end points
            if off <= 0.95 * tol - rnd and hi <= 0.95 * tol - rnd and ex <= 0.95 * tol - 1e-11:
                want = True
            elif off >= 1.05 * np.sqrt(o.dim) * tol + rnd or (lo >= 1.05 * tol + rnd and ex >= 1.05 * tol + 1e-11):
                want = False
            else:
                want = None
        if want is None:
            continue
        ndec += 1
        ctx.label(f"decided {want}")
        if bool(got[i]) != want:
            raise Violation(f"contains({p.tolist()}, tol={tol}) is {bool(got[i])}, expected {want} for {spec}")
    if not ndec:
        ctx.trivial("nothing decided")


def thin(case, ctx):
    """Extents far below the others, but not flat."""
    spec = case["s"]
    o, s = oracle(spec), build(spec)
    rng = np.random.default_rng(case["seed"])
    h = np.array(spec["h"] if spec["k"] == "ell" else [spec["r"], spec["r"], spec["L"] / 2], float)
    if h.min() > 1e-4:
        ctx.trivial("not thin")
    ctx.label("kind=" + spec["k"], "smallest extent 1e%d" % np.floor(np.log10(h.min())))
    n = len(h)
    Y, want = [], []
    U = list(np.eye(n)) + list(-np.eye(n)) + [unit(u) for u in rng.normal(size=(4, n))]
    for u in U:
        if spec["k"] == "ell":
            y = h * u
        else:
            g = max(np.hypot(u[0], u[1]), abs(u[2]))
            y = h * u / g
        for f in (0.0, 0.3, 0.93, 1.07, 1.5, 4.0, 100.0):
            Y.append(f * y)
            want.append(f < 1)
    P = o.c + np.array(Y) @ o.R.T
    want = np.array(want)
    got = booleans(s.contains(P), len(P), "contains(batch)")
    bad = np.nonzero(got != want)[0]
    if len(bad):
        i = int(bad[0])
        raise Violation(f"contains({P[i].tolist()}) is {bool(got[i])}, expected {bool(want[i])} for {spec}")


def thin_shape():
    h = st.tuples(gen.pos8, gen.pos8, st.integers(40, 76).map(lambda k: round(10 ** (-k / 10), 10)), st.permutations([0, 1, 2]), st.booleans()).map(
        lambda t: [[t[0], t[2] if t[4] else t[1], t[2]][i] for i in t[3]])
    ell = gen.fd(k=st.just("ell"), h=h, R=gen.rotation(3), c=gen.center(3, False))
    cyl = st.builds(lambda a, b, sw, R, c: {"k": "cyl", "L": b if sw else a, "r": a if sw else b, "R": R, "c": c},
                    gen.pos8, st.integers(40, 74).map(lambda k: round(10 ** (-k / 10), 10)), st.booleans(), gen.rotation(3), gen.center(3, False))
    return st.one_of(ell, ell, cyl)


def batch(case, ctx):
    spec = case["s"]
    o, s = oracle(spec), build(spec)
    degen_label(ctx, spec, o)
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    ctx.label(f"n={n}", case["form"])
    P = o.c + (o.size + 0.05) * 1.2 * rng.uniform(-1, 1, size=(n, o.dim))
    for i in range(0, n, 2):
        P[i] = o.interior(rng.normal(size=o.dim), rng.random())
    if case["form"] == "int":
        P = np.round(P).astype(int)
    ref = []
    for p in P:
        ref.append(boolean(s.contains(p), "contains(point)"))
        require(ref[-1] == boolean(s.contains(p.tolist()), "contains(list point)"), "list and array point disagree")
        require(ref[-1] == booleans(s.contains(p[None, :]), 1, "contains(one row)")[0], "single point and one-row batch disagree")
    X = P.tolist() if case["form"] == "list" and n > 0 else P
    got = booleans(s.contains(X), n, f"contains(batch of {n})")
    require(list(got) == ref, f"batch answers {list(got)} differ from single answers {ref} for {spec}")
    if n == 0:
        return
    got = booleans(s.contains(P[::-1]), n)
    require(list(got[::-1]) == ref, "answers depend on the order of the rows")
    got = booleans(s.contains(np.asfortranarray(P)), n)
    require(list(got) == ref, "answers depend on the memory layout")


def large(case, ctx):
    """Batches of any size: the answer for a row depends on that row alone."""
    spec = case["s"]
    o, s = oracle(spec), build(spec)
    n = case["n"]
    ctx.label("n<=256" if n <= 256 else "n<=1024" if n <= 1024 else "n>1024", "kind=" + spec["k"])
    P0, want0 = member_probes(o, case["seed"])
    rng = np.random.default_rng(case["seed"])
    idx = rng.integers(len(P0), size=n)
    idx[-1] = np.nonzero(want0 == case["last"])[0][0]
    got = booleans(s.contains(P0[idx]), n, f"contains(batch of {n})")
    bad = np.nonzero(got != want0[idx])[0]
    if len(bad):
        i = int(bad[0])
        raise Violation(f"row {i} of {n}: contains({P0[idx[i]].tolist()}) is {bool(got[i])}, expected {not bool(got[i])} for {spec}")


def poly_in(case, ctx):
    spec, q = case["s"], dict(case["q"])
    o, s = oracle(spec), build(spec)
    oq = oracle(q)
    # place the polyhedron inside / around / across the shape
    V = o.c + case["f"] * (o.size + 1e-3) / max(oq.size, 1e-9) * (oq.V - oq.c) + case["d"] * o.size * unit(np.array([1.0, 0.4, -0.7]))
    if case["inner"]:
        u = V - o.c
        V = np.array([o.c + (0.9 if np.linalg.norm(w) == 0 else 0.95 * min(1.0, 1.0 / max(o.gauge(o.c + w), 1e-12))) * w for w in u])
    g = np.array([max(o.gauge(v), 1 + o.off(v) if o.off(v) > 1e-12 * scale_of(o) else 0) for v in V])
    if np.any(np.abs(g - 1) < 1e-4):
        ctx.trivial("borderline")
        return
    # use a raw span form so that no conversion is needed: only the vertices matter
    A = np.vstack((np.eye(3), -np.eye(3)))
    b = np.concatenate((V.max(axis=0), -V.min(axis=0)))
    p = rg.ConvexPolyhedron(span_form=rg.SpanForm(vertices=V), face_form=rg.FaceForm(A_ineq=A, b_ineq=b))
    want = bool(np.all(g < 1))
    ctx.label(f"contained={want}", "kind=" + spec["k"])
    require(boolean(s.contains_polyhedron(p)) == want, f"contains_polyhedron is {not want} for {spec}, vertices {V.tolist()}")
    want0 = bool(booleans(s.contains(V, tol=1e-3), len(V)).all())
    require(boolean(s.contains_polyhedron(p, tol=1e-3)) == want0, "contains_polyhedron(tol) is not 'contains all vertices'")


def any_shape(degenerate=True):
    return st.one_of(gen.shape3(wide=True, degenerate=degenerate), st.integers(1, 5).flatmap(lambda n: gen.ell(n, degenerate=degenerate)))


PROP = Prop("C06", [
    Sub("members", lambda: gen.fd(s=any_shape(), seed=gen.seeds), members, 6000, 80000, confirm=jitter,
        rule="a shape (degenerate extents included) with ~60 probe points: centre, interior, exact boundary, and outside at known distances"),
    Sub("tolerance", lambda: gen.fd(s=any_shape(), seed=gen.seeds, tol=st.sampled_from([1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.5])),
        tolerance, 3000, 40000, confirm=jitter,
        rule="probes at 0.05-30 times the tolerance; decided only when distance and normalised excess agree; trivial if none decided"),
    Sub("thin", lambda: gen.fd(s=thin_shape(), seed=gen.seeds), thin, 1200, 20000,
        rule="ellipsoids and cylinders with extents of 2.5e-8 to 1e-4 next to others of order one"),
    Sub("batch", lambda: gen.fd(s=any_shape(), seed=gen.seeds, n=st.sampled_from([0, 1, 2, 3, 5]), form=st.sampled_from(["float", "int", "list"])),
        batch, 3000, 30000, rule="batches of 0-5 points as arrays, integer arrays and lists"),
    Sub("large", lambda: gen.fd(s=any_shape(), seed=gen.seeds, n=st.one_of(st.integers(6, 300), st.sampled_from([64, 128, 255, 256, 257, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 10001])), last=st.booleans()),
        large, 600, 8000, confirm=jitter, rule="batches of 6 to 10001 points"),
    Sub("poly_in", lambda: gen.fd(s=gen.shape3(wide=True, degenerate=False), q=gen.poly(), f=st.sampled_from([0.2, 0.5, 0.9, 1.5]),
                                  d=st.sampled_from([0.0, 0.3, 0.8, 2.0]), inner=st.booleans()),
        poly_in, 2000, 20000, confirm=jitter, rule="polyhedra inside, across and outside shapes; trivial when a vertex is within 1e-4 of the boundary"),
], assumptions=["points within 5% of the tolerance limit are not judged",
                "the tolerance is taken in the shape's own normalised inequalities when these differ from distances"])
