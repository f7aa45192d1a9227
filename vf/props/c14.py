"""C14: face form and span form of a polyhedron describe the same set."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st
from scipy.optimize import linprog

from .. import gen
from ..geo import arr, booleans, boolean, inst, near, require, rot, hull_facets, jitter, poly_vertices
from ..harness import Inconclusive, Prop, Sub, Violation

INF = float("inf")


class Gen:
    """The set conv(V) + cone(R) (V empty: the cone), decided by linear programming."""

    def __init__(self, V, R, n):
        self.V = np.asarray(V, float).reshape(-1, n)
        if len(self.V) == 0:
            self.V = np.zeros((1, n))
        self.R = np.asarray(R, float).reshape(-1, n)
        self.n = n

    def sup(self, u):
        if len(self.R) and (self.R @ u).max() > 1e-9:
            return INF
        return float((self.V @ u).max())

    def dist(self, x):
        """Infinity-norm distance."""
        n, k, m = self.n, len(self.V), len(self.R)
        G = np.hstack((self.V.T, self.R.T))
        one = np.ones((n, 1))
        A = np.block([[G, -one], [-G, -one]])
        r = linprog(np.append(np.zeros(k + m), 1.0), A_ub=A, b_ub=np.concatenate((x, -x)),
                    A_eq=np.concatenate((np.ones(k), np.zeros(m + 1)))[None], b_eq=[1.0],
                    bounds=[(0, None)] * (k + m + 1), method="highs")
        if r.status != 0:
            raise Inconclusive("linprog %d" % r.status)
        return float(r.fun)


def _lp(c, A, b):
    r = linprog(c, A_ub=A if len(A) else None, b_ub=b if len(A) else None, bounds=[(None, None)] * len(c), method="highs")
    return r


def feasible(A, b):
    """Is {Ax <= b} non-empty? (least uniform relaxation of the rows is zero)"""
    if len(A) == 0:
        return True
    n = A.shape[1]
    r = _lp(np.append(np.zeros(n), 1.0), np.vstack((np.hstack((A, -np.ones((len(A), 1)))), np.append(np.zeros(n), -1.0))),
            np.append(b, 0.0))
    if r.status != 0:
        raise Inconclusive("linprog %d" % r.status)
    return r.fun <= 1e-8


def face_sup(A, b, u, nonempty=False):
    """sup of u over {Ax <= b}; -inf if empty, inf if unbounded."""
    if not nonempty and not feasible(A, b):
        return -INF
    # recession cone: is there a direction y, Ay <= 0, with u.y > 0?  (bounded LP)
    n = len(u)
    r = linprog(-u, A_ub=A if len(A) else None, b_ub=np.zeros(len(A)) if len(A) else None, bounds=[(-1, 1)] * n, method="highs")
    if r.status != 0:
        raise Inconclusive("linprog %d" % r.status)
    if r.fun < -1e-7:
        return INF
    r = _lp(-u, A, b)
    if r.status == 0:
        return -float(r.fun)
    raise Inconclusive("linprog %d" % r.status)


def faces(F, n, what):
    inst(F, rg.FaceForm, what)
    A = arr(F.A, what=what + ".A")
    require(A.ndim == 2 and A.shape[1] == n, f"{what}.A has shape {A.shape}")
    b = arr(F.b, (len(A),), what + ".b")
    require(F.nf == len(A) and F.dim == n, what + ": nf/dim are wrong")
    return A, b


def spans(S, n, what):
    inst(S, rg.SpanForm, what)
    V = np.zeros((0, n)) if S.vertices is None else arr(S.vertices, what=what + " vertices")
    R = np.zeros((0, n)) if S.rays is None else arr(S.rays, what=what + " rays")
    require(V.ndim == 2 and V.shape[1] == n and R.ndim == 2 and R.shape[1] == n, what + " has wrong dimensions")
    require(S.nv == len(V) and S.nr == len(R) and S.dim == n, what + ": nv/nr/dim are wrong")
    return V, R


def dirs(n, seed, k=6):
    rng = np.random.default_rng(seed)
    D = rng.integers(-3, 4, size=(k, n)).astype(float)
    D = np.vstack((D, np.eye(n), -np.eye(n)))
    return D[np.abs(D).sum(axis=1) > 0]


def probes(g, seed, k=6):
    rng = np.random.default_rng(seed + 17)
    P = [rng.integers(-8, 9, size=g.n) / 2.0 for _ in range(k)]
    for _ in range(4):
        w = rng.random(len(g.V))
        x = w @ g.V / w.sum()
        if len(g.R):
            x = x + rng.random(len(g.R)) @ g.R
        P += [x, x + rng.choice([-1, 1], size=g.n) * rng.choice([0.3, 1.0, 4.0])]
    return np.array(P)


def same_face(g, A, b, seed, what, k=5):
    """{Ax <= b} is the set g."""
    n = g.n
    s = np.maximum(np.abs(A).max(axis=1, initial=0), 1e-12) if len(A) else np.ones(0)
    As, bs = A / s[:, None], b / s
    # g inside the faces: every generator satisfies every row
    for v in g.V:
        e = float(np.max(As @ v - bs, initial=-1.0))
        if e > 1e-7 * (1 + np.abs(v).max()):
            raise Violation(f"{what}: {v.tolist()} is in the set but violates a face by {e:.3g}")
    for r in g.R:
        e = float(np.max(As @ r, initial=-1.0))
        if e > 1e-7:
            raise Violation(f"{what}: direction {r.tolist()} stays in the set but leaves a face")
    # faces inside g
    for x in probes(g, seed):
        if np.max(As @ x - bs, initial=-1.0) <= 1e-9:
            d = g.dist(x)
            if d > 1e-6:
                raise Violation(f"{what}: {x.tolist()} is outside the set (by {d:.3g}) but satisfies every face")
    D = dirs(n, seed)
    for u in D[np.random.default_rng(seed + 5).permutation(len(D))[:k]]:
        w = g.sup(u)
        if w == INF:
            continue  # already shown to be unbounded there
        h = face_sup(A, b, u, nonempty=True)
        if h == INF or abs(w - h) > 1e-6 * (1 + abs(w)):
            raise Violation(f"{what}: support in direction {u.tolist()} is {h}, expected {w}")


def same_span(g, V, R, seed, what):
    h = Gen(V, R, g.n)
    for u in np.vstack((dirs(g.n, seed + 3, 10), np.random.default_rng(seed).normal(size=(6, g.n)))):
        a, b = g.sup(u), h.sup(u)
        if (a == INF) != (b == INF) or (a < INF and abs(a - b) > 1e-6 * (1 + abs(a))):
            raise Violation(f"{what}: support in direction {u.tolist()} is {b}, expected {a}")
    for v in V:
        if np.abs(g.V - v).max(axis=1).min() > 1e-9:
            require(g.dist(v) <= 1e-6 * (1 + np.abs(v).max()), f"{what}: vertex {v.tolist()} is outside the set")
    if len(V) == 0 and np.abs(g.V).max(axis=1).min() > 0:
        require(g.dist(np.zeros(g.n)) <= 1e-6, f"{what}: a cone, but the set is not")


def pointed(R):
    """No line in cone(R)?"""
    if len(R) == 0:
        return True
    r = linprog(np.zeros(len(R)), A_eq=np.vstack((R.T, np.ones(len(R)))), b_eq=np.append(np.zeros(R.shape[1]), 1.0),
                bounds=[(0, None)] * len(R), method="highs")
    return r.status == 2


def irredundant_span(V, R, n, what):
    if not pointed(R):
        return
    for i in range(len(V)):
        if len(V) > 1 and Gen(np.delete(V, i, 0), R, n).dist(V[i]) <= 1e-9:
            raise Violation(f"{what}: vertex {V[i].tolist()} is redundant")
    for i in range(len(R)):
        if len(R) > 1 and Gen([], np.delete(R, i, 0), n).dist(R[i]) <= 1e-9 * np.abs(R[i]).max():
            raise Violation(f"{what}: ray {R[i].tolist()} is redundant")
        require(np.abs(R[i]).max() > 1e-9, f"{what}: zero ray")


def irredundant_face(A, b, what):
    for i in range(len(A)):
        if face_sup(np.delete(A, i, 0), np.delete(b, i), A[i], nonempty=True) <= b[i] + 1e-9 * (1 + abs(b[i])):
            raise Violation(f"{what}: row {A[i].tolist()} <= {b[i]} is redundant")


def whole(V, R, n):
    """Is conv(V) + cone(R) all of space (no proper face)?"""
    return len(R) > n and all((R @ u).max() > 1e-9 for u in np.vstack((np.eye(n), -np.eye(n)))) and \
        all(Gen([], R, n).dist(u) <= 1e-9 for u in np.vstack((np.eye(n), -np.eye(n))))


def span(case, ctx):
    n = case["n"]
    V = np.array([p[:n] for p in case["V"]], float).reshape(-1, n)
    R = np.array([p[:n] for p in case["R"] if any(p[:n])], float).reshape(-1, n)
    L = np.array([p[:n] for p in case["L"] if any(p[:n])], float).reshape(-1, n)
    if len(V) + len(R) + len(L) == 0:
        ctx.trivial("empty")
        return
    kw = {}
    if len(V):
        kw["vertices"] = V / case["den"]
    if len(R):
        kw["rays"] = R
    if len(L):
        kw["span"] = L
    g = Gen(V / case["den"], np.vstack((R, L, -L)), n)
    if whole(g.V, g.R, n):
        ctx.trivial("whole space")
        return
    S = rg.SpanForm(**kw)
    V1, R1 = spans(S, n, "span form")
    cone = len(V) == 0
    bounded = len(g.R) == 0
    ctx.label(f"dim={n}", "cone" if cone else "bounded" if bounded else "unbounded", "lines" if len(L) else "no lines",
              f"nv={len(V)}", f"nr={len(g.R)}")
    require(boolean(S.bounded()) == bounded, f"bounded() is {S.bounded()} for {S!r}")
    if not (len(V) and np.all(V == 0)):
        require(boolean(S.is_cone()) == cone, f"is_cone() is {S.is_cone()} for {S!r}")
    if len(V) and bounded:
        require(not boolean(S.is_cone()), "a set with vertices only is a cone")
    same_span(g, V1, R1, case["seed"], "span form")
    F = S.to_face_form()
    A, b = faces(F, n, "face form")
    same_face(g, A, b, case["seed"], "to_face_form")
    C = S.canonical()
    Vc, Rc = spans(C, n, "canonical span form")
    same_span(g, Vc, Rc, case["seed"], "canonical span form")
    irredundant_span(Vc, Rc, n, "canonical span form")
    require((len(Rc) == 0) == bounded, "canonical form changed boundedness")
    Fc = F.canonical()
    Ac, bc = faces(Fc, n, "canonical face form")
    same_face(g, Ac, bc, case["seed"] + 1, "canonical face form")
    irredundant_face(Ac, bc, "canonical face form")
    for G, what in ((F, "to_span_form"), (Fc, "to_span_form of canonical")):
        S2 = G.to_span_form()
        V2, R2 = spans(S2, n, what)
        same_span(g, V2, R2, case["seed"] + 2, what)
        irredundant_span(V2, R2, n, what)
        require(boolean(S2.bounded()) == bounded, f"{what}: bounded() is {S2.bounded()}")
        if cone and pointed(g.R):
            require(boolean(S2.is_cone()), f"{what}: is_cone() is False for a cone")
    # unbounded polyhedra are rejected, bounded ones accepted
    for kw in ({"span_form": S}, {"face_form": F}, {"face_form": F, "span_form": S}):
        try:
            p = rg.ConvexPolyhedron(**kw)
            require(bounded, f"unbounded polyhedron accepted: {S!r}")
            same_span(g, *spans(p.span_form, n, "polyhedron"), case["seed"], "polyhedron")
            same_face(g, *faces(p.face_form, n, "polyhedron"), case["seed"], "polyhedron")
        except ValueError as e:
            if bounded:
                raise Violation(f"bounded polyhedron rejected: {e}") from e
    # rigid motion of both forms
    Q, t = rot(case["Q"], n) if n > 1 else np.eye(1), np.array(case["t"][:n], float)
    gm = Gen(g.V @ Q.T + t, g.R @ Q.T, n)
    for args, gm in (({"rotation": Q, "translation": t}, gm), ({"rotation": Q}, Gen(g.V @ Q.T, g.R @ Q.T, n)),
                     ({"translation": t}, Gen(g.V + t, g.R, n)), ({}, g)):
        same_span(gm, *spans(S.transform(**args), n, "transformed span form"), case["seed"], f"SpanForm.transform({sorted(args)})")
        same_face(gm, *faces(F.transform(**args), n, "transformed face form"), case["seed"], f"FaceForm.transform({sorted(args)})")
    same_span(g, *spans(S, n, "span form"), case["seed"], "span form after all queries")


def face(case, ctx):
    """From inequalities (and equalities): empty, bounded and unbounded sets."""
    n = case["n"]
    rows = [r for r in case["A"] if any(r[:n])]
    eqs = [r for r in case["E"] if any(r[:n])]
    dt = int if case["int"] else float
    A = np.array([r[:n] for r in rows], dt).reshape(-1, n)
    b = np.array([r[4] for r in rows], dt)
    E = np.array([r[:n] for r in eqs], dt).reshape(-1, n)
    f = np.array([r[4] for r in eqs], dt)
    AA, bb = np.vstack((A, E, -E)).astype(float), np.concatenate((b, f, -f)).astype(float)
    if len(AA) == 0:
        ctx.trivial("no rows")
        return
    kw = {"A_eq": E, "b_eq": f} if len(E) else {}
    F = rg.FaceForm(A_ineq=A, b_ineq=b, **kw)
    A1, b1 = faces(F, n, "face form")
    empty = not feasible(AA, bb)
    ctx.label(f"dim={n}", "empty" if empty else "non-empty", f"rows={len(A)}", f"eqs={len(E)}", "int" if case["int"] else "float")
    S = F.to_span_form()
    if empty:
        require(S is None, f"empty set has span form {S!r}")
        return
    V, R = spans(S, n, "span form")
    g = Gen(V, R, n)
    for u in dirs(n, case["seed"], 3):
        w, h = face_sup(AA, bb, u, nonempty=True), g.sup(u)
        if (w == INF) != (h == INF) or (w < INF and abs(w - h) > 1e-6 * (1 + abs(w))):
            raise Violation(f"to_span_form: support in direction {u.tolist()} is {h}, expected {w} for {F!r}")
    for v in V:
        require(np.all(AA @ v <= bb + 1e-7 * (1 + np.abs(bb))), f"to_span_form: vertex {v.tolist()} outside {F!r}")
    for r in R:
        require(np.all(AA @ r <= 1e-7), f"to_span_form: ray {r.tolist()} leaves {F!r}")
    irredundant_span(V, R, n, "to_span_form")
    Fc = F.canonical()
    Ac, bc = faces(Fc, n, "canonical face form")
    same_face(g, Ac, bc, case["seed"], "canonical face form")
    irredundant_face(Ac, bc, "canonical face form")
    bounded = len(R) == 0
    ctx.label("bounded" if bounded else "unbounded")
    for prune in (False, True):
        try:
            p = rg.ConvexPolyhedron.from_halfspaces(AA.astype(dt), bb.astype(dt), prune=prune)
            require(bounded, f"unbounded halfspaces accepted: {F!r}")
            Ap, bp = faces(p.face_form, n, "polyhedron")
            same_face(g, Ap, bp, case["seed"], "from_halfspaces")
            same_span(g, *spans(p.span_form, n, "polyhedron"), case["seed"], "from_halfspaces")
            require(p.nf == len(Ap) and p.nv == len(p.vertices) and p.dim == n, "nf/nv/dim are wrong")
            near(p.A, Ap, what="A"), near(p.b, bp, what="b")
            if prune:
                irredundant_face(Ap, bp, "pruned polyhedron")
            x = probes(g, case["seed"])
            got = booleans(p.contains(x, tol=1e-7), len(x))
            d = np.array([g.dist(y) for y in x])
            require(np.all(got[d < 1e-9]) and not np.any(got[d > 1e-4]), "contains disagrees with the halfspaces")
        except ValueError as e:
            if bounded:
                raise Violation(f"bounded polyhedron rejected: {e}") from e
    # stacking is intersection
    rows2 = [r for r in case["B"] if any(r[:n])]
    if rows2:
        B, d = np.array([r[:n] for r in rows2], float).reshape(-1, n), np.array([r[4] for r in rows2], float)
        K = F.stack(rg.FaceForm(A_ineq=B, b_ineq=d))
        Ak, bk = faces(K, n, "stacked face form")
        for x in np.vstack((probes(g, case["seed"]), np.zeros(n), V)):
            e = max((AA @ x - bb).max(), (B @ x - d).max())
            k = (Ak @ x - bk).max()
            if (e <= 1e-9) != (k <= 1e-9) and abs(e) > 1e-7:
                raise Violation(f"stack: {x.tolist()} belongs to the stack: {k <= 1e-9}, to both: {e <= 1e-9}")
        Sk = K.to_span_form()
        if not feasible(np.vstack((AA, B)), np.concatenate((bb, d))):
            require(Sk is None, "span form of an empty stack")
        else:
            gk = Gen(*spans(Sk, n, "stacked span form"), n)
            for u in dirs(n, case["seed"] + 1, 4):
                w, h = face_sup(np.vstack((AA, B)), np.concatenate((bb, d)), u, nonempty=True), gk.sup(u)
                require((w == INF) == (h == INF) and (w == INF or abs(w - h) <= 1e-6 * (1 + abs(w))),
                        f"stack: support in direction {u.tolist()} is {h}, expected {w}")
        near(F.A, A1, rtol=0, atol=0, what="face form after stack")


def polys(case, ctx):
    """ConvexPolyhedron.from_vertices (pruned or not) and simplex."""
    n = case["n"]
    V = np.array([p[:n] for p in case["V"]], float) / case["den"]
    g = Gen(V, [], n)
    ctx.label(f"dim={n}", f"nv={len(V)}", f"rank={np.linalg.matrix_rank(V - V[0])}")
    src = V.tolist() if case["list"] else V
    p, q = rg.ConvexPolyhedron.from_vertices(src), rg.ConvexPolyhedron.from_vertices(src, prune=True)
    for x, what in ((p, "from_vertices"), (q, "from_vertices(prune)")):
        inst(x, rg.ConvexPolyhedron, what)
        same_span(g, *spans(x.span_form, n, what), case["seed"], what)
        same_face(g, *faces(x.face_form, n, what), case["seed"], what)
        require(x.nv == len(x.vertices) and x.nf == len(x.A) == len(x.b) and x.dim == n, what + ": nv/nf/dim are wrong")
    near(p.vertices, V, rtol=0, atol=0, what="vertices")
    irredundant_span(arr(q.vertices), np.zeros((0, n)), n, "pruned polyhedron")
    e = np.array(case["ext"][:n])
    s = rg.ConvexPolyhedron.simplex(e.tolist() if case["list"] else e)
    want = np.vstack((np.zeros(n), np.diag(e)))
    got = arr(s.vertices)
    require(got.shape == want.shape and all(np.abs(got - w).max(axis=1).min() < 1e-12 for w in want), f"simplex vertices {got.tolist()}")
    same_face(Gen(want, [], n), *faces(s.face_form, n, "simplex"), case["seed"], "simplex")


def posed(case, ctx):
    """Solids and lattice hulls in general pose: facets compared with qhull's."""
    V = poly_vertices(case["s"])
    g = Gen(V, [], 3)
    ctx.label(case["s"]["base"] if isinstance(case["s"]["base"], str) else "hull", "turned" if case["s"]["R"] else "axis-aligned")
    A0, b0 = hull_facets(V)
    size = np.abs(V - V.mean(axis=0)).max()
    S = rg.SpanForm(vertices=V)
    F = S.to_face_form()
    p = rg.ConvexPolyhedron.from_vertices(V, prune=True)
    for X, what in ((F, "to_face_form"), (F.canonical(), "canonical face form"), (p.face_form, "from_vertices(prune)")):
        A, b = faces(X, 3, what)
        nr = np.linalg.norm(A, axis=1)
        require(np.all(nr > 0), what + ": zero row")
        A, b = A / nr[:, None], b / nr
        off = float((V @ A.T - b).max())
        require(off <= 1e-6 * (size + np.abs(V).max()), f"{what}: a vertex violates a face by {off:.3g}")
        for a, c in zip(A0, b0):
            d = np.abs(A - a).max(axis=1) + np.abs(b - c) / (size + abs(c))
            require(d.min() <= 1e-5, f"{what}: facet {a.tolist()} <= {c} is missing ({len(A)} rows)")
    S2 = F.to_span_form()
    for X, what in ((S2, "to_span_form"), (S.canonical(), "canonical span form"), (p.span_form, "from_vertices(prune)")):
        W, R = spans(X, 3, what)
        require(len(R) == 0, what + ": rays in a bounded set")
        require(len(W) == len(V), f"{what}: {len(W)} vertices, expected {len(V)}")
        for v in V:
            require(np.abs(W - v).max(axis=1).min() <= 1e-6 * (size + np.abs(v).max()), f"{what}: vertex {v.tolist()} is missing")


def scaled(case, ctx):
    """The same set in other units: both forms scale with it."""
    n, k = case["n"], 2.0 ** case["k"]
    V = np.array([p[:n] for p in case["V"]], float).reshape(-1, n)
    R = np.array([p[:n] for p in case["R"] if any(p[:n])], float).reshape(-1, n)
    if len(V) == 0:
        ctx.trivial("no vertices")
        return
    g = Gen(V, R, n)
    if whole(g.V, g.R, n):
        ctx.trivial("whole space")
        return
    bounded = len(R) == 0
    ctx.label(f"times 2^{case['k']}", "bounded" if bounded else "unbounded")
    S = rg.SpanForm(vertices=V * k, rays=R if len(R) else None)
    F = S.to_face_form()
    C = S.canonical()
    for X, what in ((F, "to_face_form"), (F.canonical(), "canonical face form")):
        A, b = faces(X, n, what)
        same_face(g, A, b / k, case["seed"], f"{what} (set scaled by {k})")
    for X, what in ((C, "canonical span form"), (F.to_span_form(), "to_span_form"), (F.canonical().to_span_form(), "to_span_form of canonical")):
        W, Q = spans(X, n, what)
        same_span(g, W / k, Q, case["seed"], f"{what} (set scaled by {k})")
        irredundant_span(W / k, Q, n, f"{what} (set scaled by {k})")
    if bounded:
        p = rg.ConvexPolyhedron.from_vertices(V * k, prune=True)
        same_span(g, *[x / k for x in spans(p.span_form, n, "polyhedron")], case["seed"], f"polyhedron scaled by {k}")
        A, b = faces(F, n, "face form")
        q = rg.ConvexPolyhedron.from_halfspaces(A, b)
        same_span(g, *[x / k for x in spans(q.span_form, n, "polyhedron")], case["seed"], f"polyhedron of the halfspaces, scaled by {k}")
        T = S.transform(translation=np.full(n, 3.0 * k))
        same_span(Gen(V + 3, [], n), *[x / k for x in spans(T, n, "moved")], case["seed"], f"moved set scaled by {k}")


def rows(case, ctx):
    """Halfspaces and directions describe the same set whatever their scale."""
    n, k = case["n"], 2.0 ** case["k"]
    A0 = np.array([r[:n] for r in case["A"] if any(r[:n])], float).reshape(-1, n)
    b0 = np.array([r[4] for r in case["A"] if any(r[:n])], float)
    if len(A0) == 0:
        ctx.trivial("no rows")
        return
    w = np.resize(2.0 ** np.array(case["w"], float), len(A0))
    A, b = A0 * w[:, None], b0 * k * w
    F = rg.FaceForm(A_ineq=A, b_ineq=b)
    empty = not feasible(A0, b0)
    ctx.label("empty" if empty else "non-empty", "rows scaled by 2^%d..2^%d" % (np.log2(w.min()), np.log2(w.max())), f"units 2^{case['k']}")
    S = F.to_span_form()
    if empty:
        require(S is None, f"empty set has span form {S!r}")
        return

    def agree(V, R, what):
        g = Gen(V / k, R / np.maximum(np.abs(R).max(axis=1, initial=0), 1e-300)[:, None], n)
        for u in dirs(n, case["seed"], 3):
            x, y = face_sup(A0, b0, u, nonempty=True), g.sup(u)
            if (x == INF) != (y == INF) or (x < INF and abs(x - y) > 1e-6 * (1 + abs(x))):
                raise Violation(f"{what}: support in direction {u.tolist()} is {y}, expected {x} for {F!r}")
        return g

    g = agree(*spans(S, n, "span form"), "to_span_form")
    Fc = F.canonical()
    Ac, bc = faces(Fc, n, "canonical face form")
    same_face(g, Ac, bc / k, case["seed"], "canonical face form")
    agree(*spans(Fc.to_span_form(), n, "span form of canonical"), "to_span_form of canonical")
    if len(g.R):
        # directions of any length
        v = np.resize(2.0 ** np.array(case["w"][::-1], float), len(g.R))
        H = rg.SpanForm(vertices=g.V * k, rays=g.R * v[:, None])
        same_face(g, *[x / y for x, y in zip(faces(H.to_face_form(), n, "face form of scaled rays"), (1.0, k))], case["seed"], "to_face_form of scaled rays")
        agree(*spans(H.canonical(), n, "canonical span form"), "canonical span form of scaled rays")
    else:
        p = rg.ConvexPolyhedron.from_halfspaces(A, b)
        agree(*spans(p.span_form, n, "polyhedron"), "from_halfspaces")


_p = st.lists(st.integers(-3, 3), min_size=4, max_size=4)


def s_span(n):
    return gen.fd(n=st.just(n), V=st.lists(_p, max_size=7), R=st.lists(_p, max_size=4), L=st.one_of(st.just([]), st.just([]), st.lists(_p, max_size=2)),
                  den=st.sampled_from([1, 2, 4, 8]), Q=gen.rotation(n, angle=gen.angle_clear), t=st.one_of(gen.vec(4, gen.eighths), gen.sparse(4, gen.eighths)), seed=gen.seeds)


def s_cone(n):
    return s_span(n).map(lambda c: dict(c, V=[], L=[]))


def s_bounded(n):
    return s_span(n).map(lambda c: dict(c, R=[], L=[]))


_row = st.lists(st.integers(-3, 3), min_size=5, max_size=5)


def s_face(n):
    boxy = st.integers(1, 4).map(lambda k: [[s if i == j else 0 for i in range(4)] + [k] for j in range(n) for s in (1, -1)])
    rows = st.one_of(st.lists(_row, max_size=7), st.tuples(boxy, st.lists(_row, max_size=4)).map(lambda t: t[0] + t[1]))
    return gen.fd(n=st.just(n), A=rows, E=st.one_of(st.just([]), st.just([]), st.lists(_row, max_size=2)), B=st.lists(_row, max_size=3),
                  int=st.booleans(), seed=gen.seeds)


PROP = Prop("C14", [
    Sub("span", lambda: st.one_of([s_span(n) for n in (1, 2, 3, 3, 4)] + [s_bounded(n) for n in (2, 3)] + [s_cone(n) for n in (2, 3)]), span, 500, 8000,
        rule="lattice vertices/rays/lines in 1-4D; every conversion, canonical form, transform decided by linear programming; trivial if empty or whole space"),
    Sub("face", lambda: st.one_of([s_face(n) for n in (1, 2, 3, 3, 4)]), face, 600, 10000,
        rule="integer inequalities/equalities in 1-4D (empty, bounded, unbounded), int and float arrays, stacking"),
    Sub("polys", lambda: st.one_of([gen.fd(n=st.just(n), V=st.lists(_p, min_size=1, max_size=9), den=st.sampled_from([1, 2, 8]), list=st.booleans(),
                                           ext=st.lists(gen.pos8, min_size=4, max_size=4), seed=gen.seeds) for n in (1, 2, 3, 4)]), polys, 600, 10000,
        rule="polyhedra from 1-9 lattice vertices (redundant, duplicate, flat) and simplices in 1-4D"),
    Sub("scaled", lambda: gen.fd(n=st.sampled_from([1, 2, 3, 3, 4]), V=st.lists(_p, min_size=1, max_size=8), R=st.one_of(st.just([]), st.just([]), st.lists(_p, max_size=2)), k=st.sampled_from([10, 14, 17, 20, 27, -4, -7, -14, -20, -27]), seed=gen.seeds), scaled, 300, 5000,
        rule="the same sets in units from 2^-27 to 2^27"),
    Sub("rows", lambda: st.one_of([st.tuples(s_face(n), st.lists(st.sampled_from([0, 3, -3, 10, -10, 20, -20, 27, -27]), min_size=1, max_size=6), st.sampled_from([0, 0, 7, -7, 14, 20, -20])).map(
        lambda t: dict(n=t[0]["n"], A=t[0]["A"], w=t[1], k=t[2], seed=t[0]["seed"])) for n in (1, 2, 3, 3, 4)]), rows, 400, 6000,
        rule="halfspaces whose rows (and directions whose lengths) are scaled by 2^-27 to 2^27, in several units"),
    Sub("posed", lambda: gen.fd(s=gen.poly()), posed, 1500, 20000, confirm=jitter, rule="solids and lattice hulls scaled, turned and shifted; facets and vertices compared with qhull's"),
], assumptions=["coordinates are small dyadic numbers times a power of two, where the floating-point double description library is exact (see KNOWN_FINDINGS.txt)"])
