"""C16: polyhedron intersection is set intersection."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st
from scipy.optimize import linprog

from .. import gen
from ..geo import arr, booleans, build, inst, jitter, near, oracle, require
from ..harness import Inconclusive, Prop, Sub, Violation
from .c14 import Gen, same_face


class Meet:
    """conv(V1) & conv(V2) & ...: support and emptiness by linear programming."""

    def __init__(self, *Vs):
        self.Vs = [np.asarray(V, float) for V in Vs]
        self.n = self.Vs[0].shape[1]
        self.c = self.Vs[0].mean(axis=0)
        self.Vs = [V - self.c for V in self.Vs]
        self.size = max(np.abs(V).max() for V in self.Vs) + 1e-300

    def _eq(self, slack):
        n = self.n
        k = sum(len(V) for V in self.Vs)
        rows, rhs, rs = [], [], []
        off = 0
        first = None
        A, B = [], []
        for V in self.Vs:
            s = np.zeros(k)
            s[off:off + len(V)] = 1
            rows.append(s)
            rhs.append(1.0)
            M = np.zeros((n, k))
            M[:, off:off + len(V)] = V.T
            if first is None:
                first = M
            else:
                A.append(first - M)
            off += len(V)
        return k, np.array(rows), np.array(rhs), (np.vstack(A) if A else np.zeros((0, k))), first

    def gap(self):
        """Smallest e such that points of all sets lie within e of each other (0: they meet)."""
        k, E, e, D, first = self._eq(True)
        one = np.ones((len(D), 1))
        r = linprog(np.append(np.zeros(k), 1.0), A_ub=np.vstack((np.hstack((D, -one)), np.hstack((-D, -one)))) if len(D) else None,
                    b_ub=np.zeros(2 * len(D)) if len(D) else None, A_eq=np.hstack((E, np.zeros((len(E), 1)))), b_eq=e,
                    bounds=[(0, None)] * (k + 1), method="highs")
        if r.status != 0:
            raise Inconclusive("linprog %d" % r.status)
        return float(r.fun)

    def sup(self, u):
        k, E, e, D, first = self._eq(False)
        r = linprog(-(u @ first), A_eq=np.vstack((E, D)), b_eq=np.append(e, np.zeros(len(D))), bounds=[(0, None)] * k, method="highs")
        if r.status != 0:
            raise Inconclusive("linprog %d" % r.status)
        return -float(r.fun) + float(u @ self.c)


def judge(K, Vs, D, what, tol=1e-6):
    """K is the intersection of the hulls Vs. Returns its vertices or None."""
    m = Meet(*Vs)
    g = m.gap()
    if 1e-9 * m.size < g <= 1e-6 * m.size:
        raise Inconclusive("almost touching")
    empty = g > 1e-6 * m.size
    if empty:
        require(K is None, f"{what} is {K!r}, but the sets are {g:.3g} apart")
        return None
    require(K is not None, f"{what} is None, but the sets meet")
    inst(K, rg.ConvexPolyhedron, what)
    n = m.n
    V = arr(K.vertices, what=what + " vertices")
    require(V.ndim == 2 and V.shape[1] == n and len(V) > 0 and K.dim == n, f"{what}: vertices have shape {V.shape}")
    s = tol * (1 + m.size)
    for v in V:
        for W in Vs:
            if np.abs(W - v).max(axis=1).min() > s:
                d = Gen(W - m.c, [], n).dist(v - m.c)
                require(d <= s, f"{what}: vertex {v.tolist()} is outside one of the sets by {d:.3g}")
    for u in D:
        w, h = m.sup(u), float((V @ u).max())
        require(abs(w - h) <= 10 * s * np.abs(u).sum(), f"{what}: support in direction {u.tolist()} is {h}, expected {w}")
    return V


def dirs(n, seed, k=5):
    rng = np.random.default_rng(seed)
    D = np.vstack((rng.integers(-2, 3, size=(k, n)), rng.normal(size=(2, n))))
    return D[np.abs(D).sum(axis=1) > 0]


def lattice(case, ctx):
    n = case["n"]
    f = np.array(case["f"][:n], float)
    Ps = [np.array([p[:n] for p in P], float) * f / case["den"] for P in case["P"]]
    rel = case["rel"]
    if rel == "touch":
        # shift the second so that its lowest point along axis 0 meets the highest of the first
        a, b = Ps[0][Ps[0][:, 0].argmax()], Ps[1][Ps[1][:, 0].argmin()]
        Ps[1] = Ps[1] + (a - b)
    elif rel == "inside":
        Ps[1] = np.vstack((Ps[0], Ps[1]))
    elif rel == "slide":
        Ps[1] = Ps[0] + np.array(case["P"][1][0][:n], float) * f / case["den"]
    shapes = [rg.ConvexPolyhedron.from_vertices(P, prune=bool(i % 2 == case["prune"])) for i, P in enumerate(Ps)]
    keep = [s.vertices.copy() for s in shapes]
    p, q, r = shapes
    D = dirs(n, case["seed"])
    K = p.intersect(q)
    V = judge(K, Ps[:2], D, "intersection")
    ctx.label(f"dim={n}", rel, "empty" if V is None else f"meet rank={np.linalg.matrix_rank(V - V[0], tol=1e-7)}")
    L = q.intersect(p)
    judge(L, Ps[1::-1], D, "swapped intersection")
    judge(p.intersect(p), Ps[:1], D[:2], "intersection with itself")
    if rel == "inside":
        require(K.is_same(p, tol=1e-6), "intersecting with a superset changes the set")
    if V is not None:
        same_face(Gen(V, [], n), arr(K.A), arr(K.b), case["seed"], "face form of the intersection", k=2)
        judge(K.intersect(r), Ps, D[:3], "(p & q) & r")
        judge(K.intersect(p), Ps[:2], D[:2], "(p & q) & p")
        x = np.vstack((V, V.mean(axis=0), Ps[0], Ps[1]))
        got = booleans(K.contains(x, tol=1e-6), len(x), "contains")
        in_p, in_q = booleans(p.contains(x, tol=1e-5), len(x)), booleans(q.contains(x, tol=1e-5), len(x))
        both = booleans(p.contains(x, tol=1e-9), len(x)) & booleans(q.contains(x, tol=1e-9), len(x))
        require(np.all(got[both]), "a point of both polyhedra is not in the intersection")
        require(not np.any(got & ~(in_p & in_q)), "a point of the intersection is not in both polyhedra")
    M = q.intersect(r)
    if M is not None:
        judge(p.intersect(M), Ps, D[:3], "p & (q & r)")
    for s, k in zip(shapes, keep):
        near(s.vertices, k, rtol=0, atol=0, what="vertices after intersecting")


def confirm_lattice(case):
    out = []
    for f, den, perm in (([1, 1, 1, 1], 2 * case["den"], 0), ([1, 1, 1, 1], case["den"] / 4, 1), ([2, 1, 0.5, 1], case["den"], 0), ([3, 5, 7, 2], 4, 1)):
        c = dict(case, f=f, den=den)
        if perm and case["rel"] != "touch":
            n = case["n"]
            c["P"] = [[p[:n][::-1] + p[n:] for p in P] for P in case["P"]]
        out.append(c)
    n = case["n"]
    if n > 1 and case["rel"] != "touch":
        for i, j, k in ((0, n - 1, 1), (n - 1, 0, -1), (0, 1, 2)):
            # shears keep every incidence and containment
            out.append(dict(case, P=[[[p[a] + (k * p[j] if a == i else 0) for a in range(4)] for p in P] for P in case["P"]]))
    return out


def posed(case, ctx):
    """Boxes and polyhedra in general pose, overlapping by a clear margin or clearly apart."""
    so, to = oracle(case["s"]), oracle(case["t"])
    t = dict(case["t"])
    if case.get("share"):
        # the same orientation
        t["R"] = case["s"]["R"]
        to = oracle(t)
    # place the second so that its centre is at a chosen fraction of the first's extent along a direction
    u = np.array(case["u"], float)
    if not np.any(u):
        u = np.array([1.0, 0, 0])
    u /= np.linalg.norm(u)
    goal = so.c + case["w"] * (so.sup(u) - so.c @ u + to.sup(-u) + to.c @ u) * u
    t["c"] = [round(float(x), 3) for x in goal - to.c + (0 if t["c"] is None else np.array(t["c"]))]
    to = oracle(t)
    P, Q = build(case["s"]), build(t)
    VP, VQ = so.V, to.V
    m = Meet(VP, VQ)
    g = m.gap()
    if g <= 1e-6 * m.size:
        # require a common interior point
        A, b = so.facets()
        B, c = to.facets()
        r = linprog([0, 0, 0, -1], A_ub=np.hstack((np.vstack((A, B)), np.ones((len(A) + len(B), 1)))), b_ub=np.append(b, c),
                    bounds=[(None, None)] * 3 + [(0, None)], method="highs")
        if r.status != 0 or -r.fun < 0.02 * min(so.rin, to.rin):
            ctx.trivial("barely touching")
            return
    elif g < 0.01 * m.size:
        ctx.trivial("nearly touching")
        return
    D = dirs(3, case["seed"], 3)
    K, L = P.intersect(Q), Q.intersect(P)
    V = judge(K, (VP, VQ), D, "intersection")
    W = judge(L, (VQ, VP), D, "swapped intersection")
    ctx.label(case["s"]["k"], case["t"]["k"], "apart" if V is None else "overlap")


def sliver(case, ctx):
    """One set lies in the other except for corners that stick out a little."""
    o = oracle(case["s"])
    A, b = o.facets()
    V = o.V
    rng = np.random.default_rng(case["seed"])
    eps = case["eps"] * o.size
    inner = o.c + case["w"] * (V - o.c)
    tips = []
    for i in rng.choice(len(A), size=min(case["tips"], len(A)), replace=False):
        a = A[i] / np.linalg.norm(A[i])
        F = V[np.abs(V @ a - (V @ a).max()) <= 1e-9 * o.size]
        tips.append(F.mean(axis=0) + eps * a)
    Q = np.vstack([inner] + tips)
    if case["push"] == "in":
        # nothing sticks out: all of the second is the intersection
        Q = np.vstack([inner] + [t - 2 * eps * (t - o.c) / o.rin for t in tips])
    p, q = build(case["s"]), rg.ConvexPolyhedron.from_vertices(Q, prune=case["prune"])
    if not isinstance(p, rg.ConvexPolyhedron):
        raise Inconclusive("not a polyhedron")
    D = np.vstack((dirs(3, case["seed"], 2), [t - o.c for t in tips]))
    ctx.label(case["push"], f"eps={case['eps']}", f"{len(tips)} tips")
    judge(p.intersect(q), (V, Q), D, "intersection")
    judge(q.intersect(p), (Q, V), D, "swapped intersection")


def confirm_sliver(case):
    return [dict(case, s=s["s"]) for s in jitter({"s": case["s"]})[:4]]


def confirm_posed(case):
    """Neighbours in which no faces of the two sets coincide (see KNOWN_FINDINGS.txt)."""
    a = jitter({"s": case["s"]})
    b = jitter({"t": case["t"]})
    return [dict(case, s=a[i]["s"], t=b[j]["t"]) for i, j in ((3, 5), (4, 3), (5, 4), (3, 4))]


_p = st.lists(st.integers(-3, 3), min_size=4, max_size=4)


def s_lattice(n):
    # mostly enough points to have an interior
    P = st.one_of(st.lists(_p, min_size=1, max_size=8), st.lists(_p, min_size=n + 1, max_size=8, unique_by=lambda p: tuple(p[:n])))
    return gen.fd(n=st.just(n), P=st.lists(P, min_size=3, max_size=3), den=st.sampled_from([1, 2, 8, 1, 2, 8, 2 ** -10, 2 ** -7, 2 ** 10]), f=st.just([1, 1, 1, 1]),
                  rel=st.sampled_from(["any", "any", "touch", "inside", "slide"]), prune=st.integers(0, 2), seed=gen.seeds)


_s = st.one_of(gen.cbox(), gen.poly())
# the floating-point double description is reliable on thin slivers only in axis-aligned poses, and from 2^-7 of the size on (see KNOWN_FINDINGS.txt)
_flat = st.one_of(gen.box(wide=False, far=False), gen.poly(far=False, limit=8)).map(lambda s: dict(s, R=None, c=None if s["c"] is None else [round(x * 8) / 8 for x in s["c"]],
                                                                                                 **({"h": [max(round(x * 8), 1) / 8 for x in s["h"]]} if s["k"] == "box" else {})))

PROP = Prop("C16", [
    Sub("lattice", lambda: st.one_of([s_lattice(n) for n in (1, 2, 3, 3, 4)]), lattice, 700, 12000, confirm=confirm_lattice, max_inconclusive=0.1,
        rule="three lattice polytopes (flat ones too) in 1-4D: overlapping, touching, nested, apart; emptiness, support, membership, associativity by linear programming"),
    Sub("posed", lambda: gen.fd(s=_s, t=_s, u=gen.vec(3, gen.eighths), w=st.integers(0, 14).map(lambda k: k / 10), seed=gen.seeds, share=st.sampled_from([False, False, True])), posed, 900, 12000,
        confirm=confirm_posed, max_inconclusive=0.1, rule="posed boxes and solids overlapping by a margin or clearly apart; trivial otherwise"),
    Sub("sliver", lambda: gen.fd(s=_flat, w=st.sampled_from([0.25, 0.5, 0.75]), eps=st.sampled_from([2 ** -7, 2 ** -6, 2 ** -5]), tips=st.integers(1, 3), push=st.sampled_from(["out", "out", "in"]), prune=st.booleans(), seed=gen.seeds),
        sliver, 300, 5000, confirm=confirm_sliver, max_inconclusive=0.1, rule="a smaller copy with corners that stick out of (or stay inside) a facet by 0.2% to 1.6% of the size"),
], assumptions=["posed pairs that touch within 2% of their size are not judged (floating-point double description); touching is judged on lattice coordinates, slivers in axis-aligned poses"])
