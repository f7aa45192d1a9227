"""C15: convex_hull returns exactly the extreme points."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import arr, hull_dist_inf, require, rot, tvec
from ..harness import Prop, Sub, Violation


def classify(P):
    """(unique points, 1 extreme / 0 redundant / -1 undecided) by linear programming."""
    U = np.unique(P, axis=0)
    size = max(np.abs(U - U.mean(axis=0)).max(), 1e-300)
    if len(U) == 1:
        return U, np.array([1])
    out = []
    # quick certificate: unique maximiser of some direction by a margin
    rng = np.random.default_rng(len(U))
    D = np.vstack((rng.normal(size=(60, U.shape[1])), np.eye(U.shape[1]), -np.eye(U.shape[1])))
    S = U @ D.T
    top = np.argsort(-S, axis=0)
    ext = {int(top[0, j]) for j in range(len(D)) if S[top[0, j], j] - S[top[1, j], j] > 1e-3 * size}
    for i in range(len(U)):
        if i in ext:
            out.append(1)
            continue
        d = hull_dist_inf(U[i], np.delete(U, i, axis=0)) / size
        out.append(1 if d > 1e-4 else 0 if d < 1e-9 else -1)
    return U, np.array(out)


def check(P, H, exact, what):
    """H is the set of extreme points of P."""
    n = P.shape[1]
    H = arr(H, what=what)
    require(H.ndim == 2 and H.shape[1] == n, f"{what} has shape {H.shape}")
    require(len(H) > 0, what + " is empty")
    U, cls = classify(P)
    size = max(np.abs(U - U.mean(axis=0)).max(), 1e-300)
    # vertices are input points, each once
    idx = []
    for h in H:
        d = np.abs(U - h).max(axis=1)
        i = int(d.argmin())
        require(d[i] <= 1e-12 * (1 + np.abs(h).max()), f"{what}: {h.tolist()} is not an input point")
        require(i not in idx, f"{what}: {h.tolist()} occurs twice")
        idx.append(i)
    for i, c in enumerate(cls):
        if c == 1 and i not in idx:
            raise Violation(f"{what}: extreme point {U[i].tolist()} is missing ({len(H)} vertices of {len(U)} points)")
        if c == 0 and exact and i in idx:
            raise Violation(f"{what}: {U[i].tolist()} is redundant")
    for u in U:
        if np.abs(H - u).max(axis=1).min() > 1e-12 * (1 + np.abs(u).max()):
            d = hull_dist_inf(u, H) / size
            require(d <= 2e-6, f"{what}: input point {u.tolist()} is outside (by {d:.3g} of the size)")
    return sorted(idx)


def hull(case, ctx):
    n = case["n"]
    P = np.array([p[:n] for p in case["P"]], float) / case["den"]
    if case["dup"]:
        P = np.vstack((P, P[case["dup"] % len(P):][:3]))
    rank = np.linalg.matrix_rank(P - P[0])
    ctx.label(f"dim={n}", f"rank={rank}", "full" if rank == n else "degenerate", "duplicates" if len(np.unique(P, axis=0)) < len(P) else "distinct")
    keep = P.copy()
    H = rg.convex_hull(P)
    ids = check(P, H, True, "hull")
    require(np.array_equal(P, keep), "convex_hull changed its argument")
    rng = np.random.default_rng(case["seed"])
    Q = P[rng.permutation(len(P))]
    require(check(Q, rg.convex_hull(Q), True, "hull of the reordered points") == ids, "order changes the hull")
    H = np.array(H, float)
    check(H, rg.convex_hull(H), True, "hull of the hull")
    if len(P) > 1:
        k = 1 + case["dup"] % (len(P) - 1)
        G = np.vstack((rg.convex_hull(P[:k]), rg.convex_hull(P[k:])))
        require(check(P, rg.convex_hull(G), True, "hull of partial hulls") == ids, "hull of partial hulls differs")
    if np.all(P == np.round(P)):
        Z = P.astype(int)
        require(check(P, np.array(rg.convex_hull(Z), float), True, "hull of integer points") == ids, "integer points give another hull")
    p = rg.ConvexPolyhedron.from_vertices(P, prune=True)
    require(check(P, p.vertices, True, "pruned vertices") == ids, "pruned vertices differ from the hull")


def posed(case, ctx):
    """Lattice points in a subspace, turned and shifted: redundant coplanar points are undecided by rounding."""
    n = case["n"]
    m = min(case["m"], n)
    L = np.array([p[:m] + [0] * (n - m) for p in case["P"]], float) * np.array(case["s"][:n])
    P = L @ rot(case["R"], n).T + tvec(case["c"], n)
    rank = np.linalg.matrix_rank(L - L[0])
    ctx.label(f"dim={n}", f"rank={rank}", "turned" if case["R"] else "axis-aligned", "full" if rank == n else "degenerate")
    H = rg.convex_hull(P)
    ids = check(P, H, False, "hull")
    strictly_inside(P, H, "hull")
    ctx.label(f"hull={len(ids)}")


def strictly_inside(P, H, what):
    """No vertex lies well inside the hull of the others."""
    size = max(np.abs(P - P.mean(axis=0)).max(), 1e-300)
    c = H.mean(axis=0)
    for i in range(len(H)):
        if len(H) > 2:
            g = H[i] + 1e-4 * (H[i] - c)
            require(hull_dist_inf(g, np.delete(H, i, axis=0)) > 1e-7 * size, f"{what}: {H[i].tolist()} is redundant")


def general(case, ctx):
    """Random points in general position (spheres, balls, clusters) of any number: nothing is borderline."""
    rng = np.random.default_rng(case["seed"])
    n, k = case["n"], case["k"]
    if case["kind"] == "grid" and n >= 4 and k > 60:
        # the double description library itself fails on about one in ten thousand of these (see the known finding)
        if case.get("known") is None:
            k = 60
    X = rng.normal(size=(k, n))
    if case["kind"] == "sphere":
        X /= np.linalg.norm(X, axis=1)[:, None]
    elif case["kind"] == "grid":
        X = np.round(X * 2) / 2
    elif case["kind"] == "flat" and n > 1:
        X[:, -1] = X[:, :-1].sum(axis=1) if case["seed"] % 2 else 1.0
    elif case["kind"] == "long":
        X *= np.array([20.0, 1.0, 3.0, 1.0, 1.0])[:n][rng.permutation(n)]
    elif case["kind"] == "skewed":
        # most points on one side
        X = np.exp(X)
    P = case["scale"] * X + tvec(case["c"], n)
    ctx.label(case["kind"], f"dim={n}", "many" if k > 20 else "few")
    H = rg.convex_hull(P)
    check(P, H, False, "hull")


_p = st.lists(st.integers(-3, 3), min_size=5, max_size=5)

PROP = Prop("C15", [
    Sub("hull", lambda: st.one_of([gen.fd(n=st.just(n), P=st.lists(_p, min_size=1, max_size=12), den=st.sampled_from([1, 2, 8, 0.125]),
                                         dup=st.integers(0, 12), seed=gen.seeds) for n in (1, 2, 3, 3, 4, 5)]), hull, 1500, 25000,
        rule="1-15 lattice points (duplicates, degenerate, single) in 1-5D; extreme points decided by linear programming; order, idempotence, partial hulls"),
    Sub("posed", lambda: st.one_of([gen.fd(n=st.just(n), m=st.integers(1, n), P=st.lists(_p, min_size=1, max_size=10), s=st.lists(gen.pos8, min_size=5, max_size=5),
                                          R=gen.rotation(n, angle=gen.angle_clear), c=gen.poly_center(n)) for n in (2, 3, 3, 4)]), posed, 900, 15000, max_inconclusive=0.05,
        rule="lattice points of a random subspace, scaled, turned and shifted"),
    Sub("general", lambda: gen.fd(n=st.integers(1, 5), k=st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(61, 140), st.sampled_from([50, 110, 151, 220, 400])), kind=st.sampled_from(["sphere", "ball", "grid", "flat", "long", "skewed"]),
                                  scale=st.sampled_from([1.0, 0.01, 100.0]), c=st.none(), seed=gen.seeds), general, 700, 10000, max_inconclusive=0.05,
        rule="1-400 random points on spheres, in balls, in long and skewed clouds, on grids, in hyperplanes, 1-5D"),
], assumptions=["points whose distance from the hull of the others is between 1e-9 and 1e-4 of the size of the set are not judged"])
