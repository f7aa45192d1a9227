"""C10: axis-aligned bounding boxes contain the shape and touch it."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import arr, booleans, build, inst, jitter, near, oracle, points_in, require, rot, scale_of
from ..harness import Prop, Sub, Violation


def check_extent(b, lo, hi, s, what):
    inst(b, rg.Box, what)
    t = 1e-9 * s
    near(arr(b.center, (3,)) - arr(b.half_extents, (3,)), lo, rtol=0, atol=t, what=what + " lower corner")
    near(arr(b.center) + arr(b.half_extents), hi, rtol=0, atol=t, what=what + " upper corner")
    V = arr(b.vertices, (8, 3))
    near(V.min(axis=0), lo, rtol=0, atol=t, what=what + " least vertex coordinates")
    near(V.max(axis=0), hi, rtol=0, atol=t, what=what + " greatest vertex coordinates")
    R = arr(b.rotation, (3, 3))
    near(np.sort(np.abs(R).max(axis=0)), np.ones(3), atol=1e-9, what=what + " is not axis-aligned: rotation")


def aabb(case, ctx):
    spec = case["s"]
    o, s = oracle(spec), build(spec)
    ctx.label("kind=" + spec["k"], "rotated" if spec["R"] else "axis-aligned", "degenerate" if o.rank < 3 else "full")
    lo = np.array([-o.sup(-e) for e in np.eye(3)])
    hi = np.array([o.sup(e) for e in np.eye(3)])
    b = s.aabb()
    check_extent(b, lo, hi, scale_of(o), f"aabb of {spec}")
    # the box as a shape: contains points of the body (shrunk slightly against rounding)
    P = points_in(o, case["seed"], 12)
    P = b.center + (P - b.center) * (1 - 1e-9)
    got = booleans(b.contains(P, tol=1e-8 * scale_of(o) + 1e-12), len(P))
    require(got.all(), "aabb does not contain a point of the shape")
    bb = b.aabb()
    check_extent(bb, lo, hi, scale_of(o), "aabb of the aabb")


def points(case, ctx):
    P = np.array(case["P"], float)
    ctx.label(f"n={len(P)}", case["form"])
    X = P if case["form"] == "array" else P.tolist()
    if case["form"] == "int":
        X = np.round(P).astype(int)
        P = X.astype(float)
    b = rg.Box.from_points_to_bound(X)
    s = np.abs(P).max() + 1e-300
    check_extent(b, P.min(axis=0), P.max(axis=0), s, "from_points_to_bound")
    perm = np.random.default_rng(case["seed"]).permutation(len(P))
    b2 = rg.Box.from_points_to_bound(P[perm])
    check_extent(b2, P.min(axis=0), P.max(axis=0), s, "from_points_to_bound, other order")
    u, v = P[0], P[-1]
    for x, y in ((u, v), (v, u), (u.tolist(), v.tolist())):
        check_extent(rg.Box.from_two_vertices(x, y), np.minimum(u, v), np.maximum(u, v), s, "from_two_vertices")
    if len(P) < 2:
        ctx.trivial("one point")


def cloud(case, ctx):
    """Bodies with many vertices: every one of them counts."""
    rng = np.random.default_rng(case["seed"])
    P = rng.normal(size=(case["n"], 3))
    if case["on"] == "sphere":
        P /= np.linalg.norm(P, axis=1)[:, None]
    P = P * np.array(case["h"]) + np.array(case["c"])
    order = case["order"]
    if order != "any":
        # the extreme points come last or first
        P = P[np.argsort(np.abs(P - P.mean(axis=0)).max(axis=1))]
        P = P if order == "last" else P[::-1]
    ctx.label(f"{case['n'] // 10 * 10}+ points", case["on"], order)
    s = np.abs(P).max()
    lo, hi = P.min(axis=0), P.max(axis=0)
    check_extent(rg.Box.from_points_to_bound(P), lo, hi, s, "from_points_to_bound")
    check_extent(rg.Box.from_points_to_bound(P.tolist()), lo, hi, s, "from_points_to_bound of a list")
    K = rg.ConvexPolyhedron.from_vertices(P, prune=case["prune"])
    check_extent(K.aabb(), lo, hi, s, f"aabb of a polyhedron with {case['n']} vertices")
    R, t = rot(case["R"]), np.array(case["t"], float)
    Q = P @ R.T + t
    check_extent(K.transform(rotation=R, translation=t).aabb(), Q.min(axis=0), Q.max(axis=0), np.abs(Q).max(), f"aabb of a moved polyhedron with {case['n']} vertices")


PROP = Prop("C10", [
    Sub("aabb", lambda: gen.fd(s=gen.shape3(wide=True, degenerate=True), seed=gen.seeds), aabb, 8000, 100000, confirm=jitter,
        rule="every 3D shape kind in random poses, degenerate ones included, against its support function"),
    Sub("points", lambda: gen.fd(P=st.lists(gen.vec(3, st.one_of(gen.num, gen.big)), min_size=1, max_size=9), seed=gen.seeds,
                                 form=st.sampled_from(["array", "list", "int"])),
        points, 2000, 20000, rule="random point sets and vertex pairs; trivial with one point"),
    Sub("cloud", lambda: gen.fd(n=st.integers(4, 60), seed=gen.seeds, on=st.sampled_from(["sphere", "normal"]), h=gen.vec(3, st.sampled_from([0.25, 1.0, 2.0, 5.0])), c=gen.vec(3), prune=st.booleans(),
                                order=st.sampled_from(["any", "last", "first"]), R=gen.rotation(3), t=gen.vec(3)), cloud, 600, 8000,
        rule="point sets and polyhedra with up to 60 vertices, in orders that put the extreme points last or first"),
])
