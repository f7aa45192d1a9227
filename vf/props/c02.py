"""C02: inertial parameters add like the mass distributions they describe."""
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import J_of, arr, boolean, inst, near, require, vec_of
from ..harness import Prop, Sub
from .c01 import pim_units, vec_units


def scale_of(pm):
    return (sum(pm["m"]), np.abs(np.array(pm["p"], float)).max(initial=0))


def params(pm):
    return rg.InertialParameters.from_point_masses(masses=pm["m"], points=pm["p"])


def cmp(q, J, s, what):
    inst(q, rg.InertialParameters, what)
    m, r = s[0] or 1.0, s[1] or 1.0
    near(pim_units(arr(q.J, (4, 4), what), r) / m, pim_units(J, r) / m, rtol=1e-9, atol=1e-10, what=what)
    near(vec_units(arr(q.vec, (10,), what), r) / m, vec_units(vec_of(J), r) / m, rtol=1e-9, atol=1e-10, what=what + " vec")


def partition(case, ctx):
    groups = [gen.in_units(g, case.get("u", [1, 1])) for g in case["groups"]]
    allm = {"m": [m for g in groups for m in g["m"]], "p": [p for g in groups for p in g["p"]]}
    s = scale_of(allm)
    J = J_of(allm["m"], allm["p"])
    ctx.label(f"groups={len(groups)}", "massless group" if any(sum(g["m"]) == 0 for g in groups) else "all massive")
    if len(groups) < 2:
        ctx.trivial("one group")
    qs = [params(g) for g in groups]
    for g, q in zip(groups, qs):
        cmp(q, J_of(g["m"], g["p"]), scale_of(g), "from_point_masses")
    cmp(params(allm), J, s, "from_point_masses of the union")
    cmp(sum(qs), J, s, "sum() of the parts")
    # order given by the case, and grouping as a tree
    order = sorted(range(len(qs)), key=lambda i: case["perm"][i])
    left = qs[order[0]]
    for i in order[1:]:
        left = left + qs[i]
    cmp(left, J, s, "left-nested sum in another order")
    right = qs[order[-1]]
    for i in reversed(order[:-1]):
        right = qs[i] + right
    cmp(right, J, s, "right-nested sum in another order")
    z = rg.InertialParameters.zero()
    cmp(z + qs[0], J_of(groups[0]["m"], groups[0]["p"]), scale_of(groups[0]), "zero + x")
    cmp(qs[0] + z, J_of(groups[0]["m"], groups[0]["p"]), scale_of(groups[0]), "x + zero")
    cmp(sum([z, qs[0], z]), J_of(groups[0]["m"], groups[0]["p"]), scale_of(groups[0]), "sum([zero, x, zero])")
    cmp(z + z, np.zeros((4, 4)), (0, 0), "zero + zero")
    require(boolean((left + z).is_same(right)), "sums in different orders are not the same")
    # operands untouched
    for g, q in zip(groups, qs):
        cmp(q, J_of(g["m"], g["p"]), scale_of(g), "operand after the sum")


def linear(case, ctx):
    pm, k = gen.in_units(case["pm"], case.get("u", [1, 1])), case["k"]
    J = J_of(pm["m"], pm["p"])
    q = rg.InertialParameters.from_point_masses(masses=[k * m for m in pm["m"]], points=pm["p"])
    cmp(q, k * J, (k * scale_of(pm)[0], scale_of(pm)[1]), "parameters with scaled masses")
    # splitting one point mass into two coincident ones
    ms = [m / 2 for m in pm["m"]] * 2
    cmp(rg.InertialParameters.from_point_masses(masses=np.array(ms), points=np.array(pm["p"] * 2, float)), J,
        scale_of(pm), "coincident split masses")
    # whole-number coordinates held by an integer array
    pi = np.rint(np.array(case["pm"]["p"], float)).astype(int)
    Ji = J_of(pm["m"], pi.astype(float))
    si = scale_of({"m": pm["m"], "p": pi.tolist()})
    cmp(rg.InertialParameters.from_point_masses(masses=np.array(pm["m"], float), points=pi), Ji, si, "integer points")
    mi = np.rint(np.array(case["pm"]["m"], float)).astype(int)
    if mi.any():
        cmp(rg.InertialParameters.from_point_masses(masses=mi, points=np.array(pm["p"], float)), J_of(mi, pm["p"]), scale_of({"m": mi.tolist(), "p": pm["p"]}), "integer masses")
    cmp(rg.InertialParameters.from_point_masses(masses=np.array(pm["m"], float), points=pi) + params(pm), Ji + J, (si[0] + scale_of(pm)[0], max(si[1], scale_of(pm)[1])), "sum with integer points")
    n = case["n"]
    t = sum([params(pm) for _ in range(n)])
    cmp(t, n * J, (n * scale_of(pm)[0], scale_of(pm)[1]), f"{n} copies")


def spread(case, ctx):
    """Masses many orders apart whose moments are comparable: none is negligible."""
    ms, ps = [], []
    for (k, m), p in zip(case["k"], case["p"]):
        ms.append(m * 10.0 ** -k)
        ps.append([x * 10.0 ** (k / 2 + case["far"]) if k else x for x in p])
    J = J_of(ms, ps)
    Q = np.hstack((np.abs(np.array(ps)), np.ones((len(ps), 1))))
    T = np.einsum("i,ij,ik->jk", ms, Q, Q)
    ctx.label(f"spread=1e{max(k for k, _ in case['k']) - min(k for k, _ in case['k'])}")
    if len(ms) < 2:
        ctx.trivial("one mass")

    def same(q, what):
        G = arr(q.J, (4, 4), what)
        bad = np.abs(G - J) > 1e-12 * T + 1e-300
        require(not bad.any(), f"{what}: J is {G.tolist()}, expected {J.tolist()}")
        v, t = arr(q.vec, (10,), what), np.concatenate(([T[3, 3]], T[:3, 3], [np.trace(T[:3, :3])] * 6))
        require(np.all(np.abs(v - vec_of(J)) <= 1e-11 * t + 1e-300), f"{what}: vec is {v.tolist()}, expected {vec_of(J).tolist()}")
    f = lambda i, j: rg.InertialParameters.from_point_masses(masses=np.array(ms[i:j]), points=np.array(ps[i:j], float))
    same(f(0, len(ms)), "from_point_masses")
    parts = [f(i, i + 1) for i in range(len(ms))]
    same(sum(parts), "sum of the parts")
    out = parts[-1]
    for q in parts[-2::-1]:
        out = q + out
    same(out, "sum of the parts, last first")
    i = case["cut"] % len(ms)
    if 0 < i:
        same(f(0, i) + f(i, len(ms)), "two groups")


PROP = Prop("C02", [
    Sub("partition", lambda: gen.fd(groups=st.lists(gen.point_masses(1, 4, m=gen.masses0), min_size=1, max_size=5),
                                    u=gen.units, perm=st.permutations(list(range(5)))),
        partition, 3000, 40000,
        rule="1-5 groups of 1-4 point masses (zero masses allowed), summed in several orders and nestings; non-trivial with >= 2 groups"),
    Sub("linear", lambda: gen.fd(pm=gen.point_masses(1, 5), u=gen.units, k=gen.masses0, n=st.integers(1, 4)),
        linear, 1500, 15000, rule="mass scaling and coincident points"),
    Sub("spread", lambda: gen.fd(k=st.lists(st.tuples(st.sampled_from([0, 0, 2, 5, 8, 10, 12, 15]), gen.masses), min_size=1, max_size=5), p=st.lists(gen.vec(3, gen.num), min_size=5, max_size=5),
                                 far=st.sampled_from([0, 0, 1, -1]), cut=st.integers(0, 4)),
        spread, 1200, 12000, rule="masses up to 1e15 apart at distances that make their moments comparable; element-wise rounding bound"),
])
