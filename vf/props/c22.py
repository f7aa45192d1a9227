"""C22: ellipsoid realizability verdicts are exact."""
import cvxpy as cp
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen, sdp
from ..geo import J_of, arr, boolean, build, directions, near, oracle, points_in, require, rot, tvec, unit
from ..harness import Inconclusive, Prop, Sub, Violation

OK, BAD = 1e-9, 1e-6


def local(o, J):
    """J in the unit-ball coordinates of the ellipsoid, per unit mass; zero axes keep their length."""
    h = np.where(o.nz, o.h, 1.0)
    T = np.eye(4)
    T[:3, :3] = np.diag(1 / h) @ o.R.T
    T[:3, 3] = -np.diag(1 / h) @ o.R.T @ o.c
    K = T @ J @ T.T
    return (K + K.T) / 2 / max(J[3, 3], 1e-300)


def margins(o, J):
    """Signed margins: all >= 0 exactly when J is realizable in the ellipsoid (per unit mass).

    A moment matrix belongs to a measure on {x : 1 - |x|^2 >= 0} iff it is PSD
    and sum m (1 - |x|^2) >= 0 (S-lemma); a degenerate axis needs zero spread.
    """
    K = local(o, J)
    nz = np.append(o.nz, True)
    lam = float(np.linalg.eigvalsh(K[np.ix_(nz, nz)]).min())
    spread = float(np.trace(K[:3, :3][np.ix_(~o.nz, ~o.nz)])) if (~o.nz).any() else 0.0
    slack = 1 - float(np.trace(K[:3, :3][np.ix_(o.nz, o.nz)]))
    full = float(np.linalg.eigvalsh(K).min())
    return lam, slack, spread, full


def decompose(Kn):
    """Sturm-Zhang: K >= 0 with <Q, K> >= 0, Q = diag(-1..-1, 1), as a sum of x x' with x'Qx >= 0."""
    n = len(Kn)
    Q = -np.eye(n)
    Q[-1, -1] = 1
    lam, V = np.linalg.eigh(Kn)
    X = [np.sqrt(max(l, 0)) * v for l, v in zip(lam, V.T) if l > 1e-15]
    d = sum(x @ Q @ x for x in X) / len(X)
    for _ in range(len(X) * 3):
        q = np.array([x @ Q @ x - d for x in X])
        i, j = int(np.argmin(q)), int(np.argmax(q))
        if q[j] < 1e-13 or q[i] > -1e-13:
            break
        # (x_i + t x_j)' (Q - d') (..) = 0
        xi, xj = X[i], X[j]
        a, b, c = xj @ Q @ xj - d, xi @ Q @ xj, xi @ Q @ xi - d
        # use u = (xi + t xj)/sqrt(1+t^2); u'Qu = d  <=>  c + 2 b t + a t^2 = 0
        t = (-b + np.sqrt(b * b - a * c)) / a
        s = np.sqrt(1 + t * t)
        X[i], X[j] = (xi + t * xj) / s, (xj - t * xi) / s
    return X


def verdict(e, q, eps=None):
    return boolean(e.can_realize(q) if eps is None else e.can_realize(q, eps=eps), "can_realize()")


def cond(o, J):
    """Rounding level of the quadratic form relative to the mass."""
    h = o.h[o.nz]
    if not len(h):
        return 1e-16 * (1 + np.abs(o.c).max() ** 2)
    P2 = max(np.trace(J[:3, :3]) / max(J[3, 3], 1e-300), 0)
    return 1e-15 * (1 + (P2 + o.c @ o.c) / h.min() ** 2) + 1e-15 * (1 + o.c @ o.c + P2)


def judge(o, J, got, what, ctx):
    lam, slack, spread, full = margins(o, J)
    noise = cond(o, J)
    if noise > 3e-9:
        raise Inconclusive("ill conditioned pose")
    size = max(1.0, np.trace(J[:3, :3]) / max(J[3, 3], 1e-300))
    lam0 = float(np.linalg.eigvalsh((J + J.T) / 2).min()) / max(J[3, 3], 1e-300)
    good = lam >= -1e-10 and slack >= -OK and abs(spread) <= OK and lam0 >= -1e-9
    bad = lam0 < -BAD * size or slack < -BAD or abs(spread) > BAD
    if good:
        ctx.label("realizable")
        require(got, f"{what}: reported not realizable, but it is (smallest eigenvalue {lam:.3g}, room {slack:.3g}, spread along flat axes {spread:.3g})")
    elif bad:
        ctx.label("not realizable")
        require(not got, f"{what}: reported realizable, but no mass distribution in the ellipsoid has these parameters "
                         f"(smallest eigenvalue {lam0:.3g}, room {slack:.3g}, spread along flat axes {spread:.3g})")
    else:
        ctx.label("borderline")
    return good, bad


def bodies(case, ctx):
    """Point masses inside are realizable; moved outside as a whole, they are not."""
    s = case["s"]
    e, o = build(s), oracle(s)
    m = case["m"]
    ctx.label(f"rank {o.rank}", f"{case['n']} points")
    P = points_in(o, case["seed"], case["n"], boundary=case["boundary"])
    rng = np.random.default_rng(case["seed"])
    w = rng.random(len(P)) + 0.01
    w = m * w / w.sum()
    J = J_of(w, P)
    forms = {"points": lambda: rg.InertialParameters.from_point_masses(masses=w, points=P), "pim": lambda: rg.InertialParameters.from_pim(J.copy()),
             "vec": lambda: rg.InertialParameters.from_pim(J.copy()).transform(), "sum": lambda: sum([rg.InertialParameters.point_mass(mass=a, com=p) if hasattr(rg.InertialParameters, "point_mass") else rg.InertialParameters(mass=a, com=p) for a, p in zip(w, P)], rg.InertialParameters.zero())}
    q = forms[case["form"]]()
    noise = cond(o, J)
    if noise > 3e-9:
        raise Inconclusive("ill conditioned pose")
    require(verdict(e, q), f"{len(P)} point masses inside the ellipsoid are reported not realizable")
    # the same masses scaled away from the centre / pushed out along a direction
    u = unit(rng.normal(size=3))
    far = o.supp(u) + u * (0.01 + rng.random()) * max(o.size, 0.1)
    Jf = J_of([m], [far])
    require(not verdict(e, rg.InertialParameters(mass=m, com=far)), f"a point mass at {far.tolist()} outside the ellipsoid is reported realizable")
    K = case["grow"]
    Pg = o.c + K * (P - o.c)
    judge(o, J_of(w, Pg), verdict(e, rg.InertialParameters.from_point_masses(masses=w, points=Pg)), f"point masses scaled by {K} about the centre", ctx)


def moments(case, ctx):
    """Arbitrary parameters, physical or not, near the border of the realizable set."""
    s = case["s"]
    e, o = build(s), oracle(s)
    m = case["m"]
    ctx.label(f"rank {o.rank}")
    rng = np.random.default_rng(case["seed"])
    k = int(rng.integers(1, 5))
    B = rng.normal(size=(k, 4))
    B[:, :3][:, ~o.nz] = 0
    K = B.T @ B
    K[3, 3] = max(K[3, 3], 0.05)
    K /= K[3, 3]
    # place it at the requested room, keeping the CoM
    cov = K[:3, :3] - np.outer(K[:3, 3], K[:3, 3])
    room = case["room"]
    t, mu2 = np.trace(cov), K[:3, 3] @ K[:3, 3]
    if mu2 >= 0.95 * (1 - room) or t < 1e-6:
        f = 0.5 * np.sqrt(max(1 - room, 0.1)) / np.sqrt(max(mu2, 1e-12))
        K[:3, 3] *= min(f, 1)
        K[3, :3] = K[:3, 3]
        mu2 = K[:3, 3] @ K[:3, 3]
    if t > 1e-6 and 1 - room - mu2 > 0:
        cov *= (1 - room - mu2) / t
    K[:3, :3] = cov + np.outer(K[:3, 3], K[:3, 3])
    if case["bend"]:
        # an eigenvalue of the wanted size in a random direction, and spread along flat axes
        v = np.append(rng.normal(size=3) * (o.nz if case["bend"] < 0 else 1), 0)
        if np.linalg.norm(v):
            v /= np.linalg.norm(v)
            K += case["bend"] * np.outer(v, v)
    h = np.where(o.nz, o.h, 1.0)
    T = np.eye(4)
    T[:3, :3] = o.R * h
    T[:3, 3] = o.c
    J = m * T @ K @ T.T
    J = (J + J.T) / 2
    q = rg.InertialParameters.from_pim(J.copy())
    got = verdict(e, q)
    good, bad = judge(o, J, got, "parameters", ctx)
    if good:
        # constructive evidence: an explicit distribution inside with the same parameters
        nz = np.append(o.nz, True)
        X = decompose(local(o, J)[np.ix_(nz, nz)])
        tot = np.zeros((nz.sum(), nz.sum()))
        for x in X:
            tot += np.outer(x, x)
            if x[:-1] @ x[:-1] > x[-1] ** 2 + 1e-6:
                raise Inconclusive("decomposition")
        near(tot, local(o, J)[np.ix_(nz, nz)], 1e-7, 1e-7, what="decomposition (oracle)")
    # the eps argument
    size = 1 + np.abs(J).max() / m
    lam = float(np.linalg.eigvalsh(J).min())
    for eps, ok in ((lam - case["d"] * m * size, True), (lam + case["d"] * m * size, False)):
        g = verdict(e, q, eps=eps)
        if not ok:
            require(not g, f"can_realize(eps={eps:.6g}) accepts although the smallest eigenvalue of J is {lam:.6g}")
        else:
            a, b = margins(o, J)[1:3]
            if a >= 1e-9 and abs(b) <= OK:
                require(g, f"can_realize(eps={eps:.6g}) rejects although the smallest eigenvalue of J is {lam:.6g} and there is room {a:.3g}")
            elif a < -BAD or abs(b) > BAD:
                require(not g, f"can_realize(eps={eps:.6g}) accepts although room is {a:.3g}, spread along flat axes {b:.3g}")
    # invariance: moved together, mass scaled
    R, x = rot(case["T"]["R"]), tvec(case["T"]["t"])
    from ..geo import hom, moved
    H = hom(R, x)
    o2 = moved(o, R, x)
    e2, q2 = e.transform(rotation=R, translation=x), q.transform(rotation=R, translation=x)
    if cond(o2, H @ J @ H.T) <= 3e-9 and (good or bad):
        lam2 = np.linalg.eigvalsh(H @ J @ H.T).min() / m
        size2 = 1 + np.abs(H @ J @ H.T).max() / m
        if good or lam2 < -BAD * size2 or not bad or margins(o, J)[1] < -BAD or abs(margins(o, J)[2]) > BAD:
            require(verdict(e2, q2) == got, f"verdict changes from {got} when ellipsoid and parameters are moved together")
    k = case["k"]
    if good or bad:
        require(verdict(e, rg.InertialParameters.from_pim(k * J)) == got, f"verdict changes from {got} when the mass is scaled by {k}")


def forms(case, ctx):
    """The verdict agrees with the constraint form."""
    s = case["s"]
    e, o = build(s), oracle(s)
    ctx.label(f"rank {o.rank}", case["var"])
    rng = np.random.default_rng(case["seed"])
    proj = sdp.Project(e, "ell", case["var"])
    # feasibility of fixed values, both ways round
    for i in range(3):
        P = points_in(o, case["seed"] + i, int(rng.integers(1, 7)), boundary=0.5)
        w = rng.random(len(P)) + 0.1
        w /= w.sum()
        f = rng.choice([0.7, 1.0, 1.1, 1.5])
        off = np.zeros(3)
        if (~o.nz).any() and rng.random() < 0.5:
            off = o.R.T[~o.nz][0] * rng.choice([-0.3, 0.3])
        J = J_of(w, o.c + f * (P - o.c) + off)
        lam, slack, spread, full = margins(o, J)
        got = verdict(e, rg.InertialParameters.from_pim(J.copy()))
        d = proj(J)
        tol = 1e-4 * (1 + np.abs(J).max())
        if got and slack > -BAD:
            ctx.label("accepted")
            require(d <= tol, f"accepted by can_realize, but at distance {d:.3g} from the constraint form (room {slack:.3g})")
        if not got and (slack < -0.02 or spread > 1e-2):
            ctx.label("rejected")
            require(d > tol / 10, f"rejected by can_realize, but admitted by the constraint form (room {slack:.3g}, spread {spread:.3g})")


def degenerate_zero(case, ctx):
    """No mass at all is realizable by anything; parameters with mass nowhere outside."""
    e = build(case["s"])
    require(verdict(e, rg.InertialParameters.zero()), "zero parameters are reported not realizable")
    require(not verdict(e, rg.InertialParameters.zero(), eps=case["eps"]), f"zero parameters are reported realizable with eps={case['eps']}")


_ell = gen.ell(3, wide=False, degenerate=True, limit=30)
_ellnear = gen.ell(3, wide=False, degenerate=True, limit=30, far=False)
_room = st.one_of(st.sampled_from([0.0, 0.5, -0.5, 1e-4, -1e-4, -1e-5, 1e-5, 0.9, -2e-6]), st.integers(-80, 95).map(lambda k: k / 100))
_bend = st.one_of(st.just(0.0), st.just(0.0), st.sampled_from([1e-4, -1e-4, 0.2, -0.2, -1e-5, -0.01, 0.01]))

_thin = gen.ell(3, wide=True, degenerate=True, limit=1500, far=False)

PROP = Prop("C22", [
    Sub("bodies", lambda: gen.fd(s=st.one_of(_ell, _ell, _thin), m=gen.masses, seed=gen.seeds, n=st.sampled_from([1, 1, 2, 3, 4, 8, 20]), boundary=st.sampled_from([0.0, 0.5, 1.0]),
                                 form=st.sampled_from(["points", "pim", "vec", "sum"]), grow=st.sampled_from([0.5, 0.99, 1.01, 1.2, 2.0, 10.0])), bodies, 6000, 60000, chunk=1500,
        rule="ellipsoids with any set of zero axes; point masses inside, on the boundary, outside and scaled about the centre"),
    Sub("moments", lambda: gen.fd(s=st.one_of(_ell, _ell, _thin), m=gen.masses, seed=gen.seeds, room=_room, bend=_bend, d=st.sampled_from([1e-6, 1e-4, 0.1, 3.0]), T=gen.transform(3, far=False),
                                  k=gen.logpos), moments, 6000, 60000, chunk=1500,
        rule="moment matrices placed at a chosen distance from the border of the realizable set (trace condition, eigenvalue, spread along flat axes)"),
    Sub("forms", lambda: gen.fd(s=sdp.s_ell(True), seed=gen.seeds, var=sdp.params), forms, 240, 4000, rule="verdict compared with the projection on the constraint form"),
    Sub("zero", lambda: gen.fd(s=_ell, eps=st.sampled_from([1e-3, 1.0])), degenerate_zero, 300, 2000, rule="massless parameters"),
], assumptions=["margins within 1e-6 (per unit mass) of the border are not judged, except that bodies with every point inside must be accepted"])
