"""Independent geometry oracles and helpers for building the real objects."""
import itertools
import math

import numpy as np

from .gen import BASES3, BIG3
from .harness import Violation, Inconclusive

_EX = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}


def pose_of(case):
    """The transform of a case; polyhedra are turned by whole degrees (the double
    description library loses facets in nearly aligned poses, see DESIGN.md)."""
    g = case["T"]["R"]
    if g and case["s"]["k"] == "poly":
        g = [[i, j, float(round(a))] for i, j, a in g]
    return rot(g), tvec(case["T"]["t"])


def rot(givens, n=3):
    """Matrix of a list of Givens rotations [i, j, degrees] (None: identity)."""
    R = np.eye(n)
    for i, j, a in givens or []:
        am = a % 360
        if am in _EX:
            c, s = _EX[am]
        else:
            c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        G = np.eye(n)
        G[i, i] = c
        G[j, j] = c
        G[i, j] = -s
        G[j, i] = s
        R = G @ R
    return R


def tvec(t, n=3):
    return np.zeros(n) if t is None else np.array(t, dtype=float)


# ---- checked conversions of results of the code under test ---------------

def arr(x, shape=None, what="result", finite=True):
    try:
        a = np.asarray(x, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation(f"{what} is not numeric: {x!r:.200}") from e
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what} has shape {a.shape}, expected {tuple(shape)}")
    if finite and not np.all(np.isfinite(a)):
        raise Violation(f"{what} has non-finite entries: {a!r:.300}")
    return a


def boolean(x, what="answer"):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.ndarray) and x.dtype == bool and x.shape == ():
        return bool(x)
    raise Violation(f"{what} is not a single truth value: {x!r:.200}")


def booleans(x, n, what="answers"):
    a = np.asarray(x)
    if a.dtype != bool or a.shape != (n,):
        raise Violation(f"{what}: expected {n} truth values, got {a.dtype} of shape {a.shape}")
    return a


def inst(x, cls, what="result"):
    if not isinstance(x, cls):
        raise Violation(f"{what} is a {type(x).__name__}, expected {cls.__name__}: {x!r:.200}")
    return x


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def near(a, b, rtol=1e-9, atol=1e-9, what="values"):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shapes {a.shape} and {b.shape} differ")
    if not np.all(np.isfinite(a)):
        raise Violation(f"{what}: non-finite {a!r:.300}")
    err = np.abs(a - b)
    if np.any(err > atol + rtol * np.abs(b)):
        raise Violation(f"{what}: got {np.array2string(a, precision=9)[:400]}, expected "
                        f"{np.array2string(b, precision=9)[:400]} (max error {err.max():.3g})")


# ---- oracles ---------------------------------------------------------------

class Body:
    """A convex body with centre c: support function, support point, gauge.

    gauge(p) is the Minkowski functional of K - c at p - c *within the affine
    hull*; off(p) is the distance of p from the affine hull.
    """
    dim = 3

    def gauges(self, P):
        return np.array([self.gauge(p) for p in np.atleast_2d(P)])

    def boundary(self, u):
        """Point of the relative boundary in direction u from the centre."""
        u0 = np.asarray(u, float)
        u = self.into(u0)
        if np.linalg.norm(u) <= 1e-6 * np.linalg.norm(u0):
            return self.c.copy()
        g = self.gauge(self.c + u)
        if g <= 0:
            return self.c.copy()
        return self.c + u / g

    def into(self, u):
        """Project direction u on the linear hull of K - c."""
        return np.asarray(u, float)

    def off(self, p):
        return 0.0

    def interior(self, u, s):
        return self.c + s * (self.boundary(u) - self.c)

    @property
    def rin(self):
        raise NotImplementedError

    @property
    def size(self):
        return max(np.linalg.norm(self.supp(v) - self.c) for v in np.vstack((np.eye(self.dim), -np.eye(self.dim))))


class EllO(Body):
    def __init__(self, h, R, c):
        self.h = np.array(h, float)
        self.dim = len(h)
        self.R = R
        self.c = c
        self.nz = self.h > 0

    def sup(self, v):
        return float(v @ self.c + np.linalg.norm(self.h * (self.R.T @ v)))

    def supp(self, v):
        w = self.h * (self.R.T @ v)
        n = np.linalg.norm(w)
        if n == 0:
            return self.c.copy()
        return self.c + self.R @ (self.h * w / n)

    def gauge(self, p):
        y = (self.R.T @ (p - self.c))[self.nz] / self.h[self.nz]
        return float(np.linalg.norm(y))

    def into(self, u):
        return self.R @ np.where(self.nz, self.R.T @ u, 0)

    def off(self, p):
        return float(np.linalg.norm((self.R.T @ (p - self.c))[~self.nz]))

    @property
    def rin(self):
        return float(self.h.min())

    @property
    def rrel(self):
        return float(self.h[self.nz].min()) if self.nz.any() else 0.0

    @property
    def rank(self):
        return int(self.nz.sum())

    @property
    def volume(self):
        d = self.dim
        return math.pi ** (d / 2) / math.gamma(d / 2 + 1) * float(np.prod(self.h))


class BoxO(Body):
    def __init__(self, h, R, c):
        self.h = np.array(h, float)
        self.R = R
        self.c = c
        self.nz = self.h > 0
        self.V = np.array([c + R @ (self.h * np.array(s)) for s in itertools.product([1, -1], repeat=3)])

    def sup(self, v):
        return float(v @ self.c + self.h @ np.abs(self.R.T @ v))

    def supp(self, v):
        s = np.sign(self.R.T @ v)
        s[s == 0] = 1
        return self.c + self.R @ (self.h * s)

    def gauge(self, p):
        y = np.abs(self.R.T @ (p - self.c))[self.nz] / self.h[self.nz]
        return float(y.max()) if y.size else 0.0

    def into(self, u):
        return self.R @ np.where(self.nz, self.R.T @ u, 0)

    def off(self, p):
        return float(np.linalg.norm((self.R.T @ (p - self.c))[~self.nz]))

    def facets(self):
        A = np.vstack((self.R.T, -self.R.T))
        b = np.concatenate((self.h, self.h)) + A @ self.c
        return A, b

    @property
    def rin(self):
        return float(self.h.min())

    @property
    def rrel(self):
        return float(self.h[self.nz].min()) if self.nz.any() else 0.0

    @property
    def rank(self):
        return int(self.nz.sum())

    @property
    def volume(self):
        return float(np.prod(2 * self.h))


class CylO(Body):
    def __init__(self, L, r, R, c):
        self.L, self.r, self.R, self.c = L, r, R, c
        self.a = R[:, 2]

    def sup(self, v):
        w = self.R.T @ v
        return float(v @ self.c + self.L / 2 * abs(w[2]) + self.r * math.hypot(w[0], w[1]))

    def supp(self, v):
        w = self.R.T @ v
        n = math.hypot(w[0], w[1])
        y = np.array([0, 0, math.copysign(self.L / 2, w[2])])
        if n > 0:
            y[:2] = self.r * w[:2] / n
        return self.c + self.R @ y

    def gauge(self, p):
        y = self.R.T @ (p - self.c)
        g = 0.0
        if self.L > 0:
            g = max(g, abs(y[2]) / (self.L / 2))
        if self.r > 0:
            g = max(g, math.hypot(y[0], y[1]) / self.r)
        return float(g)

    def into(self, u):
        y = self.R.T @ u
        if self.L == 0:
            y[2] = 0
        if self.r == 0:
            y[:2] = 0
        return self.R @ y

    def off(self, p):
        y = self.R.T @ (p - self.c)
        o = 0.0
        if self.L == 0:
            o = abs(y[2])
        if self.r == 0:
            o = math.hypot(o, math.hypot(y[0], y[1]))
        return float(o)

    @property
    def rin(self):
        return min(self.L / 2, self.r)

    @property
    def rrel(self):
        nz = [x for x in (self.L / 2, self.r) if x > 0]
        return min(nz) if nz else 0.0

    @property
    def rank(self):
        return (1 if self.L > 0 else 0) + (2 if self.r > 0 else 0)

    @property
    def volume(self):
        return math.pi * self.r ** 2 * self.L


class CapO(Body):
    def __init__(self, L, r, R, c):
        self.L, self.r, self.R, self.c = L, r, R, c
        self.a = R[:, 2]

    def sup(self, v):
        return float(v @ self.c + self.L / 2 * abs(self.a @ v) + self.r * np.linalg.norm(v))

    def supp(self, v):
        n = np.linalg.norm(v)
        return self.c + math.copysign(self.L / 2, self.a @ v) * self.a + self.r * v / n

    def sdist(self, p):
        """Signed distance."""
        y = p - self.c
        t = float(np.clip(self.a @ y, -self.L / 2, self.L / 2))
        return float(np.linalg.norm(y - t * self.a)) - self.r

    def gauge(self, p):
        # smallest g with p - c in g * (K - c): |y - t a| = g r with |t| <= g L/2
        y = self.R.T @ (p - self.c)
        rho, z = math.hypot(y[0], y[1]), abs(y[2])
        if rho == 0 and z == 0:
            return 0.0
        if self.r == 0:
            return z / (self.L / 2) if self.L > 0 else 0.0
        l = self.L / 2
        g = rho / self.r
        if z <= g * l:
            return g
        # cap region: rho^2 + (z - g l)^2 = g^2 r^2
        A, B, C = l * l - self.r ** 2, -2 * z * l, rho ** 2 + z ** 2
        if abs(A) < 1e-14 * (l * l + self.r ** 2):
            return -C / B
        # g^2 A + g B + C = 0, want smallest g with z >= g l
        disc = max(B * B - 4 * A * C, 0.0)
        q = -0.5 * (B - math.sqrt(disc)) if B <= 0 else -0.5 * (B + math.sqrt(disc))
        roots = [x for x in (q / A, C / q if q else float("inf")) if x > 0]
        roots = [x for x in roots if z >= x * l - 1e-12 * max(z, 1e-300)]
        return min(roots)

    def into(self, u):
        if self.r == 0:
            return (self.a @ u) * self.a if self.L > 0 else 0 * u
        return np.asarray(u, float)

    def off(self, p):
        if self.r > 0:
            return 0.0
        y = p - self.c
        if self.L == 0:
            return float(np.linalg.norm(y))
        return float(np.linalg.norm(y - (self.a @ y) * self.a))

    @property
    def rin(self):
        return self.r

    @property
    def rrel(self):
        return self.r if self.r > 0 else self.L / 2

    @property
    def rank(self):
        return 3 if self.r > 0 else (1 if self.L > 0 else 0)

    @property
    def volume(self):
        return math.pi * self.r ** 2 * self.L + 4 / 3 * math.pi * self.r ** 3


class PolyO(Body):
    """Full-dimensional polyhedron given by its extreme points (facets by qhull)."""

    def __init__(self, V):
        self.V = np.array(V, float)
        self.dim = self.V.shape[1]
        self.c = self.V.mean(axis=0)
        self._f = None

    def sup(self, v):
        return float((self.V @ v).max())

    def supp(self, v):
        return self.V[int(np.argmax(self.V @ v))].copy()

    def facets(self):
        if self._f is None:
            self._f = hull_facets(self.V)
        return self._f

    def gauge(self, p):
        A, b = self.facets()
        return float(np.max(A @ (p - self.c) / (b - A @ self.c)))

    @property
    def rin(self):
        A, b = self.facets()
        return float(np.min(b - A @ self.c))

    @property
    def rrel(self):
        return self.rin

    @property
    def rank(self):
        return self.dim

    @property
    def volume(self):
        from scipy.spatial import ConvexHull
        return float(ConvexHull(self.V).volume)


def hull_facets(V):
    """Unit-normal facets (A, b) of a full-dimensional point set, by qhull."""
    from scipy.spatial import ConvexHull
    V = np.asarray(V, float)
    if V.shape[1] == 1:
        return np.array([[1.0], [-1.0]]), np.array([V.max(), -V.min()])
    h = ConvexHull(V)
    eq = h.equations
    out = []
    for e in eq:
        if not any(np.linalg.norm(e[:-1] - o[:-1]) < 1e-9 and abs(e[-1] - o[-1]) < 1e-9 * (1 + abs(e[-1])) for o in out):
            out.append(e)
    out = np.array(out)
    return out[:, :-1], -out[:, -1]


def extreme_points(P):
    """Indices of the extreme points of a full-dimensional point set (qhull)."""
    from scipy.spatial import ConvexHull
    P = np.asarray(P, float)
    if P.shape[1] == 1:
        return sorted({int(np.argmin(P[:, 0])), int(np.argmax(P[:, 0]))})
    uniq, idx = np.unique(P, axis=0, return_index=True)
    if len(uniq) <= P.shape[1]:
        return sorted(idx)
    v = ConvexHull(uniq).vertices
    # qhull may keep coplanar points that are not extreme: drop those by LP
    cand = [int(i) for i in v]
    keep = []
    for i in cand:
        others = uniq[[j for j in cand if j != i]]
        if not in_hull(uniq[i], others):
            keep.append(int(idx[i]))
    return sorted(keep)


def in_hull(p, V, tol=1e-9):
    """Is p a convex combination of the rows of V (LP, up to tol)?"""
    return hull_dist_inf(p, V) <= tol * max(1.0, np.abs(V).max())


def hull_dist_inf(p, V):
    """Infinity-norm distance from p to conv(V) by linear programming."""
    from scipy.optimize import linprog
    V = np.atleast_2d(np.asarray(V, float))
    n, d = V.shape
    # centre to improve conditioning
    c0 = V.mean(axis=0)
    W = V - c0
    q = np.asarray(p, float) - c0
    s = max(np.abs(W).max(), np.abs(q).max(), 1e-300)
    W, q = W / s, q / s
    # minimise e s.t. |W' l - q| <= e, sum l = 1, l >= 0
    A = np.block([[W.T, -np.ones((d, 1))], [-W.T, -np.ones((d, 1))]])
    b = np.concatenate((q, -q))
    r = linprog(np.append(np.zeros(n), 1.0), A_ub=A, b_ub=b,
                A_eq=np.append(np.ones(n), 0.0)[None, :], b_eq=[1.0],
                bounds=[(0, None)] * (n + 1), method="highs")
    if r.status != 0:
        raise Inconclusive("linprog " + str(r.status))
    return float(r.fun) * s


def poly_vertices(spec):
    """Extreme points of a polyhedron spec."""
    b = spec["base"]
    P = np.array((BASES3.get(b) or BIG3[b]) if isinstance(b, str) else b, float)
    if not isinstance(b, str):
        P = P[extreme_points(P)]
    P = P * np.array(spec["s"], float)
    return P @ rot(spec["R"]).T + tvec(spec["c"])


def oracle(spec):
    k = spec["k"]
    if k == "poly":
        return PolyO(poly_vertices(spec))
    n = len(spec["h"]) if k == "ell" else 3
    R, c = rot(spec["R"], n), tvec(spec["c"], n)
    if k == "box":
        return BoxO(spec["h"], R, c)
    if k == "ell":
        return EllO(spec["h"], R, c)
    if k == "cyl":
        return CylO(spec["L"], spec["r"], R, c)
    if k == "cap":
        return CapO(spec["L"], spec["r"], R, c)
    raise KeyError(k)


def rescaled(spec, k):
    """The same spec in another unit of length (k per old unit)."""
    if k == 1:
        return spec
    y = dict(spec)
    for a in ("h", "s", "c", "L", "r"):
        if y.get(a) is not None:
            y[a] = [float(v * k) for v in y[a]] if isinstance(y[a], (list, tuple)) else float(y[a] * k)
    return y


def moved(o, R, t):
    """Oracle of the rigidly moved body."""
    if isinstance(o, PolyO):
        return PolyO(o.V @ R.T + t)
    if isinstance(o, (EllO, BoxO)):
        return type(o)(o.h, R @ o.R, R @ o.c + t)
    return type(o)(o.L, o.r, R @ o.R, R @ o.c + t)


def build(spec):
    """The real rigeo object of a spec."""
    import rigeo as rg
    k = spec["k"]
    if k == "poly":
        return rg.ConvexPolyhedron.from_vertices(poly_vertices(spec))
    n = len(spec["h"]) if k == "ell" else 3
    R = None if spec["R"] is None else rot(spec["R"], n)
    c = None if spec["c"] is None else list(spec["c"])
    if k == "box":
        return rg.Box(half_extents=spec["h"], rotation=R, center=c)
    if k == "ell":
        return rg.Ellipsoid(half_extents=spec["h"], rotation=R, center=c)
    s = rg.Cylinder(length=spec["L"], radius=spec["r"], rotation=R, center=c)
    return s if k == "cyl" else s.capsule()


def build_all(specs):
    """One object for each spec; equal specs share the object unless marked as twins."""
    out, seen = [], []
    for s in specs:
        same = [o for t, o in seen if t == s and not s.get("twin")]
        out.append(same[0] if same else build(s))
        seen.append((s, out[-1]))
    return out


def unit(v):
    n = np.linalg.norm(v)
    return v / n if n > 0 else v


def directions(seed, n, dim=3):
    """Deterministic mixture of random, axis-aligned and diagonal directions."""
    rng = np.random.default_rng(seed)
    D = rng.normal(size=(n, dim))
    ax = np.vstack((np.eye(dim), -np.eye(dim)))
    D = np.vstack((D, ax[rng.permutation(2 * dim)[:max(2, n // 3)]]))
    return D / np.linalg.norm(D, axis=1)[:, None]


def body_directions(o, seed, n):
    """Directions including the body's own axes."""
    D = [directions(seed, n, o.dim)]
    if hasattr(o, "R"):
        D.append(o.R.T)
        D.append(-o.R.T)
    return np.vstack(D)


def J_of(masses, points):
    """Pseudo-inertia matrix of point masses, by definition."""
    J = np.zeros((4, 4))
    for m, p in zip(masses, points):
        q = np.append(np.asarray(p, float), 1.0)
        J += m * np.outer(q, q)
    return J


def vec_of(J):
    """Parameter vector [m, h, Ixx, Ixy, Ixz, Iyy, Iyz, Izz] of J, by definition."""
    H = J[:3, :3]
    I = np.trace(H) * np.eye(3) - H
    return np.concatenate(([J[3, 3]], J[3, :3], [I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]]))


def hom(R, t):
    n = len(t)
    T = np.eye(n + 1)
    T[:n, :n] = R
    T[:n, n] = t
    return T


def points_in(o, seed, n, boundary=0.4):
    """n points of the body: interior and relative-boundary points."""
    rng = np.random.default_rng(seed)
    out = []
    for i in range(n):
        u = rng.normal(size=o.dim)
        w = rng.random()
        kind = rng.random()
        if kind < boundary:
            out.append(o.supp(u))
        elif kind < boundary + 0.15:
            out.append(o.boundary(u))
        else:
            out.append(o.interior(u, w ** (1 / 3) * 0.999))
    return np.array(out)


def jitter(case):
    """Neighbouring cases: every polyhedron in the case slightly resized/turned.

    Used to tell a wrong algorithm (fails for the neighbours too) from a
    numerical breakdown of the floating-point double description library on one
    unlucky pose (see KNOWN_FINDINGS.txt).
    """
    def has(x):
        if isinstance(x, dict):
            return x.get("k") == "poly" or x.get("clear") or any(has(v) for v in x.values())
        return isinstance(x, list) and any(has(v) for v in x)

    def go(x, i):
        if isinstance(x, dict):
            if x.get("k") == "box" and x.get("clear"):
                y = dict(x)
                y["h"] = [round(h * (1 + 0.07 * (i + 1)) * (1 + 0.031 * j), 6) for j, h in enumerate(x["h"])]
                if i >= 3:
                    y["R"] = list(x["R"] or []) + [[0, 1, 17 + 3 * i], [1, 2, 23 + 2 * i]]
                if x["c"] is not None:
                    y["c"] = [round(c * (1 + 0.013 * (i + 1)), 6) for c in x["c"]]
                return y
            if x.get("k") == "poly":
                y = dict(x)
                f = 1 + 0.07 * (i + 1)
                y["s"] = [round(s * f * (1 + 0.031 * j), 6) for j, s in enumerate(x["s"])]
                if i >= 3:
                    y["R"] = list(x["R"] or []) + [[0, 1, 17 + 3 * i], [1, 2, 23 + 2 * i]]
                if x["c"] is not None:
                    y["c"] = [round(c * (1 + 0.013 * (i + 1)), 6) for c in x["c"]]
                return y
            return {k: go(v, i) for k, v in x.items()}
        if isinstance(x, list):
            return [go(v, i) for v in x]
        return x
    if not has(case):
        return []
    return [go(case, i) for i in range(6)]


def outward(o, v):
    """A boundary point x and unit outward normal n there (distance of x + e n is e)."""
    n = unit(np.asarray(v, float))
    return o.supp(n), n


def ortho_dirs(o):
    """Orthonormal directions normal to the affine hull of a degenerate body."""
    if o.rank == o.dim:
        return np.zeros((0, o.dim))
    if isinstance(o, (EllO, BoxO)):
        return o.R.T[~o.nz]
    out = []
    if isinstance(o, CylO):
        if o.L == 0:
            out.append(o.R[:, 2])
        if o.r == 0:
            out += [o.R[:, 0], o.R[:, 1]]
    else:
        out += [o.R[:, 0], o.R[:, 1]]
        if o.L == 0:
            out.append(o.R[:, 2])
    return np.array(out)


def scale_of(o):
    return float(np.abs(o.c).max()) + o.size + 1e-300


def member_probes(o, seed, n=4):
    """(points, inside?) with clear margins relative to the shape's size."""
    D = body_directions(o, seed, n)
    rng = np.random.default_rng(seed + 7)
    P, ans = [o.c.copy()], [True]
    for u in D:
        b = o.boundary(u)
        P += [o.c + s * (b - o.c) for s in (0.3, 0.93)]
        ans += [True, True]
        P.append(o.supp(unit(u)))
        ans.append(True)
        d = b - o.c
        L = np.linalg.norm(d)
        if L > 0:
            for s in (1.07, 3.0):
                P.append(o.c + s * d)
                ans.append(False)
        x, nn = outward(o, u)
        e = (0.05 + rng.random()) * max(o.size, 1e-2)
        P.append(x + e * nn)
        ans.append(False)
    for w in ortho_dirs(o):
        e = (0.05 + rng.random()) * max(o.size, 1e-2) * (1 if rng.random() < 0.5 else -1)
        P.append(o.interior(D[0], 0.5) + e * w)
        ans.append(False)
    return np.array(P), np.array(ans)


