"""Realizability constraint families, solved through the public cvxpy interface."""
import cvxpy as cp
import numpy as np
import rigeo as rg
from scipy.optimize import minimize_scalar

from . import gen
from .geo import J_of, body_directions, build, hom, oracle, points_in, rot, tvec
from .harness import Inconclusive, Violation

from hypothesis import strategies as st


# ---- generation -------------------------------------------------------------

_ext = st.integers(2, 16).map(lambda k: k / 8)
_thin = st.sampled_from([1 / 64, 1 / 32, 1 / 16])  # one dimension much smaller than the others
_R = gen.rotation(3, angle=gen.angle_clear)
_c = st.one_of(st.none(), gen.vec(3, st.integers(-16, 16).map(lambda k: k / 8)))
SOLIDS = {k: v for k, v in gen.BASES3.items() if k != "cube"}


def _thinned(h):
    """Sometimes one or two of the extents are much smaller."""
    one = st.tuples(h, st.permutations([0, 1, 2]), _thin, st.booleans()).map(lambda t: [t[2] if i == t[1][0] or (t[3] and i == t[1][1]) else x for i, x in enumerate(t[0])])
    return st.one_of(h, h, h, one)


def s_box(thin=False):
    h = st.one_of(st.lists(_ext, min_size=3, max_size=3), _ext.map(lambda x: [x] * 3))
    if thin:
        h = _thinned(h)
    return gen.fd(k=st.just("box"), h=h, R=_R, c=_c, clear=st.just(True))


def s_ell(degenerate=False):
    h = st.one_of(st.lists(_ext, min_size=3, max_size=3), _ext.map(lambda x: [x] * 3))
    if degenerate:
        h = st.one_of(h, st.tuples(h, st.lists(st.booleans(), min_size=3, max_size=3)).map(lambda t: [0.0 if m else x for x, m in zip(*t)]))
    return gen.fd(k=st.just("ell"), h=h, R=_R, c=_c)


def s_cyl(thin=False):
    L, r = _ext.map(lambda x: 2 * x), _ext
    if not thin:
        return gen.fd(k=st.just("cyl"), L=L, r=r, R=_R, c=_c)
    return st.one_of([gen.fd(k=st.just("cyl"), L=a, r=b, R=_R, c=_c) for a, b in ((L, r), (L, r), (_thin, r), (L, _thin))])


def s_poly(small=True):
    names = ["tet", "oct", "pyramid", "wedge", "prism"] if small else sorted(SOLIDS) + sorted(gen.BIG3)
    return gen.fd(k=st.just("poly"), base=st.sampled_from(names), s=st.lists(_ext, min_size=3, max_size=3), R=_R, c=_c)


def s_shape(kinds=("box", "ell", "cyl", "poly")):
    f = {"box": s_box, "ell": s_ell, "cyl": s_cyl, "poly": s_poly}
    return st.one_of([f[k]() for k in kinds])


FAMILIES = {"box": ["vertex", "custom", "sdp"], "poly": ["vertex", "sdp"], "cyl": ["custom", "sdp"], "ell": ["ell"]}


def s_family(kinds=("box", "ell", "cyl", "poly"), heavy=True):
    """A shape together with one of its families (with_family adds the name)."""
    w = []
    for k in kinds:
        for f in FAMILIES[k]:
            if f == "sdp" and not heavy:
                continue
            s = {"box": s_box, "ell": lambda: s_ell(True), "cyl": s_cyl, "poly": s_poly}[k]()
            w.append(gen.fd(s=s, family=st.just(f)))
    return st.one_of(w)


params = st.sampled_from(["J", "vec", "sym", "psd", "slice"])


# ---- building problems --------------------------------------------------------

def vec_matrices():
    """J = sum of A_i theta_i for theta = [m, h, Ixx, Ixy, Ixz, Iyy, Iyz, Izz], from H = tr(I)/2 - I."""
    out = []
    for i in range(10):
        th = np.zeros(10)
        th[i] = 1
        I = np.array([[th[4], th[5], th[6]], [th[5], th[7], th[8]], [th[6], th[8], th[9]]])
        J = np.zeros((4, 4))
        J[:3, :3] = np.trace(I) / 2 * np.eye(3) - I
        J[:3, 3] = J[3, :3] = th[1:4]
        J[3, 3] = th[0]
        out.append(J)
    return out


def variable(kind):
    """(what is passed to the library, the pseudo-inertia matrix as an expression, extra constraints)."""
    if kind == "vec":
        th = cp.Variable(10)
        return th, cp.sum([A * th[i] for i, A in enumerate(vec_matrices())]), []
    if kind == "sym":
        J = cp.Variable((4, 4), symmetric=True)
    elif kind == "psd":
        J = cp.Variable((4, 4), PSD=True)
    elif kind == "slice":
        # a block of a larger variable
        B = cp.Variable((6, 5))
        return B[1:5, :4], B[1:5, :4], [B[0, :] == 0, B[5, :] == 0, B[:, 4] == 0]
    else:
        J = cp.Variable((4, 4))
    return J, J, []


def constraints(shape, family, var, eps=0, d=2):
    if family == "sdp":
        c = shape.moment_sdp_constraints(var, eps=eps, d=d)
    elif family == "vertex":
        c = shape.moment_vertex_constraints(var, eps=eps)
    elif family == "custom":
        c = shape.moment_custom_vertex_constraints(var, eps=eps)
    elif family == "ell":
        c = shape.moment_constraints(var, eps=eps)
    elif family == "body":
        c = shape.moment_sdp_constraints(var, eps=eps, d=d)
    else:
        raise KeyError(family)
    if not isinstance(c, list) or not all(isinstance(x, cp.constraints.constraint.Constraint) for x in c):
        raise Violation(f"{family} constraints are not a list of constraints: {c!r:.200}")
    return c


def run(problem, what):
    """Solve; returns the status ('optimal', 'infeasible', 'unbounded')."""
    try:
        problem.solve(solver="CLARABEL")
    except cp.error.DCPError as e:
        raise Violation(f"{what}: constraints are not convex: {str(e)[:160]}") from e
    s = problem.status
    for k in ("optimal", "infeasible", "unbounded"):
        if s.startswith(k):
            return k
    raise Inconclusive(f"solver: {s}")


class Sup:
    """sup of <D, J> over a family, with fixed mass; compiled once."""

    def __init__(self, shape, family, kind="J", mass=1.0, eps=0, d=2):
        self.var, self.J, extra = variable(kind)
        self.D = cp.Parameter((4, 4))
        self.what = f"{family}{'' if d == 2 else d} constraints ({kind})"
        c = constraints(shape, family, self.var, eps=eps, d=d)
        self.problem = cp.Problem(cp.Maximize(cp.sum(cp.multiply(self.D, self.J))), c + extra + [self.J[3, 3] == mass])

    def __call__(self, D):
        self.D.value = D
        k = run(self.problem, self.what)
        return float(self.problem.value) if k == "optimal" else (-np.inf if k == "infeasible" else np.inf)


class Project:
    """Distance of a given pseudo-inertia matrix from a family; compiled once."""

    def __init__(self, shape, family, kind="J", eps=0, d=2):
        self.var, self.J, extra = variable(kind)
        self.J0 = cp.Parameter((4, 4))
        self.what = f"{family}{'' if d == 2 else d} constraints ({kind})"
        c = constraints(shape, family, self.var, eps=eps, d=d)
        self.problem = cp.Problem(cp.Minimize(cp.norm(self.J - self.J0, "fro")), c + extra)

    def __call__(self, J0):
        self.J0.value = J0
        k = run(self.problem, self.what)
        return float(self.problem.value) if k == "optimal" else (np.inf if k == "infeasible" else -np.inf)


# ---- oracles --------------------------------------------------------------------

def quad(D, x):
    y = np.append(x, 1.0)
    return float(y @ D @ y)


def trust_max(A, b):
    """max of y'Ay + 2b'y over |y| <= 1 (exact, by its dual)."""
    lam, V = np.linalg.eigh((A + A.T) / 2)
    g = V.T @ b
    lo = max(0.0, lam.max())
    n = np.linalg.norm(g)

    def f(t):
        l = lo + t
        den = l - lam
        if np.any((den <= 0) & (np.abs(g) > 0)):
            return np.inf
        return l + float(np.sum(np.where(np.abs(g) > 0, g ** 2 / np.where(den > 0, den, 1), 0)))
    best = min(f(0.0), f(n))
    r = minimize_scalar(lambda s: f(np.exp(s)), bounds=(-30, np.log(n + 1e-9) + 1), method="bounded", options={"xatol": 1e-12, "maxiter": 400})
    return min(best, float(r.fun))


def quad_sup_ell(D, h, R, c):
    """max of [x;1]'D[x;1] over an ellipsoid (exact)."""
    T = np.eye(4)
    T[:3, :3] = R * np.asarray(h)
    T[:3, 3] = c
    B = T.T @ ((D + D.T) / 2) @ T
    nz = np.asarray(h) > 0
    if not nz.any():
        return float(B[3, 3])
    return float(B[3, 3]) + trust_max(B[:3, :3][np.ix_(nz, nz)], B[:3, 3][nz])


def random_D(rng, size, c, kind=None):
    """A random objective, scaled so that its value on the shape is of order one.

    Given in coordinates centred on the shape and normalised by its size.
    """
    B = rng.normal(size=(4, 4))
    B = (B + B.T) / 2
    k = kind if kind is not None else rng.integers(4)
    if k == 1:
        v = rng.normal(size=4)
        B = np.outer(v, v)
    elif k == 2:
        v = rng.normal(size=4)
        B = -np.outer(v, v)
    elif k == 3:
        B[:3, :3] = 0
    T = np.eye(4)
    T[:3, :3] /= size
    T[:3, 3] = -np.asarray(c) / size
    return T.T @ B @ T


def sample_bodies(o, seed, n, mass):
    """Pseudo-inertia matrices of mass distributions inside the body, extreme ones included."""
    rng = np.random.default_rng(seed)
    out = []
    for i in range(n):
        k = [1, 2, 3, 6, 15][rng.integers(5)]
        P = points_in(o, int(rng.integers(2 ** 31)), k, boundary=[0.0, 0.5, 1.0][rng.integers(3)])
        w = rng.random(k) + (0.0 if rng.random() < 0.5 else 1e-3)
        out.append((J_of(mass * w / w.sum(), P), P))
    return out
