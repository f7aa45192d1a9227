"""C32: results depend on the numbers given, not on how the arrays holding them are represented."""
import cvxpy as cp
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import J_of, require
from ..harness import Hang, Inconclusive, Prop, Sub, Violation
from .c30 import seen

SOLVER = "CLARABEL"

# ---- representations -------------------------------------------------------------


def plain(x):
    return np.array(x, dtype=float, order="C")


def as_int(x):
    return np.array(x).astype(np.int64)


def as_int32(x):
    return np.array(x).astype(np.int32)


def as_fortran(x):
    return np.asfortranarray(plain(x))


def as_strided(x):
    """Every second element of a larger array."""
    x = plain(x)
    big = np.full(tuple(2 * n for n in x.shape), 1e9)
    sl = tuple(slice(1, None, 2) for _ in x.shape)
    big[sl] = x
    return big[sl]


def as_reversed(x):
    x = plain(x)
    return np.ascontiguousarray(x[::-1])[::-1]


def as_transposed(x):
    return np.ascontiguousarray(plain(x).T).T


def as_readonly(x):
    x = plain(x)
    x.setflags(write=False)
    return x


def as_view(x):
    """A row or block of a larger array."""
    x = plain(x)
    big = np.full((3,) + x.shape, -7.0)
    big[1] = x
    return big[1]


def as_list(x):
    return plain(x).tolist()


def as_tuple(x):
    x = plain(x)
    return tuple(tuple(r) for r in x.tolist()) if x.ndim == 2 else tuple(x.tolist())


def as_rows(x):
    """A list of arrays (or of numpy scalars)."""
    return list(plain(x))


ARRAYS = {"int": as_int, "int32": as_int32, "fortran": as_fortran, "strided": as_strided, "reversed": as_reversed,
          "transposed": as_transposed, "read-only": as_readonly, "view": as_view, "float": plain}
LISTS = {"list": as_list, "tuple": as_tuple, "rows": as_rows}
FORMS = dict(ARRAYS, **LISTS)


# ---- what comes out, regardless of dtype and memory layout ------------------------

def same(a, b, tol, path=""):
    """Path of the first difference between two results of seen(), or None."""
    num = (bool, int, float, np.number, np.bool_, np.ndarray)
    if isinstance(a, num) and isinstance(b, num):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return f"{path}: shape {y.shape}, expected {x.shape}"
        if x.dtype == object or y.dtype == object:
            return None
        if x.dtype.kind == "b" or y.dtype.kind == "b":
            return None if x.dtype == y.dtype and np.array_equal(x, y) else f"{path}: {b!r:.200}, expected {a!r:.200}"
        x, y = x.astype(float), y.astype(float)
        s = 1 + np.abs(x[np.isfinite(x)]).max(initial=0)
        ok = np.array_equal(np.isfinite(x), np.isfinite(y)) and np.allclose(x, y, rtol=tol, atol=tol * s, equal_nan=True)
        return None if ok else f"{path}: {y.tolist()!r:.250}, expected {x.tolist()!r:.250}"
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return f"{path}: {b!r:.200}, expected {a!r:.200}"
        for k in a:
            d = same(a[k], b[k], tol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(b)} entries, expected {len(a)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {b!r:.200}, expected {a!r:.200}"


# ---- inputs ------------------------------------------------------------------------

def rotations(rng, integer):
    """A rotation; with integer entries if asked."""
    if integer:
        P = np.eye(3)[rng.permutation(3)] * rng.choice([-1, 1], size=3)[:, None]
        if np.linalg.det(P) < 0:
            P[0] *= -1
        return P
    Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


def draw(name, rng, integer):
    """The value of an input (whole numbers if asked)."""
    def num(lo, hi, size):
        return rng.integers(lo, hi + 1, size=size) + (0 if integer else rng.integers(1, 8, size=size) / 8)
    if name.startswith("R"):
        return rotations(rng, integer)
    if name.startswith("h"):  # extents
        return num(1, 5, 3)
    if name in ("six", "ten", "inertia"):
        x = num(-4, 4, 6 if name == "six" else 10)
        x[0] = abs(x[0]) + 1
        return x
    if name.startswith(("c", "t", "x", "v", "w")):
        return num(-5, 5, 3)
    if name.startswith("P"):
        return num(-4, 4, (8, 3))
    if name == "T":  # a tetrahedron
        return np.array([[0, 0, 0], [3, 0, 0], [0, 2, 0], [0, 0, 5]]) + num(-2, 2, 3)
    if name == "F":  # flat
        return np.array([[0, 0, 0], [3, 0, 0], [0, 2, 0], [3, 2, 0]]) + num(-2, 2, 3)
    if name.startswith("m"):
        return num(1, 4, 8)
    if name == "S":  # symmetric positive definite
        B = rng.integers(-2, 3, size=(3, 3))
        return B @ B.T + (2 if integer else 2.25) * np.eye(3)
    if name == "L":  # invertible
        B = np.triu(rng.integers(-2, 3, size=(3, 3)), 1) + np.diag(rng.integers(1, 4, size=3))
        return B if integer else B + 0.125 * np.eye(3)
    if name == "J":
        return J_of(rng.integers(1, 4, size=8), num(-4, 4, (8, 3)) * 8) if integer else J_of(num(1, 4, 8), num(-4, 4, (8, 3)))
    if name == "A":
        return np.vstack((np.eye(3), -np.eye(3), [[1, 1, 1]]))
    if name == "b":
        return np.append(num(1, 5, 6), 7)
    if name == "e":
        return rng.integers(0, 3, size=3)
    if name == "q":
        return num(-4, 4, 5)
    raise KeyError(name)


class W:
    def __init__(self, values, forms):
        self._v, self._f = values, forms

    def __getattr__(self, k):
        return self._f[k](self._v[k])


def spatial(w):
    return rg.SV(linear=w.v, angular=w.w)


def params(w):
    return rg.InertialParameters.from_point_masses(masses=w.m, points=w.P)


# name, inputs, function, whether lists and tuples are documented as accepted, tolerance of comparison
OPS = []


def op(name, inputs, f, lists=False, tol=1e-9):
    OPS.append((name, inputs.split(), f, lists, tol))


SHAPES = {
    "box": ("h c R", lambda w: rg.Box(half_extents=w.h, center=w.c, rotation=w.R)),
    "ell": ("h c R", lambda w: rg.Ellipsoid(half_extents=w.h, center=w.c, rotation=w.R)),
    "cyl": ("c R", lambda w: rg.Cylinder(length=3.25, radius=1.75, center=w.c, rotation=w.R)),
    "cap": ("c R", lambda w: rg.Cylinder(length=3.25, radius=1.75, center=w.c, rotation=w.R).capsule()),
    "poly": ("T", lambda w: rg.ConvexPolyhedron.from_vertices(w.T)),
}
for k, (inp, mk) in SHAPES.items():
    op(f"{k}", inp, mk, True)
    op(f"{k} pruned/aabb", inp, lambda w, mk=mk: mk(w).aabb())
    op(f"{k}.contains", inp + " P", lambda w, mk=mk: mk(w).contains(w.P), True)
    op(f"{k}.contains one", inp + " x", lambda w, mk=mk: mk(w).contains(w.x), True)
    op(f"{k}.transform", inp + " R2 t", lambda w, mk=mk: mk(w).transform(rotation=w.R2, translation=w.t))
    op(f"{k}.transform translation", inp + " t", lambda w, mk=mk: mk(w).transform(translation=w.t))
    op(f"{k}.random_points", inp, lambda w, mk=mk: mk(w).random_points(3, rng=1))
    op(f"{k}.contains_polyhedron", inp + " T", lambda w, mk=mk: mk(w).contains_polyhedron(rg.ConvexPolyhedron.from_vertices(w.T)))
    op(f"{k}.must_contain", inp + " P", lambda w, mk=mk: value(lambda s: s.must_contain(w.P, scale=s_var(s)), mk(w)), False, 1e-4)
    op(f"{k}.mbe", inp, lambda w, mk=mk: mk(w).mbe(solver=SOLVER), False, 1e-4)
    op(f"{k} body transform", inp + " R2 t m P", lambda w, mk=mk: rg.RigidBody([mk(w)], params(w)).transform(rotation=w.R2, translation=w.t))


def s_var(s):
    s._scale = cp.Variable()
    return s._scale


def value(f, s):
    """Smallest scale at which the shape must contain the points."""
    cs = f(s)
    p = cp.Problem(cp.Minimize(s._scale), cs + [s._scale >= -50])
    p.solve(solver=SOLVER)
    return round(float(p.value), 6) if p.status.startswith("optimal") else p.status


for k in ("box", "ell"):
    mk = SHAPES[k][1]
    op(f"{k}.rotate_about_center", "h c R R2", lambda w, mk=mk: mk(w).rotate_about_center(w.R2))
    op(f"{k}.on_surface", "h c R P", lambda w, mk=mk: mk(w).on_surface(w.P), True)
    op(f"{k}.random_points_on_surface", "h c R", lambda w, mk=mk: mk(w).random_points_on_surface(4, rng=1))
    op(f"{k}.densities", "h c R", lambda w, mk=mk: [mk(w).uniform_density_params(2.5), mk(w).hollow_density_params(2.5)])
op("box.random_points_on_edges", "h c R", lambda w: SHAPES["box"][1](w).random_points_on_edges(4, rng=1))
op("box.wireframe", "h c R", lambda w: SHAPES["box"][1](w).wireframe_density_params(2.5))
op("box.grid", "h c R", lambda w: [SHAPES["box"][1](w).grid(3), SHAPES["box"][1](w).grid((2, 3, 1))])
op("box.as_poly", "h c R", lambda w: SHAPES["box"][1](w).as_poly())
op("box.intersect", "h T", lambda w: rg.Box(half_extents=w.h).intersect(rg.ConvexPolyhedron.from_vertices(w.T)))
op("Box.from_side_lengths", "h c R", lambda w: rg.Box.from_side_lengths(w.h, center=w.c, rotation=w.R), True)
op("Box.from_two_vertices", "x t", lambda w: rg.Box.from_two_vertices(w.x, w.t), True)
op("Box.from_points_to_bound", "P", lambda w: rg.Box.from_points_to_bound(w.P), True)
op("Box.cube", "c R", lambda w: rg.Box.cube(1.25, center=w.c, rotation=w.R), True)
op("ell.forms", "h c R", lambda w: [getattr(SHAPES["ell"][1](w), n) for n in ("A", "b", "S", "E", "Q", "volume", "rank")])
op("ell.mbb", "h c R", lambda w: [SHAPES["ell"][1](w).mbb(), SHAPES["ell"][1](w).mib()])
op("ell.can_realize", "h c R m P", lambda w: SHAPES["ell"][1](w).can_realize(params(w)))
op("Ellipsoid.sphere", "c", lambda w: rg.Ellipsoid.sphere(1.75, center=w.c), True)
op("Ellipsoid.from_shape_matrix", "S c", lambda w: rg.Ellipsoid.from_shape_matrix(w.S, center=w.c).E)
op("Ellipsoid.from_affine", "L t", lambda w: (lambda e: [e.E, e.center])(rg.Ellipsoid.from_affine(w.L, w.t)))
op("mbe_of_points", "P", lambda w: (lambda e: [e.E, e.center])(rg.mbe_of_points(w.P, solver=SOLVER)), False, 1e-3)
op("mbe_of_points sphere", "P", lambda w: (lambda e: [e.E, e.center])(rg.mbe_of_points(w.P, sphere=True, solver=SOLVER)), False, 1e-3)
op("mbe_of_ellipsoids", "h c R h2 c2 R2", lambda w: (lambda e: [e.E, e.center])(rg.mbe_of_ellipsoids(
    [rg.Ellipsoid(half_extents=w.h, center=w.c, rotation=w.R), rg.Ellipsoid(half_extents=w.h2, center=w.c2, rotation=w.R2)], solver=SOLVER)), True, 1e-3)
op("ell.contains_ellipsoid", "h c R h2 c2 R2", lambda w: rg.Ellipsoid(half_extents=w.h, center=w.c, rotation=w.R).contains_ellipsoid(
    rg.Ellipsoid(half_extents=np.array(w.h2) + 0.3, center=w.c2, rotation=w.R2), solver=SOLVER), True)
op("cyl.parts", "c R", lambda w: (lambda s: [s.endpoints(), s.disks, s.mbb(), s.mib(), s.longitudinal_axis, s.uniform_density_params(2.5)])(SHAPES["cyl"][1](w)))
op("cap.parts", "c R", lambda w: (lambda s: [s.caps, s.mbb(), s.center, s.full_length])(SHAPES["cap"][1](w)))
op("from_vertices pruned", "P", lambda w: rg.ConvexPolyhedron.from_vertices(w.P, prune=True), True)
op("from_halfspaces", "A b", lambda w: rg.ConvexPolyhedron.from_halfspaces(w.A, w.b))
op("from_halfspaces pruned", "A b", lambda w: rg.ConvexPolyhedron.from_halfspaces(w.A, w.b, prune=True))
op("simplex", "h", lambda w: rg.ConvexPolyhedron.simplex(w.h), True)
op("poly.mie", "T", lambda w: (lambda e: [e.E, e.center])(rg.ConvexPolyhedron.from_vertices(w.T).mie(solver=SOLVER)), False, 1e-3)
op("poly.point masses", "T", lambda w: rg.ConvexPolyhedron.from_vertices(w.T).vertex_point_mass_params(2.5))
op("poly.point masses given", "T q", lambda w: rg.ConvexPolyhedron.from_vertices(w.T).vertex_point_mass_params(np.abs(np.array(w.q)[:4]) + 1))
op("poly.grid", "T", lambda w: rg.ConvexPolyhedron.from_vertices(w.T).grid(3))
op("convex_hull", "P", lambda w: rg.convex_hull(w.P))
op("convex_hull flat", "F", lambda w: rg.convex_hull(w.F))
op("SpanForm", "P", lambda w: (lambda s: [s, s.to_face_form(), s.canonical()])(rg.SpanForm(vertices=w.P)))
op("SpanForm rays", "T x t", lambda w: (lambda s: [s, s.bounded(), s.is_cone()])(rg.SpanForm(vertices=w.T, rays=np.array([w.x]), span=np.array([w.t]))))
op("SpanForm.transform", "P R t", lambda w: rg.SpanForm(vertices=w.P).transform(rotation=w.R, translation=w.t))
op("FaceForm", "A b", lambda w: (lambda s: [s, s.to_span_form(), s.canonical()])(rg.FaceForm(A_ineq=w.A, b_ineq=w.b)))
op("FaceForm eq", "A b x", lambda w: rg.FaceForm(A_ineq=w.A, b_ineq=w.b, A_eq=np.array([w.x]), b_eq=np.full(1, 0.375)))
op("FaceForm eq other", "A b x", lambda w: rg.FaceForm(A_ineq=w.A, b_ineq=w.b, A_eq=np.array([[0.5, 0.25, 1.75]]), b_eq=np.array(w.x)[:1]))
op("FaceForm.transform", "A b R t", lambda w: rg.FaceForm(A_ineq=w.A, b_ineq=w.b).transform(rotation=w.R, translation=w.t))
op("FaceForm.stack", "A b", lambda w: rg.FaceForm(A_ineq=w.A, b_ineq=w.b).stack(rg.FaceForm(A_ineq=np.array([[0.5, 0.25, -0.5], [0.0, 0.125, 1.5]]), b_ineq=np.array([0.5, 1.25]))))
op("FaceForm.stack other", "A b S x", lambda w: rg.FaceForm(A_ineq=w.S, b_ineq=w.x).stack(rg.FaceForm(A_ineq=w.A, b_ineq=w.b)))
op("closest_points", "h c R T", lambda w: rg.closest_points(rg.Box(half_extents=w.h, center=w.c, rotation=w.R), rg.ConvexPolyhedron.from_vertices(np.array(w.T) + 30.5), solver=SOLVER), False, 1e-4)

op("from_point_masses", "m P", params, True)
op("params from_vec", "ten", lambda w: rg.InertialParameters.from_vec(w.ten))
op("params from_pim", "J", lambda w: rg.InertialParameters.from_pim(w.J))
op("params com H", "c S", lambda w: rg.InertialParameters(mass=1.75, com=w.c, H=w.S))
op("params h I", "c S", lambda w: rg.InertialParameters(mass=1.75, h=w.c, I=w.S))
op("params com Hc", "c S", lambda w: rg.InertialParameters(mass=1.75, com=w.c, H=w.S, translate_from_com=True))
op("params com Ic", "c S", lambda w: rg.InertialParameters(mass=2.5, com=w.c, I=w.S, translate_from_com=True))
op("params transform", "J R t", lambda w: rg.InertialParameters.from_pim(w.J).transform(rotation=w.R, translation=w.t))
op("params translate", "J t", lambda w: rg.InertialParameters.from_pim(w.J).transform(translation=w.t))
op("params +", "J m P", lambda w: [rg.InertialParameters.from_pim(w.J) + params(w), params(w) + rg.InertialParameters.from_pim(w.J)])
op("params consistent", "J", lambda w: [rg.InertialParameters.from_pim(w.J).consistent(), rg.InertialParameters.from_pim(w.J).consistent(eps=1)])
op("body_wrench", "J v w six", lambda w: rg.InertialParameters.from_pim(w.J).body_wrench(spatial(w), rg.SV.from_vec(w.six)))
op("regressor", "v w six", lambda w: rg.RigidBody.regressor(spatial(w), rg.SV.from_vec(w.six)))
op("lift6", "v w", lambda w: rg.lift6(spatial(w)))
op("H2I", "S", lambda w: [rg.H2I(w.S), rg.I2H(w.S)])
op("SV", "v w", spatial, True)
op("SV linear", "v", lambda w: rg.SV(linear=w.v), True)
op("SV angular", "w", lambda w: rg.SV(angular=w.w), True)
op("SV.from_vec", "six", lambda w: rg.SV.from_vec(w.six))
op("SV algebra", "v w six", lambda w: (lambda a, b: [a + b, b + a, a - b, a * 0.5, a / 3, b / 2, b * 0.25, a.adjoint(), b.adjoint()])(spatial(w), rg.SV.from_vec(w.six)))
op("SV random", "v w", lambda w: rg.SV.random_diag_normal(spatial(w), rg.SV.from_vec(np.full(6, 0.5)), rng=2))
op("SV random cov", "h h2", lambda w: rg.SV.random_diag_normal(rg.SV.zero(), rg.SV(linear=w.h, angular=w.h2), rng=2))
op("vech", "S", lambda w: [rg.vech(w.S), rg.vech(w.S, k=1)])
op("unvech", "six ten", lambda w: [rg.unvech(w.six), rg.unvech(w.ten)])
op("skew3", "x", lambda w: rg.skew3(w.x))
op("lift3", "x", lambda w: rg.lift3(w.x))
op("contact_jacobian", "x", lambda w: rg.contact_jacobian(w.x))
op("transform_matrix", "R t", lambda w: [rg.transform_matrix(rotation=w.R, translation=w.t), rg.transform_matrix_inv(rotation=w.R, translation=w.t)])
op("transform_matrix t", "t", lambda w: [rg.transform_matrix(translation=w.t), rg.transform_matrix_inv(translation=w.t)])
op("clean_transform", "R t", lambda w: rg.clean_transform(w.R, w.t))
op("box_vertices", "h", lambda w: rg.box_vertices(w.h), True)
op("rmse", "ten six", lambda w: rg.validation_rmse(np.arange(120.0).reshape(2, 6, 10), np.array([w.six, 2 * np.array(w.six)]), w.ten))
op("allclose_unordered", "P", lambda w: [rg.allclose_unordered(w.P, np.array(w.P)[::-1]), rg.allclose_unordered(w.P, np.array(w.P) + 0.001), rg.allclose_unordered(np.array(w.P) + 0.001, w.P)])
op("Polynomial.affine", "x", lambda w: rg.Polynomial.affine(w.x, 0.5))
op("Polynomial.evaluate", "x", lambda w: rg.Polynomial({(2, 0, 1): 0.5, (0, 1, 0): 3, (0, 0, 0): -1}).evaluate(w.x))
op("MomentIndex", "e", lambda w: [(rg.MomentIndex(w.e) + rg.MomentIndex((1, 0, 2))).value, hash(rg.MomentIndex(w.e)), rg.MomentIndex(w.e) == rg.MomentIndex(tuple(w.e))], True)
op("Polynomial keys", "e", lambda w: rg.Polynomial({rg.MomentIndex(w.e): 0.5}), True)
op("schur", "S x", lambda w: (lambda E: E.value if hasattr(E, "value") else E)(rg.schur(w.S, np.array(w.x)[:, None], np.array([[2.0]]))))
op("moment localize", "J", lambda w: rg.MomentMatrix(3, 1).localize(w.J, rg.Polynomial({(0, 0, 0): 0.5, (1, 0, 0): 2.0})))
op("pim_must_equal_vec", "ten", lambda w: (lambda E: E.value if hasattr(E, "value") else E)(rg.pim_must_equal_vec(w.ten)))


def sweep(case, ctx):
    name, inputs, f, lists, tol = OPS[case["op"] % len(OPS)]
    rng = np.random.default_rng(case["seed"])
    forms = {k: sorted(FORMS)[i % len(FORMS)] for k, i in zip(inputs, case["forms"])}
    if case["arrays"]:
        forms = {k: v if v in ARRAYS else "int" for k, v in forms.items()}
    vals = {k: draw(k, rng, f_.startswith("int") or k == "e") for k, f_ in forms.items()}
    listed = any(v in LISTS for v in forms.values())
    ctx.label(name, *set(forms.values()))
    if set(forms.values()) == {"float"}:
        ctx.trivial("all plain")
    desc = ", ".join(f"{k}: {v}" for k, v in forms.items())
    try:
        ref = seen(f(W(vals, {k: plain for k in inputs})))
    except (Hang, Violation):
        raise
    except Exception as e:
        if not name.startswith("from_halfspaces"):
            raise
        raise Inconclusive(repr(e)) from e
    try:
        got = seen(f(W(vals, {k: FORMS[v] for k, v in forms.items()})))
    except (Hang, Violation):
        raise
    except Exception as e:
        if listed and not lists:
            # lists are not documented for this one: refusing them is fine
            ctx.trivial("lists refused")
            return
        raise Violation(f"{name} with arguments given as {desc} raises {e!r:.200}, with plain float arrays it does not; values {show(vals)}") from e
    d = same(ref, got, tol)
    if d:
        raise Violation(f"{name} with arguments given as {desc} differs from plain float arrays at {d}; values {show(vals)}")


def show(vals):
    return f"{({k: np.asarray(v).tolist() for k, v in vals.items()})!r:.400}"


PROP = Prop("C32", [
    Sub("sweep", lambda: gen.fd(op=st.integers(0, len(OPS) - 1), seed=gen.seeds, arrays=st.booleans(), forms=st.lists(st.integers(0, 11), min_size=8, max_size=8)), sweep, 6000, 60000, chunk=300,
        rule="every public operation on the same numbers held by integer, strided, reversed, transposed, read-only or list arguments; non-trivial unless all are plain or lists are refused"),
], assumptions=["lists and tuples must be accepted only where the documentation says iterable; elsewhere they may be refused but must not change the result"])
