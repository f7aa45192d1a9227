"""C30: queries and derivations never modify their inputs."""
import copy

import cvxpy as cp
import numpy as np
import rigeo as rg
from hypothesis import strategies as st

from .. import gen
from ..geo import J_of, arr, body_directions, build, oracle, require, rot, scale_of, tvec
from ..harness import Hang, Prop, Sub, Violation

SOLVER = "CLARABEL"


# ---- what can be seen of an object ------------------------------------------------

SEEN = {
    rg.Box: ("half_extents", "center", "rotation", "vertices", "A", "b", "volume", "side_lengths", "diaglen"),
    rg.ConvexPolyhedron: ("vertices", "A", "b"),
    rg.Ellipsoid: ("half_extents", "center", "rotation", "S", "E", "rank", "volume"),
    rg.Cylinder: ("length", "radius", "center", "rotation", "longitudinal_axis", "transverse_axes", "volume", "disks"),
    rg.Capsule: ("radius", "inner_length", "full_length", "center", "rotation", "caps", "cylinder"),
    rg.SpanForm: ("vertices", "rays", "nv", "nr"),
    rg.FaceForm: ("A", "b", "nf"),
    rg.InertialParameters: ("mass", "com", "H", "h", "I", "J", "vec", "M"),
    rg.SV: ("vec", "linear", "angular"),
    rg.RigidBody: ("shapes", "params"),
}


def seen(x, depth=0):
    """A copy of everything public that describes x (comparable with diff)."""
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, np.generic)):
        return x
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, rg.MomentIndex):
        return ("index", tuple(x.value))
    if isinstance(x, rg.Polynomial):
        return ("polynomial", {k.value: float(v) for k, v in x.coefficients.items() if np.isscalar(v)})
    if isinstance(x, rg.MomentMatrix):
        return ("moment matrix", [[e.value for e in r] for r in np.asarray(x.matrix, dtype=object).tolist()] if hasattr(x, "matrix") else None)
    if isinstance(x, (cp.Expression, cp.Constraint, cp.Problem)):
        return ("cvxpy", type(x).__name__)
    if isinstance(x, dict):
        return {str(k): seen(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [seen(v, depth + 1) for v in x]
    for c, names in SEEN.items():
        if type(x) is c:
            return (c.__name__, {n: seen(getattr(x, n), depth + 1) for n in names})
    if type(x).__name__ == "ClosestPointInfo":
        return {n: seen(getattr(x, n)) for n in ("p1", "p2", "dist") if hasattr(x, n)}
    return ("object", type(x).__name__)


def diff(a, b, tol=0.0):
    """Path of the first difference, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return f"{a!r:.200} became {b!r:.200}"
        if a.dtype == object:
            return None
        ok = np.array_equal(a, b) if tol == 0 or a.dtype.kind not in "fc" else np.allclose(a, b, rtol=tol, atol=tol)
        if not ok and a.dtype.kind == "f":
            ok = np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
        return None if ok else f"{a.tolist()!r:.300} became {b.tolist()!r:.300}"
    if isinstance(a, dict):
        if not isinstance(b, dict) or a.keys() != b.keys():
            return f"{a!r:.200} became {b!r:.200}"
        for k in a:
            d = diff(a[k], b[k], tol)
            if d:
                return f"{k}: {d}"
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return f"{a!r:.200} became {b!r:.200}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol)
            if d:
                return f"[{i}] {d}" if not isinstance(x, str) else d
        return None
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        if a == b or (np.isnan(a) and np.isnan(b)) or (tol and np.isclose(a, b, rtol=tol, atol=tol)):
            return None
        return f"{a!r} became {b!r}"
    return None if a == b else f"{a!r:.200} became {b!r:.200}"


class World:
    """Objects and arrays under observation, with what they looked like."""

    def __init__(self):
        self.things = []

    def add(self, name, x):
        self.things.append((name, x, seen(x)))
        return x

    def check(self, after):
        for name, x, s in self.things:
            try:
                now = seen(x)
            except Exception as e:  # noqa
                raise Violation(f"after {after}, {name} can no longer be inspected: {e!r:.200}") from e
            d = diff(s, now)
            if d:
                raise Violation(f"{after} changed {name}: {d}")


# ---- operations: (name, kinds, callable(w) -> result, tolerance of repetition) -----

OPS = {}


def op(group, name, f, tol=1e-12):
    OPS.setdefault(group, []).append((name, f, tol))


for g, names in {
    "box": ("volume", "side_lengths", "diaglen", "A", "b", "vertices", "nf", "nv", "dim"),
    "poly": ("A", "b", "vertices", "nf", "nv", "dim"),
    "ell": ("S", "E", "rank", "volume", "A", "b", "Q", "dim"),
    "cyl": ("volume", "longitudinal_axis", "transverse_axes"),
    "cap": ("full_length", "center", "rotation"),
}.items():
    for nm in names:
        op(g, nm, lambda w, nm=nm: getattr(w.s, nm))
for g in ("box", "poly", "ell", "cyl", "cap"):
    op(g, "contains", lambda w: w.s.contains(w.P))
    op(g, "contains(one point)", lambda w: w.s.contains(w.P1))
    op(g, "contains_polyhedron", lambda w: w.s.contains_polyhedron(w.box))
    op(g, "must_contain", lambda w: w.s.must_contain(w.P))
    op(g, "must_contain(scale)", lambda w: w.s.must_contain(w.P1, scale=0.5))
    op(g, "aabb", lambda w: w.s.aabb())
    op(g, "mbe", lambda w: w.s.mbe(solver=SOLVER), 1e-6)
    op(g, "mbe(sphere)", lambda w: w.s.mbe(sphere=True, solver=SOLVER), 1e-6)
    op(g, "random_points", lambda w: w.s.random_points((3, 2), rng=w.seed))
    op(g, "transform", lambda w: w.s.transform(rotation=w.R, translation=w.t))
    op(g, "transform(rotation)", lambda w: w.s.transform(rotation=w.R))
    op(g, "transform(translation)", lambda w: w.s.transform(translation=w.t))
    op(g, "is_same", lambda w: [w.s.is_same(w.other), w.other.is_same(w.s), w.s.is_same(w.twin)])
    op(g, "closest_points", lambda w: (lambda i: i)(rg.closest_points(w.s, w.other, solver=SOLVER)), 1e-5)
    op(g, "repr", lambda w: repr(w.s))
    op(g, "RigidBody", lambda w: rg.RigidBody([w.s, w.other], params=w.params).transform(rotation=w.R, translation=w.t))
    op(g, "RigidBody +", lambda w: w.body + rg.RigidBody(w.s, params=w.params))
for g in ("box", "poly", "cyl"):
    op(g, "moment_sdp_constraints", lambda w: len(w.s.moment_sdp_constraints(cp.Variable((4, 4), PSD=True))))
for g in ("box", "cyl"):
    op(g, "moment_custom_vertex_constraints", lambda w: len(w.s.moment_custom_vertex_constraints(cp.Variable(10))))
op("ell", "moment_constraints", lambda w: len(w.s.moment_constraints(cp.Variable((4, 4), PSD=True))))
op("ell", "moment_constraints(values)", lambda w: bool(cp.Problem(cp.Minimize(0), w.s.moment_constraints(w.params.J)) is not None))
op("ell", "can_realize", lambda w: w.s.can_realize(w.params))
for g in ("box", "poly"):
    op(g, "moment_vertex_constraints", lambda w: len(w.s.moment_vertex_constraints(cp.Variable(10))))
    op(g, "grid", lambda w: w.s.grid(3))
    op(g, "intersect", lambda w: w.s.intersect(w.box))
    op(g, "intersect (as argument)", lambda w: w.box.intersect(w.s))
    op(g, "mie", lambda w: w.s.mie(solver=SOLVER), 1e-6)
    op(g, "face form to span form", lambda w: w.s.face_form.to_span_form())
    op(g, "span form to face form", lambda w: w.s.span_form.to_face_form())
    op(g, "canonical", lambda w: [w.s.face_form.canonical(), w.s.span_form.canonical()])
    op(g, "stack", lambda w: w.s.face_form.stack(w.box.face_form))
    op(g, "form transform", lambda w: [w.s.face_form.transform(rotation=w.R, translation=w.t), w.s.span_form.transform(rotation=w.R, translation=w.t)])
    op(g, "bounded/is_cone", lambda w: [w.s.span_form.bounded(), w.s.span_form.is_cone()])
    op(g, "vertex_point_mass_params", lambda w: w.s.vertex_point_mass_params(w.mass))
op("box", "random_points_on_surface", lambda w: w.s.random_points_on_surface(4, rng=w.seed))
op("box", "random_points_on_edges", lambda w: w.s.random_points_on_edges(4, rng=w.seed))
op("box", "on_surface", lambda w: w.s.on_surface(w.P))
op("box", "rotate_about_center", lambda w: w.s.rotate_about_center(w.R))
op("box", "as_poly", lambda w: w.s.as_poly())
op("box", "densities", lambda w: [w.s.uniform_density_params(w.mass), w.s.hollow_density_params(w.mass), w.s.wireframe_density_params(w.mass)])
op("ell", "mbb/mib", lambda w: [w.s.mbb(), w.s.mib()])
op("ell", "on_surface", lambda w: w.s.on_surface(w.P))
op("ell", "random_points_on_surface", lambda w: w.s.random_points_on_surface(4, rng=w.seed))
op("ell", "rotate_about_center", lambda w: w.s.rotate_about_center(w.R))
op("ell", "contains_ellipsoid", lambda w: w.s.contains_ellipsoid(w.ell, solver=SOLVER))
op("ell", "contains_ellipsoid (as argument)", lambda w: w.ell.contains_ellipsoid(w.s, solver=SOLVER))
op("ell", "mbe_of_ellipsoids", lambda w: rg.mbe_of_ellipsoids(w.given_list([w.s, w.ell]), solver=SOLVER), 1e-6)
op("ell", "densities", lambda w: [w.s.uniform_density_params(w.mass), w.s.hollow_density_params(w.mass)])
op("cyl", "endpoints", lambda w: w.s.endpoints())
op("cyl", "mbb/mib", lambda w: [w.s.mbb(), w.s.mib()])
op("cyl", "capsule", lambda w: w.s.capsule())
op("cyl", "uniform_density_params", lambda w: w.s.uniform_density_params(w.mass))
op("cap", "mbb", lambda w: w.s.mbb())


class ShapeWorld(World):
    def __init__(self, case):
        super().__init__()
        spec = case["s"]
        o = oracle(spec)
        rng = np.random.default_rng(case["seed"])
        self.seed = case["seed"]
        self.mass = 1.5
        self.s = self.add("the shape", build(spec))
        self.twin = self.add("an equal shape", build(spec))
        self.other = self.add("the other shape", build(case["s2"]))
        self.R = self.add("the rotation given", rot(case["R"]))
        self.t = self.add("the translation given", tvec(case["t"]))
        sz = o.size + 0.1
        B = np.array([o.boundary(u) for u in body_directions(o, case["seed"], 3)])
        P = np.vstack((B, o.c + sz * rng.uniform(-1.5, 1.5, size=(4, 3)), [o.c]))
        self.P = self.add("the points given", P)
        self.P1 = self.add("the point given", P[0].copy())
        self.box = self.add("the box", rg.Box(half_extents=[sz, 0.7 * sz, sz], center=o.c + 0.3 * sz))
        self.ell = self.add("the ellipsoid", rg.Ellipsoid(half_extents=[sz, 0.7 * sz, sz], center=o.c - 0.2 * sz))
        m, p = np.array([1.0, 2.0, 0.5, 0.3, 0.1]), P[:5].copy()
        self.m, self.p = self.add("the masses", m), self.add("the points of the masses", p)
        self.params = self.add("the parameters", rg.InertialParameters.from_point_masses(masses=m, points=p))
        self.body = self.add("the body", rg.RigidBody([self.box, self.ell], params=self.params))
        self.lists = []

    def given_list(self, x):
        self.lists.append((x, list(x)))
        return x


def run(w, ops, seq, ctx, group, seed):
    """Run the operations in the order given; each twice or more."""
    results = {}
    done = 0
    for i in seq:
        name, f, tol = ops[(i + seed) % len(ops)]
        try:
            r = f(w)
            s = seen(r)
        except (Hang, Violation):
            raise
        except Exception:  # whether it may raise is the business of other properties
            ctx.label("raised: " + name)
            w.check(f"{group}.{name} (which raised)")
            continue
        done += 1
        ctx.label(name)
        w.check(f"{group}.{name}")
        if name in results:
            d = diff(results[name], s, tol)
            if d:
                raise Violation(f"{group}.{name} asked again gives another answer: {d}")
        else:
            results[name] = s
            w.add(f"the earlier result of {name}", r)
    for a, b in getattr(w, "lists", []):
        require(len(a) == len(b) and all(x is y for x, y in zip(a, b)), f"a list given was changed: {a!r:.200}")
    return done


def shapes(case, ctx):
    w = ShapeWorld(case)
    k = case["s"]["k"]
    ctx.label("kind=" + k)
    # every pick twice, interleaved with the others
    seq = case["ops"] + case["ops"][::-1]
    if not run(w, OPS[k], seq, ctx, k, case["seed"]):
        ctx.trivial("every operation raised")


def shape_case():
    shape = gen.shape3(degenerate=True, far=False, limit=50)
    return gen.fd(s=shape, s2=gen.shape3(far=False, limit=50), R=gen.rotation(3, False), t=gen.vec(3), seed=gen.seeds,
                  ops=st.lists(st.integers(0, 59), min_size=2, max_size=7))


# ---- parameters, spatial vectors, polynomials, utilities ------------------------------

VOPS = [
    ("params views", lambda w: [w.p1.h, w.p1.I, w.p1.Hc, w.p1.Ic, w.p1.J, w.p1.M, w.p1.vec], 1e-12),
    ("params transform", lambda w: w.p1.transform(rotation=w.R, translation=w.t), 1e-12),
    ("params +", lambda w: [w.p1 + w.p2, w.p2 + w.p1, sum([w.p1, w.p2])], 1e-12),
    ("params is_same/consistent", lambda w: [w.p1.is_same(w.p2), w.p1.consistent(), w.p1.consistent(eps=0.1)], 1e-12),
    ("params body_wrench", lambda w: w.p1.body_wrench(w.V, w.A), 1e-12),
    ("params from_pim", lambda w: rg.InertialParameters.from_pim(w.J), 1e-12),
    ("params from_pim +", lambda w: rg.InertialParameters.from_pim(w.J) + w.p1, 1e-12),
    ("params from_pim transform", lambda w: rg.InertialParameters.from_pim(w.J).transform(rotation=w.R, translation=w.t), 1e-12),
    ("params from_vec", lambda w: rg.InertialParameters.from_vec(w.vec10), 1e-12),
    ("params from_point_masses", lambda w: rg.InertialParameters.from_point_masses(masses=w.m, points=w.P), 1e-12),
    ("params com, Hc", lambda w: rg.InertialParameters(mass=w.mass, com=w.c3, H=w.H3, translate_from_com=True), 1e-12),
    ("params com, Ic", lambda w: rg.InertialParameters(mass=w.mass, com=w.c3, I=w.I3, translate_from_com=True), 1e-12),
    ("params h, I", lambda w: rg.InertialParameters(mass=w.mass, h=w.c3, I=w.I3).transform(translation=w.t), 1e-12),
    ("params no inertia", lambda w: rg.InertialParameters(mass=w.mass, com=w.c3) + w.p1, 1e-12),
    ("H2I, I2H", lambda w: [rg.H2I(w.H3), rg.I2H(w.I3)], 1e-12),
    ("sv algebra", lambda w: [w.V + w.A, w.V - w.A, w.V * 2.5, w.A / 0.5, w.V.adjoint()], 1e-12),
    ("sv from_vec", lambda w: rg.SV.from_vec(w.vec6) + w.V, 1e-12),
    ("sv init", lambda w: rg.SV(linear=w.c3, angular=w.t) - w.V, 1e-12),
    ("sv random", lambda w: rg.SV.random_diag_normal(w.V, w.C, rng=w.seed), 1e-12),
    ("lift", lambda w: [rg.lift3(w.c3), rg.lift6(w.V)], 1e-12),
    ("regressor", lambda w: rg.RigidBody.regressor(w.V, w.A), 1e-12),
    ("poly +", lambda w: [w.f + w.g, w.g + w.f, w.f + w.f], 1e-12),
    ("poly localize", lambda w: [w.f.localize(w.i1), w.g.localize(w.i2)], 1e-12),
    ("poly evaluate", lambda w: [w.f.evaluate(w.c3), w.g.evaluate(w.t), w.f.degree, str(w.g)], 1e-12),
    ("poly affine", lambda w: rg.Polynomial.affine(a=w.c3, b=w.mass) + w.f, 1e-12),
    ("index", lambda w: [w.i1 + w.i2, w.i2 + w.i1, w.i1 * w.i2, sum([w.i1, w.i2]), w.i1 == w.i2, str(w.i1)], 1e-12),
    ("moment localize", lambda w: w.mm.localize(w.Mval, w.f2), 1e-12),
    ("moment localizing_matrix", lambda w: str(w.mm.localizing_matrix(1, w.f2)), 1e-12),
    ("moment constraints", lambda w: len(w.mm.moment_constraints(cp.Variable((10, 10), PSD=True))), 1e-12),
    ("vech", lambda w: [rg.vech(w.H3), rg.vech(w.H3, k=1), rg.unvech(w.vec6), rg.unvech(w.vec10)], 1e-12),
    ("skew3", lambda w: rg.skew3(w.c3), 1e-12),
    ("transforms", lambda w: [rg.clean_transform(w.R, w.t), rg.transform_matrix(w.R, w.t), rg.transform_matrix_inv(w.R, w.t)], 1e-12),
    ("transforms composed", lambda w: [rg.transform_matrix(None, w.t) @ rg.transform_matrix_inv(w.R), rg.contact_jacobian(w.t)], 1e-12),
    ("box_vertices", lambda w: rg.box_vertices(w.c3), 1e-12),
    ("rmse", lambda w: rg.validation_rmse(w.Ys, w.ws, w.vec10), 1e-12),
    ("unordered", lambda w: [rg.allclose_unordered(w.P, w.Q), rg.allclose_unordered(w.Q, w.P), rg.allclose_unordered(w.P, w.P)], 1e-12),
    ("convex_hull", lambda w: rg.convex_hull(w.P), 1e-12),
    ("convex_hull (flat)", lambda w: rg.convex_hull(w.F), 1e-12),
    ("mbe_of_points", lambda w: rg.mbe_of_points(w.P, solver=SOLVER), 1e-6),
    ("mbe_of_points (flat)", lambda w: rg.mbe_of_points(w.F, sphere=True, solver=SOLVER), 1e-6),
    ("box of points", lambda w: [rg.Box.from_points_to_bound(w.P), rg.Box.from_two_vertices(w.P[0], w.P[1])], 1e-12),
    ("polyhedra", lambda w: [rg.ConvexPolyhedron.from_vertices(w.P), rg.ConvexPolyhedron.from_vertices(w.P, prune=True), rg.ConvexPolyhedron.from_halfspaces(w.Af, w.bf), rg.ConvexPolyhedron.from_halfspaces(w.Af, w.bf, prune=True)], 1e-9),
    ("simplex", lambda w: rg.ConvexPolyhedron.simplex(w.ext), 1e-9),
    ("forms", lambda w: [rg.FaceForm(A_ineq=w.Af, b_ineq=w.bf, A_eq=w.Ae, b_eq=w.be), rg.SpanForm(vertices=w.P, span=w.Ae), rg.SpanForm(rays=w.P, span=w.Ae)], 1e-9),
    ("ellipsoids", lambda w: [rg.Ellipsoid.sphere(0.5, center=w.c3), rg.Ellipsoid.from_shape_matrix(w.S3, center=w.c3), rg.Ellipsoid.from_affine(w.L3, w.c3)], 1e-9),
    ("schur", lambda w: type(rg.schur(w.H3, w.c3[:, None], np.eye(1))).__name__, 1e-9),
    ("pim", lambda w: [len(rg.pim_must_equal_param_var(cp.Variable((4, 4)), 0)), len(rg.pim_psd(cp.Variable((4, 4), symmetric=True)))], 1e-9),
    ("random", lambda w: [rg.random_psd_matrix(3, rng=w.seed), rg.random_weight_vectors((2, 3), rng=w.seed), rg.random_points_in_ball((4,), 3, rng=w.seed), rg.random_points_on_hypersphere((2, 2), 2, rng=w.seed)], 1e-12),
    ("rejection_sample", lambda w: rg.rejection_sample([w.ballA], w.boxB, 4, rng=w.seed), 1e-12),
    ("body", lambda w: [w.body + w.body, w.body.transform(rotation=w.R, translation=w.t), sum([w.body, w.body2]), w.body.transform()], 1e-12),
    ("body constraints", lambda w: len(w.body.moment_sdp_constraints(cp.Variable((4, 4), PSD=True))), 1e-12),
    ("body mbes", lambda w: w.body.mbes(solver=SOLVER), 1e-6),
]


class ValueWorld(World):
    def __init__(self, case):
        super().__init__()
        rng = np.random.default_rng(case["seed"])
        self.seed = case["seed"]
        self.mass = case["mass"]
        n = case["n"]
        self.m = self.add("the masses", np.round(rng.uniform(0.1, 2, n), 2))
        P = np.round(rng.uniform(-2, 2, size=(n, 3)), 2)
        P[:4] += [[0, 0, 0], [3, 0, 0], [0, 3, 0], [0, 0, 3]]
        self.P = self.add("the points", P)
        self.Q = self.add("the points, shuffled", P[rng.permutation(n)])
        F = P.copy()
        F[:, 2] = 0.25
        self.F = self.add("the flat points", F)
        J = J_of(self.m, P)
        self.J = self.add("the pseudo-inertia matrix", J)
        H = np.array(J[:3, :3])
        self.H3 = self.add("the second moments", H)
        self.I3 = self.add("the inertia matrix", np.trace(H) * np.eye(3) - H)
        self.vec10 = self.add("the parameter vector", rg.InertialParameters.from_point_masses(masses=self.m, points=P).vec.copy())
        self.vec6 = self.add("the vector", np.array(rng.integers(-8, 9, 6), float))
        self.c3 = self.add("the 3-vector", np.array(case["c"], float))
        self.t = self.add("the translation", np.array(case["t"], float))
        self.R = self.add("the rotation", rot(case["R"]))
        self.p1 = self.add("the parameters", rg.InertialParameters.from_point_masses(masses=self.m, points=P))
        self.p2 = self.add("other parameters", rg.InertialParameters(mass=2.0, com=self.c3, H=H, translate_from_com=True))
        self.V = self.add("the velocity", rg.SV(linear=rng.normal(size=3), angular=rng.normal(size=3)))
        self.A = self.add("the acceleration", rg.SV(linear=rng.normal(size=3), angular=rng.normal(size=3)))
        self.C = self.add("the variances", rg.SV(linear=[1, 2, 3], angular=[0.5, 0.1, 0]))
        self.i1 = self.add("an index", rg.MomentIndex((1, 0, 2)))
        self.i2 = self.add("another index", rg.MomentIndex("011"))
        co = {"000": 1.0, "100": float(case["c"][0]), "011": 2.0, "200": -1.5}
        self.co = self.add("the coefficients", co)
        self.f = self.add("a polynomial", rg.Polynomial(co))
        self.g = self.add("another polynomial", rg.Polynomial({"100": -float(case["c"][0]), "002": 1.0, "011": 3.0}))
        self.f2 = self.add("a quadratic polynomial", rg.Polynomial({"000": 1.0, "200": -1.0, "020": -1.0}))
        self.mm = self.add("a moment matrix", rg.MomentMatrix(n=3, d=2))
        B = rng.normal(size=(10, 10))
        self.Mval = self.add("its value", B @ B.T)
        self.Ys = self.add("the regressors", rng.normal(size=(3, 6, 10)))
        self.ws = self.add("the wrenches", rng.normal(size=(3, 6)))
        self.Af = self.add("the normals", np.vstack((np.eye(3), -np.eye(3), [[1.0, 1, 1]])))
        self.bf = self.add("the offsets", np.array([1.0, 2, 3, 1, 2, 3, 5]))
        self.Ae = self.add("the equality", np.array([[1.0, 1, 0]]))
        self.be = self.add("its right-hand side", np.array([0.5]))
        self.ext = self.add("the extents", np.array([1.0, 2, 0.5]))
        L = np.diag([1.0, 2.0, 0.5]) @ rot(case["R"]).T
        self.L3 = self.add("the affine map", L.T @ L)
        self.S3 = self.add("the shape matrix", L.T @ L)
        self.boxB = self.add("a box", rg.Box([1, 1, 1.5], center=self.c3))
        self.ballA = self.add("a ball", rg.Ellipsoid.sphere(1.0, center=self.c3))
        self.shapes = self.add("the list of shapes", [self.boxB, self.ballA])
        self.body = self.add("the body", rg.RigidBody(self.shapes, params=self.p1))
        self.body2 = self.add("another body", rg.RigidBody([rg.Cylinder(1, 0.5, center=self.t)], params=self.p2))
        self.lists = [(self.shapes, list(self.shapes))]


def values(case, ctx):
    w = ValueWorld(case)
    if not run(w, VOPS, case["ops"] + case["ops"][::-1], ctx, "values", case["seed"]):
        ctx.trivial("every operation raised")


def value_case():
    return gen.fd(seed=gen.seeds, n=st.integers(5, 7), mass=gen.masses, c=gen.vec(3), t=gen.vec(3), R=gen.rotation(3, False),
                  ops=st.lists(st.integers(0, len(VOPS) - 1), min_size=3, max_size=12))


# ---- shapes own what they were built from -------------------------------------------

def owned(case, ctx):
    spec, how = case["s"], case["how"]
    o = oracle(spec)
    k = spec["k"]
    ctx.label("kind=" + k)
    given = {}

    def g(name, x, as_list=False):
        given[name] = np.array(x, dtype=float)
        return given[name]

    if k == "box":
        h, c, R = g("half_extents", o.h), g("center", o.c), g("rotation", o.R)
        if how == 0:
            s = rg.Box(half_extents=h, center=c, rotation=R)
        elif how == 1:
            s = rg.Box.from_side_lengths(side_lengths=h, center=c, rotation=R)
        elif how == 2:
            s = rg.Box.from_two_vertices(c, h)
        else:
            s = rg.Box.cube(0.5, center=c, rotation=R)
    elif k == "ell":
        h, c, R = g("half_extents", o.h), g("center", o.c), g("rotation", o.R)
        if how == 1:
            s = rg.Ellipsoid.sphere(0.5, center=c)
        elif how == 2 and o.rank == o.dim:
            S = g("shape matrix", o.R @ np.diag(o.h ** -2) @ o.R.T)
            s = rg.Ellipsoid.from_shape_matrix(S, center=c)
        elif how == 3 and o.rank == o.dim:
            A = g("A", o.R @ np.diag(1 / o.h) @ o.R.T)
            s = rg.Ellipsoid.from_affine(A, c)
        else:
            s = rg.Ellipsoid(half_extents=h, rotation=R, center=c)
    elif k in ("cyl", "cap"):
        c, R = g("center", o.c), g("rotation", o.R)
        s = rg.Cylinder(length=o.L, radius=o.r, rotation=R, center=c)
        if k == "cap":
            s = s.capsule()
    else:
        if how % 2:
            s0 = rg.ConvexPolyhedron.from_vertices(o.V)
            A, b = g("normals", s0.A), g("offsets", s0.b)
            s = rg.ConvexPolyhedron.from_halfspaces(A, b)
            ctx.label("halfspaces")
        else:
            s = rg.ConvexPolyhedron.from_vertices(g("vertices", o.V), prune=how == 2)
    before = seen(s)
    P = np.vstack(([o.c], [o.boundary(u) for u in body_directions(o, case["seed"], 2)], o.c + 0.7 * o.size + np.zeros((1, 3))))
    ans = np.array(s.contains(P))
    # a shape derived from it and from the same arrays
    t = given.get("center")
    other = s.transform(rotation=given.get("rotation"), translation=t)
    obefore = seen(other)
    for name, a in given.items():
        a *= 1.75
        a += 0.37
        d = diff(before, seen(s))
        if d:
            raise Violation(f"{s!r:.200}: writing to the array given as {name} changed the shape: {d}")
        d = diff(obefore, seen(other))
        if d:
            raise Violation(f"{s!r:.200}: writing to the array given as {name} changed the transformed shape: {d}")
    require(np.array_equal(ans, np.array(s.contains(P))), "contains answers differently after the arrays it was built from changed")


def owned_values(case, ctx):
    """Parameters, spatial vectors, polynomials and forms own what they were built from."""
    w = ValueWorld(case)
    given = {n: np.array(x) for n, x in (("m", w.m), ("P", w.P), ("J", w.J), ("H", w.H3), ("I", w.I3), ("vec10", w.vec10), ("vec6", w.vec6), ("c", w.c3), ("t", w.t), ("R", w.R), ("Af", w.Af), ("bf", w.bf),
                                         ("Ae", w.Ae), ("be", w.be), ("rays", np.abs(w.P)))}
    m, P, J, H, I, vec10, vec6, c, t, R, Af, bf, Ae, be, rays = given.values()
    co = dict(w.co)
    IP = rg.InertialParameters
    made = {
        "from_point_masses": IP.from_point_masses(masses=m, points=P), "from_pim": IP.from_pim(J), "from_vec": IP.from_vec(vec10), "com, Hc": IP(mass=w.mass, com=c, H=H, translate_from_com=True),
        "com, Ic": IP(mass=w.mass, com=c, I=I, translate_from_com=True), "com, H": IP(mass=w.mass, com=c, H=H), "h, I": IP(mass=w.mass, h=c, I=I), "h, H": IP(mass=w.mass, h=c, H=H), "com alone": IP(mass=w.mass, com=c),
        "massless": IP(mass=0, com=c, H=H),
        "moved": IP.from_pim(J).transform(rotation=R, translation=t), "only translated": IP.from_pim(J).transform(translation=t), "only rotated": IP.from_pim(J).transform(rotation=R), "sum": IP.from_pim(J) + IP(mass=1, com=c, H=H),
        "SV.from_vec": rg.SV.from_vec(vec6), "SV": rg.SV(linear=c, angular=t), "Polynomial": rg.Polynomial(co), "Polynomial.affine": rg.Polynomial.affine(a=c, b=w.mass),
        "FaceForm": rg.FaceForm(A_ineq=Af, b_ineq=bf), "FaceForm with equalities": rg.FaceForm(A_ineq=Af, b_ineq=bf, A_eq=Ae, b_eq=be), "SpanForm": rg.SpanForm(vertices=P, rays=rays), "SpanForm with span": rg.SpanForm(rays=rays, span=Ae),
        "moved FaceForm": rg.FaceForm(A_ineq=Af, b_ineq=bf).transform(rotation=R, translation=t), "moved SpanForm": rg.SpanForm(vertices=P).transform(rotation=R, translation=t), "cone": rg.SpanForm(rays=rays).transform(translation=t),
        "body": rg.RigidBody([rg.Box([1, 1, 1], center=c, rotation=R)], params=IP.from_pim(J)).transform(rotation=R, translation=t),
    }
    before = {k: seen(x) for k, x in made.items()}
    for name, a in given.items():
        if a.dtype.kind != "f":
            continue
        a *= 1.75
        a += 0.37
        co["000"] = 77.0
        for k, x in made.items():
            d = diff(before[k], seen(x))
            if d:
                raise Violation(f"writing to the array given as {name} changed the result of {k}: {d}")
    # and two results do not share what they own
    p = made["com, H"]
    q = [p.transform(), p + IP.zero(), IP(mass=p.mass, com=p.com, H=p.H), IP.from_pim(p.J)]
    before = [seen(x) for x in q]
    p.com += 1.0
    p.H += 1.0
    for b, x, n in zip(before, q, ("transform()", "+ zero", "a copy by com and H", "from_pim(J)")):
        d = diff(b, seen(x))
        if d:
            raise Violation(f"writing to parameters changed those derived from them by {n}: {d}")


def owned_case():
    return gen.fd(s=gen.shape3(degenerate=True, far=False, limit=50), how=st.integers(0, 3), seed=gen.seeds)


PROP = Prop("C30", [
    Sub("shapes", shape_case, shapes, 800, 20000, rule="at least one operation of the case returned"),
    Sub("values", value_case, values, 400, 10000, rule="at least one operation of the case returned"),
    Sub("owned", owned_case, owned, 600, 10000, rule="every case"),
    Sub("owned_values", value_case, owned_values, 200, 4000, rule="every case"),
])
