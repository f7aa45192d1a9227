"""Hypothesis strategies producing plain JSON descriptions of inputs."""
import math

from hypothesis import strategies as st

# ---- numbers -------------------------------------------------------------

eighths = st.integers(-24, 24).map(lambda k: k / 8)
fine = st.integers(-40000, 40000).map(lambda k: k / 1e4)
num = st.one_of(eighths, fine)
big = st.integers(-4000, 4000).map(lambda k: k / 40)
logpos = st.integers(-200, 200).map(lambda k: round(10 ** (k / 100), 6))
logmid = st.integers(-100, 100).map(lambda k: round(10 ** (k / 100), 6))
pos8 = st.integers(1, 32).map(lambda k: k / 8)
seeds = st.integers(0, 2 ** 31 - 1)


def pos(wide=True):
    """Positive lengths: simple eighths, or log-uniform (wide: 0.01..100)."""
    return st.one_of(pos8, logpos if wide else logmid)


masses = st.one_of(st.just(1.0), pos8, logpos)
masses0 = st.one_of(st.just(0.0), masses)


def lists(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


def vec(n=3, elem=num):
    return st.lists(elem, min_size=n, max_size=n)


def sparse(n=3, elem=num):
    """Vectors with a single non-zero component."""
    return st.tuples(elem, st.integers(0, n - 1)).map(lambda t: [t[0] if i == t[1] else 0.0 for i in range(n)])


def halves(elem=num):
    """Six-vectors; sometimes one half is zero."""
    return st.one_of(vec(6, elem), vec(6, elem), st.tuples(vec(3, elem), st.booleans()).map(lambda t: t[0] + [0.0] * 3 if t[1] else [0.0] * 3 + t[0]))


def center(n=3, far=True):
    elem = [vec(n), vec(n, big), vec(n), vec(n, big)] if far else [vec(n), vec(n)]
    return st.one_of(st.none(), *elem, sparse(n))


angle = st.one_of(
    st.integers(-23, 24).map(lambda k: 15 * k),
    st.sampled_from([90, 180, -90, 270]),
    st.integers(-17999, 18000).map(lambda k: k / 100),
    st.integers(-17999, 18000).map(lambda k: k / 100),
    # very close to a multiple of a right angle
    st.builds(lambda s, k, q: s * 10.0 ** -k + 90 * q, st.sampled_from([1, -1, 2.5]), st.integers(1, 5), st.sampled_from([0, 0, 0, 1, 2])),
)


# whole degrees: no nearly-but-not-exactly axis-aligned poses (the floating
# point double description library underneath loses facets there)
angle_deg = st.one_of(st.integers(-23, 24).map(lambda k: 15 * k), st.integers(-179, 180))
# angles at least 7 degrees from the axes, or on them
angle_clear = st.one_of(st.integers(-23, 24).map(lambda k: 15 * k), st.sampled_from(
    [a for a in range(-180, 180) if 7 <= a % 90 <= 83]))


def rotation(n=3, none=True, generic=False, angle=angle):
    """A rotation as a list of Givens rotations [i, j, degrees] (or None)."""
    if n == 1:
        return st.none()
    pairs = [[i, j] for i in range(n) for j in range(n) if i < j]
    if generic:
        ang = st.integers(-17999, 18000).map(lambda k: k / 100)
        m = max(2, n)
        return st.lists(st.tuples(st.sampled_from(pairs), ang), min_size=m, max_size=m + 1).map(
            lambda gs: [p + [a] for p, a in gs])
    s = st.lists(st.tuples(st.sampled_from(pairs), angle), min_size=0 if not none else 1,
                 max_size=3).map(lambda gs: [p + [a] for p, a in gs])
    return st.one_of(st.none(), s) if none else s


def transform(n=3, far=True):
    return st.fixed_dictionaries({"R": rotation(n), "t": center(n, far)})


# ---- shapes --------------------------------------------------------------

def nearly(n, e):
    """Nearly, but not exactly, equal extents."""
    return st.tuples(e, st.integers(2, 5), st.lists(st.integers(-5, 5), min_size=n, max_size=n)).map(
        lambda t: [round(t[0] * (1 + k * 10.0 ** -t[1]), 9) for k in t[2]])


def extents(n, wide=True, degenerate=False):
    e = pos(wide)
    base = st.one_of(
        st.lists(e, min_size=n, max_size=n),
        e.map(lambda h: [h] * n),
        st.tuples(e, e, st.integers(0, n - 1)).map(
            lambda t: [t[1] if i == t[2] else t[0] for i in range(n)]),
        nearly(n, e),
    )
    if not degenerate:
        return base
    def zero(t):
        h, mask = t
        return [0.0 if m else x for x, m in zip(h, mask)]
    return st.one_of(base, base, st.tuples(base, st.lists(st.booleans(), min_size=n, max_size=n)).map(zero))


def aspect(h, limit):
    """Limit the aspect ratio of a list of extents (for solver-based checks)."""
    nz = [x for x in h if x > 0]
    if not nz:
        return h
    m = max(nz)
    return [x if x == 0 else max(x, round(m / limit, 6)) for x in h]


def box(wide=True, degenerate=False, far=True, limit=None):
    h = extents(3, wide, degenerate)
    if limit:
        h = h.map(lambda x: aspect(x, limit))
    return st.fixed_dictionaries({"k": st.just("box"), "h": h, "R": rotation(3), "c": center(3, far)})


def cbox(degenerate=False, far=True):
    """Boxes of moderate size in poses where the double description library is reliable."""
    h = extents(3, False, degenerate).map(lambda h: [x if x == 0 else min(max(x, 0.125), 8.0) for x in h])
    return st.fixed_dictionaries({"k": st.just("box"), "h": h, "R": rotation(3, angle=angle_clear),
                                  "c": poly_center(3, far), "clear": st.just(True)})


def ell(n=3, wide=True, degenerate=False, far=True, limit=None):
    h = extents(n, wide, degenerate)
    if limit:
        h = h.map(lambda x: aspect(x, limit))
    return st.fixed_dictionaries({"k": st.just("ell"), "h": h, "R": rotation(n), "c": center(n, far)})


def cyl(wide=True, degenerate=False, far=True, kind="cyl", limit=None):
    lr = st.one_of(st.tuples(pos(wide), pos(wide)), pos(wide).map(lambda r: (2 * r, r)))
    if limit:
        lr = lr.map(lambda x: tuple(aspect(list(x), limit)))
    if degenerate:
        lr = st.one_of(lr, lr, lr.map(lambda x: (0.0, x[1])), lr.map(lambda x: (x[0], 0.0)))
    return st.builds(lambda x, R, c: {"k": kind, "L": x[0], "r": x[1], "R": R, "c": c},
                     lr, rotation(3), center(3, far))


def cap(wide=True, degenerate=False, far=True, limit=None):
    return cyl(wide, degenerate, far, "cap", limit)


BASES3 = {
    "tet": [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "oct": [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]],
    "cube": [[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)],
    "prism": [[x, y, z] for z in (-1, 1) for x, y in ((0, 0), (1, 0), (0, 1))],
    "pyramid": [[-1, -1, 0], [-1, 1, 0], [1, -1, 0], [1, 1, 0], [0, 0, 1]],
    "hexprism": [[x, y, z] for z in (-1, 1) for x, y in ((2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2))],
    "wedge": [[0, 0, 0], [2, 0, 0], [0, 1, 0], [2, 1, 0], [0, 0, 1], [2, 0, 1]],
}

# many vertices or facets
BIG3 = {
    "icosahedron": [p for a in (-1, 1) for b in (-2, 2) for p in ([0, a, b], [a, b, 0], [b, 0, a])],
    "rhombic": [[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)] + [[2 * s if i == j else 0 for j in range(3)] for i in range(3) for s in (-1, 1)],
    "truncated octahedron": [p for a in (-1, 1) for b in (-2, 2) for p in ([0, a, b], [0, b, a], [a, b, 0], [b, a, 0], [b, 0, a], [a, 0, b])],
}


def lattice_points(n=3, lo=4, hi=9, rng=4):
    return st.lists(st.lists(st.integers(-rng, rng), min_size=n, max_size=n), min_size=lo, max_size=hi)


def poly(wide=False, far=True, limit=None):
    """Full-dimensional 3D polyhedra: posed and scaled solids, or lattice hulls.

    {"k": "poly", "base": name or points, "s": scale per axis, "R", "c"}; the
    vertex list is computed by shapes.poly_vertices (extreme points only).
    """
    base = st.one_of(st.sampled_from(sorted(BASES3)), lattice_points(3, 5, 9).filter(full_rank3), st.one_of(st.sampled_from(sorted(BASES3)), st.sampled_from(sorted(BIG3))))
    s = extents(3, wide)
    if not wide:
        s = s.map(lambda h: [min(max(x, 0.125), 8.0) for x in h])
    if limit:
        s = s.map(lambda x: aspect(x, limit))
    return st.fixed_dictionaries({"k": st.just("poly"), "base": base, "s": s,
                                  "R": rotation(3, angle=angle_deg), "c": poly_center(3, far)})


def poly_center(n=3, far=True):
    opts = [st.none(), vec(n, eighths)]
    if far:
        opts.append(vec(n, st.integers(-40, 40).map(lambda k: k * 1.25)))
    return st.one_of(opts)


def full_rank3(pts):
    p0 = pts[0]
    d = [[a - b for a, b in zip(p, p0)] for p in pts[1:]]
    for i in range(len(d)):
        for j in range(i):
            for k in range(j):
                a, b, c = d[i], d[j], d[k]
                det = (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0])
                       + a[2] * (b[0] * c[1] - b[1] * c[0]))
                if det != 0:
                    return True
    return False


def shape3(kinds=("box", "ell", "cyl", "cap", "poly"), wide=False, degenerate=False, far=True, limit=None):
    opts = []
    if "box" in kinds:
        opts.append(box(wide, degenerate, far, limit))
    if "ell" in kinds:
        opts.append(ell(3, wide, degenerate, far, limit))
    if "cyl" in kinds:
        opts.append(cyl(wide, degenerate, far, "cyl", limit))
    if "cap" in kinds:
        opts.append(cap(wide, degenerate, far, limit))
    if "poly" in kinds:
        opts.append(poly(False, far, limit))
    return st.one_of(opts)


# ---- inertial parameters --------------------------------------------------

def point_masses(min_size=1, max_size=6, m=None, far=True):
    m = m if m is not None else masses
    p = st.tuples(m, vec(3, st.one_of(num, big) if far else num))
    return st.lists(p, min_size=min_size, max_size=max_size).map(
        lambda ps: {"m": [a for a, _ in ps], "p": [b for _, b in ps]})


# units of length and mass: results must not depend on absolute magnitudes
units = st.sampled_from([[1.0, 1.0], [1.0, 1.0], [1.0, 1.0], [1e-3, 1e-6], [1e-6, 1e-9], [1.0, 1e-7], [1.0, 1e9], [1e3, 1.0], [1e-4, 1e9]])


def in_units(pm, u):
    """Point masses given in other units."""
    return {"m": [float(m) * u[1] for m in pm["m"]], "p": [[float(x) * u[0] for x in p] for p in pm["p"]]}


def shapes(elem, hi):
    """1 to hi shapes; some of them may be repetitions of an earlier one (marked "twin": a separate object)."""
    def rep(x):
        ss, js = list(x[0]), x[1]
        for j, twin in js:
            if len(ss) < hi:
                ss.append(dict(ss[j % len(ss)], **({"twin": True} if twin else {})))
        return ss
    again = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 3), st.booleans()), min_size=1, max_size=2))
    return st.tuples(st.lists(elem, min_size=1, max_size=hi), again).map(rep)


def fd(**kw):
    return st.fixed_dictionaries(kw)
