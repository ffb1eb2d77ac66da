"""C12: mesh generators build exactly the requested grid."""
import itertools
import math
import random

import numpy as np

from props import meshlib as M
from pyvc.domain import contract
from pyvc.poly import Ring

MK = "toughio.meshmaker."
GRID = [MK + "_structured_grid." + f for f in ("structured_grid", "_grid_3d")]
PLANE = [MK + "_structured_grid." + f for f in ("structured_grid", "_grid_2d")]
CYL = [MK + "_cylindric_grid.cylindric_grid"] + [MK + "_cylindric_grid.CylindricMesh." + f for f in (
    "__init__", "_get_areas_heights", "face_areas", "volumes")] + GRID
VOX = [MK + "_voxelize.voxelize"] + GRID

R5 = (1, 2, 3, 4, 5)
SHAPES3 = [(a, b, c) for a in R5 for b in R5 for c in R5 if a * b * c <= 36]
SHAPES2 = [(a, b) for a in R5 for b in R5]


class Exact:
    """Comparison of coordinates: exact polynomials."""

    def __init__(self, D):
        self.D, self.R = D, Ring(D)

    def spacing(self, name, n, kind=list):
        return kind([self.R.positive("%s%d" % (name, i)) for i in range(n)])

    def number(self, name):
        return self.R.real(name)

    def eq(self, name, a, b):
        return self.R.eq(name, a, b)

    def gt(self, name, a, b):
        return self.R.gt(name, a, b)

    def same(self, a, b):
        return self.R.is_zero((self.R.lift(a) - self.R.lift(b)).n)


class Approx:
    """Comparison of coordinates: floating point."""

    def __init__(self, D):
        self.D, self.r = D, random.Random(D.int("geometry", 0, 2 ** 31))
        self.size = 1.0

    def spacing(self, name, n, kind=None):
        r = self.r
        how = r.random()
        if how < .2:
            v = [r.randint(1, 5) for _ in range(n)]
        elif how < .4:
            v = [r.choice([.1, .25, 1.0, 3.0])] * n
        else:
            v = [r.uniform(.05, 5) * r.choice([1, 1, 1, 100]) for _ in range(n)]
        self.size = max([self.size, float(sum(v))])
        return r.choice([list, tuple, np.array])(v)

    def number(self, name):
        v = self.r.choice([0, 0.0, 10, self.r.uniform(-200, 200), -3.5])
        self.size = max(self.size, abs(v))
        return v

    def eq(self, name, a, b):
        return self.D.prove(name, self.same(a, b), "got %r, expected %r" % (a, b))

    def gt(self, name, a, b):
        return self.D.prove(name, a > b)

    def same(self, a, b):
        return abs(float(a) - float(b)) <= 1e-9 * max(abs(float(a)), abs(float(b)), self.size)


def numbers(D):
    return Exact(D) if D.symbolic else Approx(D)


def cumulative(o, d):
    out = [o]
    for x in d:
        out.append(out[-1] + x)
    return out


def shape(D, shapes, most=6):
    if D.symbolic:
        return D.choice("shape", shapes)
    return [D.int("n%d" % i, 1, most) for i in range(len(shapes[0]))]


def total(d):
    s = d[0]
    for x in d[1:]:
        s = s + x
    return s


def corner(V, x, grid):
    """Index of a coordinate among the cumulative spacings, or None."""
    for i, g in enumerate(grid):
        if V.same(x, g):
            return i
    return None


def check_nodes(D, mesh, V, axes, expected):
    """Every cell is the expected box in the standard ordering, on shared nodes."""
    kind, corners = ("hexahedron", 8) if len(axes) == 3 else ("quad", 4)
    n = [len(a) for a in axes]
    pts = mesh.points
    D.prove("points have three coordinates", np.shape(pts)[1:] == (3,))
    D.prove("neighbours share their nodes: one point per node of the grid", len(pts) == int(np.prod(n)), "%d points" % len(pts))
    where = []
    for p in pts:
        where.append(tuple(corner(V, p[k], a) for k, a in enumerate(axes)))
        if len(axes) == 2:
            V.eq("plane grid", p[2], 0)
    D.prove("points are the nodes of the grid", all(None not in w for w in where))
    D.prove("every node once", len(set(where)) == len(where))
    cells = [c for b in mesh.cells for c in b.data]
    D.prove("cell type", all(b.type == kind for b in mesh.cells))
    D.prove("number of cells", len(cells) == mesh.n_cells == len(expected), "%d cells" % len(cells))
    ref = M.REF["hexahedron"] if kind == "hexahedron" else [(0, 0), (1, 0), (1, 1), (0, 1)]
    for c, e in zip(cells, expected):
        got = [tuple(w - b for w, b in zip(where[int(i)], e)) for i in c]
        D.prove("cell is the box of its indices", len(got) == corners and sorted(got) == sorted(ref), "%r at %r" % (got, e))
        if kind == "hexahedron":
            faces = {M.canon(tuple(got[i] for i in f)) for f in M.FACES[kind]}
            want = {M.canon(tuple(ref[i] for i in f)) for f in M.FACES[kind]}
            D.prove("standard node ordering", faces == want, "%r" % (got,))
        else:
            D.prove("standard node ordering", M.canon(tuple(got)) == M.canon(tuple(ref)), "%r" % (got,))


def check_material(D, mesh, name):
    D.prove("cells carry the default material", [str(x) for x in mesh.materials] == [name] * mesh.n_cells)
    D.prove("the material is the only one", list(mesh.field_data) == [name], "%r" % (mesh.field_data,))
    if mesh.cells[0].type == "hexahedron":
        D.prove("the material is one of volumes", int(mesh.field_data[name][1]) == 3, "%r" % (mesh.field_data,))


def options(D):
    """The order of cells and the material, given or left out."""
    layer = D.choice("layer", [False, True, None])
    kw = {} if layer is None else {"layer": layer}
    name = D.choice("material", [None, "ROCK1"]) if not D.symbolic else "ROCK1" if layer else None
    if name is not None:
        kw["material"] = name
    return bool(layer), name or "dfalt", kw


def order3(n, layer):
    nx, ny, nz = n
    if layer:
        return [(i, j, k) for k in reversed(range(nz)) for j in range(ny) for i in range(nx)]
    return [(i, j, k) for i in range(nx) for j in range(ny) for k in reversed(range(nz))]


def order2(n, layer):
    nx, ny = n
    if layer:
        return [(i, j) for j in range(ny) for i in range(nx)]
    return [(i, j) for i in range(nx) for j in range(ny)]


@contract("C12", GRID, budget=80, samples=150, fallback=600, objarrays=True,
          bounded="grids of up to 36 cells and 5 cells along an axis; spacings and origin unbounded")
def grid3(D):
    V = numbers(D)
    n = shape(D, SHAPES3)
    d = [V.spacing("dxyz"[1 + k], m) for k, m in enumerate(n)]
    layer, name, kw = options(D)
    o = [0.0, 0.0, -total(list(d[2]))]
    if D.choice("origin", [False, True]):
        o = [V.number("o" + c) for c in "xyz"]
        kw["origin"] = o if D.symbolic else D.choice("kind", [list, tuple, np.array])(o)
    before = [np.array(x) for x in d]
    mesh = D.T("meshmaker").structured_grid(*d, **kw)
    axes = [cumulative(o[k], d[k]) for k in range(3)]
    check_nodes(D, mesh, V, axes, order3(n, layer))
    check_material(D, mesh, name)
    D.prove("spacings are not modified", all((a == np.array(b)).all() for a, b in zip(before, d)))


@contract("C12", PLANE, budget=60, samples=150, fallback=600, objarrays=True,
          bounded="grids of up to 5 cells along an axis; spacings and origin unbounded")
def grid2(D):
    V = numbers(D)
    n = shape(D, SHAPES2)
    d = [V.spacing("dxy"[1 + k], m) for k, m in enumerate(n)]
    layer, name, kw = options(D)
    o = [0.0, 0.0]
    if D.choice("origin", [False, True]):
        o = [V.number("o" + c) for c in "xy"]
        kw["origin"] = o
    mesh = D.T("meshmaker").structured_grid(*d, **kw)
    axes = [cumulative(o[k], d[k]) for k in range(2)]
    check_nodes(D, mesh, V, axes, order2(n, layer))
    check_material(D, mesh, name)


SHAPES_RZ = [(a, b) for a in R5 for b in R5]


@contract("C12", CYL, budget=80, samples=150, fallback=600, objarrays=True,
          bounded="grids of up to 5 x 5 annular cells; spacings and origin unbounded")
def cylinders(D):
    V = numbers(D)
    n = shape(D, SHAPES_RZ)
    dr, dz = V.spacing("r", n[0]), V.spacing("z", n[1])
    layer, name, kw = options(D)
    oz = -total(list(dz))
    if D.choice("origin", [False, True]) and not D.symbolic:
        oz = V.number("oz")
        kw["origin_z"] = oz
    mesh = D.T("meshmaker").cylindric_grid(dr, dz, **kw)
    r, z = cumulative(0.0, dr), cumulative(oz, dz)
    cells = order3([n[0], 1, n[1]], layer)
    check_nodes(D, mesh, V, [r, [-0.5, 0.5], z], cells)
    check_material(D, mesh, name)
    v, a = mesh.volumes, mesh.face_areas
    D.prove("one entry per cell", len(v) == len(a) == len(cells))
    nodes = [c for b in mesh.cells for c in b.data]
    for c, (i, _, k) in enumerate(cells):
        h = dz[k]
        ring = (r[i + 1] * r[i + 1] - r[i] * r[i]) * np.pi
        V.eq("volume of the annular cell", v[c], ring * h)
        D.prove("six faces", len(a[c]) == 6)
        corners = [(corner(V, mesh.points[j][0], r), corner(V, mesh.points[j][2], z), 0 if mesh.points[j][1] < 0 else 1) for j in nodes[c]]
        for f, area in zip(M.FACES["hexahedron"], a[c]):
            p = [corners[j] for j in f]
            if len({x[0] for x in p}) == 1:
                V.eq("area of a cylindric face", area, 2 * np.pi * r[p[0][0]] * h)
            elif len({x[1] for x in p}) == 1:
                V.eq("area of a horizontal face", area, ring)
            else:
                V.eq("area of a section", area, dr[i] * h)


@contract("C12", VOX, budget=80, samples=150, fallback=600, objarrays=True,
          bounded="grids of up to 36 cells and 5 cells along an axis; spacings and origin unbounded")
def voxels(D):
    """The centres of a grid give the grid back; an axis with one cell has unit length."""
    V = numbers(D)
    n = shape(D, SHAPES3, 4)
    d = [V.spacing("dxyz"[1 + k], m) if m > 1 else [1.0] for k, m in enumerate(n)]
    o = [V.number("o" + c) for c in "xyz"]
    axes = [cumulative(o[k], d[k]) for k in range(3)]
    pts = [[(axes[k][e[k]] + axes[k][e[k] + 1]) / 2 for k in range(3)] for e in order3(n, False)]
    r = random.Random(str(n)) if D.symbolic else V.r
    r.shuffle(pts)
    layer, name, kw = options(D)
    if D.symbolic:
        a = np.empty((len(pts), 3), dtype=object)
        for i, p in enumerate(pts):
            a[i] = p
        pts = a
    mesh = D.T("meshmaker").voxelize(pts, o, **kw)
    check_nodes(D, mesh, V, axes, order3(n, layer))
    check_material(D, mesh, name)


@contract("C12", VOX, symbolic=False, fallback=100, bounded="sampled grids")
def voxels_of_a_grid(D):
    V = numbers(D)
    n = shape(D, SHAPES3, 4)
    d = [V.spacing("dxyz"[1 + k], m) if m > 1 else [1.0] for k, m in enumerate(n)]
    o = [V.number("o" + c) for c in "xyz"]
    layer = D.choice("layer", [False, True])
    mk = D.T("meshmaker")
    mesh = mk.structured_grid(*d, origin=o, layer=layer)
    again = mk.voxelize(mesh.centers, o, layer=layer)
    check_nodes(D, again, V, [cumulative(o[k], d[k]) for k in range(3)], order3(n, layer))


BAD = ["dx", "dy", "dz", "material", "origin size", "origin type", "origin size 2D"]


@contract("C12", GRID + PLANE + CYL + VOX, symbolic=False, fallback=600, bounded="sampled invalid arguments")
def invalid(D):
    mk = D.T("meshmaker")
    g, c, v = mk.structured_grid, mk.cylindric_grid, mk.voxelize
    ok = [1.0, 2.0]
    bad = D.choice("bad", [1.0, 3, "ab", None, {1.0: 2.0}, {1.0}])
    neg = D.choice("not positive", [0.0, -1.0, 0])
    err = (TypeError, ValueError)
    case = D.int("case", 0, 15)
    if case == 0:
        D.raises("dx is not a sequence", err, lambda: g(bad, ok, ok))
    elif case == 1:
        D.raises("dy is not a sequence", err, lambda: g(ok, bad, ok))
    elif case == 2 and bad is not None:
        D.raises("dz is not a sequence", err, lambda: g(ok, ok, bad))
    elif case == 3 and not isinstance(bad, str):
        D.raises("material is not a name", err, lambda: g(ok, ok, ok, material=bad))
    elif case == 4:
        D.raises("origin of another size", err, lambda: g(ok, ok, ok, origin=[0.0] * D.choice("size", [0, 1, 2, 4])))
    elif case == 5:
        D.raises("origin of another size", err, lambda: g(ok, ok, origin=[0.0] * D.choice("size", [0, 1, 3])))
    elif case == 6 and bad is not None:
        D.raises("origin is not a sequence", err, lambda: g(ok, ok, ok, origin=bad))
    elif case == 7:
        D.raises("dr is not a sequence", err, lambda: c(bad, ok))
    elif case == 8:
        D.raises("dz is not a sequence", err, lambda: c(ok, bad))
    elif case == 9:
        D.raises("dr is not positive", err, lambda: c([1.0, neg, 2.0], ok))
    elif case == 10:
        D.raises("dz is not positive", err, lambda: c(ok, [1.0, 2.0, neg]))
    elif case == 11 and not isinstance(bad, str):
        D.raises("material is not a name", err, lambda: c(ok, ok, material=bad))
    elif case == 12 and isinstance(bad, (str, dict, set)):
        D.raises("origin is not a number", err, lambda: c(ok, ok, origin_z=bad))
    elif case == 13:
        D.raises("points are not a sequence", err, lambda: v(bad, [0.0] * 3))
    elif case == 14:
        p = [[x, y, .5] for x in (.5, 1.5) for y in (.5, 1.5)]
        if D.bool("one point for another"):
            p[D.int("which", 0, 3)] = list(p[0])
            p = p if len(set(map(tuple, p))) < 4 else 2 * p
        elif D.bool("a row for a column"):
            p = [[x, x, .5] for x in (.5, 1.5)] * 2
        else:
            p[D.int("which", 0, 3)][D.int("axis", 0, 1)] += 0.25
        D.raises("points are not a grid", err, lambda: v(p, [0.0] * 3))
    elif case == 15:
        p = [[x, y, z] for x in (.5, 1.5) for y in (.5, 1.5) for z in (.5, 1.5)]
        o = [0.0] * 3
        o[D.int("axis", 0, 2)] = D.choice("too far", [.5, .75, 3.0])
        D.raises("origin beyond the first point", err, lambda: v(p, o))
