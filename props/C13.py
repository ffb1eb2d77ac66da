"""C13: extrusion, pruning and splitting preserve the mesh content."""
import random

import numpy as np

from props import gridlib as G
from props import meshlib as M
from props.C11 import alike, content
from pyvc.domain import contract
from pyvc.poly import P, Ring

EXTRUDE = ["toughio._mesh._mesh.Mesh.extrude_to_3d", "toughio._mesh._mesh.Mesh.split"]
PRUNE = ["toughio._mesh._mesh.Mesh.prune_duplicates", "toughio._mesh._mesh.Mesh.split"]
SPLIT = ["toughio._mesh._mesh.Mesh.split"]
SIZE = {"triangle": 3, "quad": 4}


def snapshot(mesh):
    out = content(mesh)
    return out + [(k, np.array(v)) for k, v in sorted(mesh.point_data.items())]


class Exact:
    def __init__(self, D):
        self.D, self.R, self.r = D, Ring(D), None

    def coordinate(self, name):
        return self.R.real(name)

    def datum(self, name):
        return self.R.real("data " + name)

    def same(self, a, b):
        return self.R.is_zero((self.R.lift(a) - self.R.lift(b)).n)

    def array(self, rows):
        a = np.empty(np.shape(rows), dtype=object)
        for i in np.ndindex(*a.shape):
            x = rows
            for k in i:
                x = x[k]
            a[i] = x
        return a


class Approx:
    def __init__(self, D):
        self.D, self.r = D, random.Random(D.int("geometry", 0, 2 ** 31))

    def coordinate(self, name):
        return self.r.uniform(-10, 10)

    def datum(self, name):
        return self.r.choice([0.0, -1.0, self.r.uniform(-1e6, 1e6)])

    def same(self, a, b):
        return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))

    def array(self, rows):
        return np.array(rows, dtype=float)


PLANES = [[("triangle", 2)], [("quad", 2)], [("triangle", 1), ("quad", 2)], [("quad", 1), ("triangle", 2), ("quad", 1)],
          [("triangle", 1), ("triangle", 2)]]


def plane(D, V, npts):
    """Blocks of triangles and quadrangles on npts points."""
    if D.symbolic:
        blocks = D.choice("blocks", PLANES)
        r = random.Random(str(blocks))
    else:
        r = V.r
        blocks = [(r.choice(["triangle", "quad"]), r.randint(1, 3)) for _ in range(r.randint(1, 4))]
    return [(k, [r.sample(range(npts), SIZE[k]) for _ in range(n)]) for k, n in blocks]


@contract("C13", EXTRUDE, budget=80, samples=200, fallback=800, objarrays=True,
          bounded="five points, up to four blocks of cells and three heights; coordinates, heights and data unbounded")
def extrusion(D):
    V = Exact(D) if D.symbolic else Approx(D)
    npts = 5 if D.symbolic else V.r.randint(4, 9)
    blocks = plane(D, V, npts)
    cells = [(k, c) for k, b in blocks for c in b]
    axis = D.choice("axis", [0, 1, 2])
    dims = D.choice("columns", [2, 3])
    nh = D.choice("heights", [0, 1, 3] if D.symbolic else [0, 1, 2, 4])
    xy = [[V.coordinate("p%d%s" % (i, c)) for c in "xy"] for i in range(npts)]
    whole = not D.symbolic and V.r.random() < .15
    if whole:
        xy = [[int(10 * x) for x in p] for p in xy]
    level = 0.0
    if dims == 3:
        level = 0.0 if D.symbolic or V.r.random() < .5 else 2.5
        if whole:
            level = int(level)
        pts = [p[:axis] + [level] + p[axis:] for p in xy]
    else:
        # the missing coordinate takes the place of the axis, which moves to the end
        pts = [p + [0.0] for p in xy]
        for p in pts:
            p[axis], p[2] = p[2], p[axis]
    if len({repr(p) for p in pts}) < npts:
        return
    hs = [V.coordinate("h%d" % i) if D.symbolic else V.r.uniform(.1, 3) * V.r.choice([1, 1, 1, -1]) for i in range(max(nh, 1))]
    if not D.symbolic and len(hs) > 1 and V.r.random() < .4:
        hs = [hs[0]] * len(hs)  # layers of one thickness
    if not D.symbolic and len({sum(hs[:i]) for i in range(len(hs) + 1)}) < len(hs) + 1:
        return
    unit = not D.symbolic and nh == 0 and V.r.random() < .5
    if unit:
        hs = [1.0]
    height = hs[0] if nh == 0 else hs if D.symbolic else V.r.choice([list, tuple, np.array])(hs)
    given = V.array(xy) if dims == 2 else V.array(pts)
    if whole:
        given = given.astype(int)
    pd = {"s": [V.datum("s%d" % i) for i in range(npts)], "v": [[V.datum("v%d%d" % (i, k)) for k in range(3)] for i in range(npts)]}
    cd = {"id": list(range(len(cells))), "a": [V.datum("a%d" % i) for i in range(len(cells))],
          "w": [[V.datum("w%d%d" % (i, k)) for k in range(2)] for i in range(len(cells))]}
    mesh = D.T("_mesh").Mesh(given, [(k, np.array(b)) for k, b in blocks])
    for k, v in pd.items():
        mesh.add_point_data(k, V.array(v))
    for k, v in cd.items():
        mesh.add_cell_data(k, np.array(v) if k == "id" else V.array(v))
    field = D.choice("materials", [{"rock1": 1}, {"clay": 7, "sand": 3}, {}] if not D.symbolic else [{"clay": 7, "sand": 3}])
    mesh.field_data = {k: np.array([v, 2]) for k, v in field.items()}
    inplace = D.choice("inplace", [True, False])
    kw = {} if inplace and (D.symbolic and nh or not D.symbolic and V.r.random() < .5) else {"inplace": inplace}
    if axis != 2 or D.symbolic and nh or not D.symbolic and V.r.random() < .5:
        kw["axis"] = axis
    before = snapshot(mesh)
    if D.symbolic and not isinstance(height, list):
        height = [height]  # a number is a float: the list of one height is the same
    out = mesh.extrude_to_3d(**kw) if unit else mesh.extrude_to_3d(height, **kw)
    if inplace:
        D.prove("in place: nothing is returned", out is None)
        out = mesh
    else:
        D.prove("the mesh is untouched", _alike(before, snapshot(mesh)))
        D.prove("another mesh is returned", out is not mesh)
    heights = [0.0]
    for h in hs:
        heights.append(heights[-1] + h)
    D.prove("materials keep their numbers and become materials of volumes",
            {k: [int(i) for i in v] for k, v in out.field_data.items()} == {k: [v, 3] for k, v in field.items()}, "%r" % (out.field_data,))
    # points
    where = []
    D.prove("every level has every point", np.shape(out.points) == (npts * len(heights), 3), "%r" % (np.shape(out.points),))
    for q in out.points:
        found = [(i, l) for i in range(npts) for l in range(len(heights))
                 if all(V.same(q[k], pts[i][k] + (heights[l] if k == axis else 0)) for k in range(3))]
        where.append(found[0] if len(found) == 1 else None)
    D.prove("points are the points of the plane at every level", None not in where and len(set(where)) == len(where))
    if None in where:
        return
    D.prove("point data", sorted(out.point_data) == sorted(pd))
    for k, v in pd.items():
        got = out.point_data[k]
        D.prove("point data of every point", len(got) == len(where))
        for x, (i, l) in zip(got, where):
            D.prove("point data are copied to every level", _same(V, x, v[i]), "%s at %r: %r" % (k, (i, l), x))
    # cells
    got = [(b.type, [where[int(i)] for i in c]) for b in out.cells for c in b.data]
    D.prove("one prism per cell and height", len(got) == len(cells) * len(hs) == out.n_cells, "%d" % len(got))
    D.prove("cell data", sorted(out.cell_data) == sorted(cd) and all(len(v) == len(got) for v in out.cell_data.values()))
    seen = []
    for m, (kind, nodes) in enumerate(got):
        j = int(out.cell_data["id"][m])
        base, c = cells[j]
        n = len(c)
        l = min(x[1] for x in nodes)
        D.prove("type of the prism", kind == {"triangle": "wedge", "quad": "hexahedron"}[base], kind)
        D.prove("the prism stands on its cell", [x[0] for x in nodes[:n]] == c or M.canon(tuple(x[0] for x in nodes[:n])) == M.canon(tuple(c)),
                "%r on %r" % (nodes, c))
        D.prove("the prism joins two successive levels", len(nodes) == 2 * n and all(x[1] == l for x in nodes[:n])
                and all(nodes[n + x] == (nodes[x][0], l + 1) for x in range(n)), "%r" % (nodes,))
        seen.append((j, l))
        for k, v in cd.items():
            D.prove("cell data are copied to every level", _same(V, out.cell_data[k][m], v[j]), k)
    D.prove("exactly one prism per cell and height", len(set(seen)) == len(seen))


def _same(V, a, b):
    if isinstance(b, list):
        return len(a) == len(b) and all(_same(V, x, y) for x, y in zip(a, b))
    if isinstance(a, P) or isinstance(b, P):
        return V.same(a, b)
    return a == b


def _alike(a, b):
    """Identical contents (symbolic values are compared as objects)."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        return isinstance(b, np.ndarray) and a.shape == b.shape and all(x is y or _eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_alike(x, y) for x, y in zip(a, b))
    return alike(a, b)


def _eq(x, y):
    if isinstance(x, P) or isinstance(y, P):
        return isinstance(x, P) and isinstance(y, P) and x.n == y.n and x.d == y.d
    return x == y


@contract("C13", EXTRUDE, symbolic=False, fallback=30, bounded="sampled meshes")
def extrusion_refused(D):
    """A mesh that is not flat along the axis, or an unknown axis."""
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    pts = np.array([[r.random() for _ in range(3)] for _ in range(4)])
    mesh = D.T("_mesh").Mesh(pts, [("quad", np.array([[0, 1, 2, 3]]))])
    before = snapshot(mesh)
    D.raises("not flat", ValueError, lambda: mesh.extrude_to_3d(1.0, axis=D.int("axis", 0, 2)))
    D.raises("unknown axis", ValueError, lambda: mesh.extrude_to_3d(1.0, axis=D.choice("unknown", [3, -1, "x", None])))
    D.prove("the mesh is untouched", alike(before, snapshot(mesh)))


# ------------------------------------------------------------------ pruning

def duplicated(r, pts, blocks, points=True, cells=True):
    """A mesh with the same content, points and cells repeated."""
    pts = [list(map(float, p)) for p in pts]
    blocks = [(k, [list(c) for c in b]) for k, b in blocks]
    if points:
        for _ in range(r.randint(1, 8)):
            i = r.randrange(len(pts))
            pts.append(list(pts[i]))
            j = len(pts) - 1
            for k, b in blocks:
                for c in b:
                    if i in c and r.random() < .5:
                        c[c.index(i)] = j
    if cells:
        flat = [(k, c) for k, b in blocks for c in b]
        for _ in range(r.randint(1, 6)):
            k, c = r.choice(flat)
            c = list(c)
            if r.random() < .5:
                if k in M.KINDS:
                    c = [c[i] for i in r.choice(M.rot(k))]
                else:
                    c = c[1:] + c[:1]
            same = [b for kk, b in blocks if kk == k]
            how = r.random()
            if how < .6:
                b = r.choice(same)
                b.insert(r.randint(0, len(b)), c)
            else:
                blocks.insert(r.randint(0, len(blocks)), (k, [c]))
    order = list(range(len(pts)))
    r.shuffle(order)
    new = [None] * len(pts)
    for i, j in enumerate(order):
        new[j] = pts[i]
    return new, [(k, [[order[i] for i in c] for c in b]) for k, b in blocks]


def start(r):
    how = r.random()
    if how < .5:
        pts, cells, _ = G.hybrid_cells(r, kinds=r.choice(["h", "hw", "hp", "hwpt"]))
        pts, blocks = G.scramble(r, pts, cells, affine=r.random() < .5)
        return pts.tolist(), blocks
    pts = [[float(r.randint(0, 3)), float(r.randint(-1, 1)), r.choice([0.0, .1, -2.5])] for _ in range(12)]
    pts = [list(p) for p in {tuple(p) for p in pts}]
    while len(pts) < 5:
        pts.append([10.0 + len(pts), 0.0, 0.0])
    blocks = []
    for _ in range(r.randint(1, 4)):
        k = r.choice(["triangle", "quad"])
        blocks.append((k, [r.sample(range(len(pts)), SIZE[k]) for _ in range(r.randint(1, 4))]))
    return pts, blocks


def pruned(D, r, pts, blocks, datum, cdatum):
    """The mesh pruned; every value is found where it belongs."""
    cells = [(k, c) for k, b in blocks for c in b]
    mesh = D.T("_mesh").Mesh(np.array(pts), [(k, np.array(b)) for k, b in blocks])
    mesh.add_point_data("id", np.arange(len(pts)))
    mesh.add_cell_data("id", np.arange(len(cells)))
    for k, v in datum.items():
        mesh.add_point_data(k, v)
    for k, v in cdatum.items():
        mesh.add_cell_data(k, v)
    inplace = D.choice("inplace", [True, False])
    before = snapshot(mesh)
    out = mesh.prune_duplicates(**({} if inplace and r.random() < .5 else {"inplace": inplace}))
    if inplace:
        D.prove("in place: nothing is returned", out is None)
        out = mesh
    else:
        D.prove("the mesh is untouched", _alike(before, snapshot(mesh)))
        D.prove("another mesh is returned", out is not mesh)
    at = [tuple(map(float, p)) for p in out.points]
    old = [tuple(map(float, p)) for p in pts]
    D.prove("every point once", len(set(at)) == len(at), "%d points, %d distinct" % (len(at), len(set(at))))
    D.prove("the distinct points are kept", set(at) == set(old))
    D.prove("point data", sorted(out.point_data) == sorted(["id"] + list(datum)) and all(len(v) == len(at) for v in out.point_data.values()))
    for i, p in enumerate(at):
        j = int(out.point_data["id"][i])
        D.prove("every point keeps its own data", old[j] == p, "point %r has the data of %r" % (p, old[j]))
        for k, v in datum.items():
            D.prove("every point keeps its own data", _row(out.point_data[k][i], v[j]), k)
    got = [(b.type, [at[int(i)] for i in c]) for b in out.cells for c in b.data]
    key = [(k, frozenset(c)) for k, c in got]
    want = [(k, frozenset(old[i] for i in c)) for k, c in cells]
    D.prove("every cell once", len(set(key)) == len(key), "%d cells, %d distinct" % (len(key), len(set(key))))
    D.prove("the distinct cells are kept", set(key) == set(want))
    D.prove("number of cells", out.n_cells == len(got))
    D.prove("cell data", sorted(out.cell_data) == sorted(["id"] + list(cdatum)) and all(len(v) == len(got) for v in out.cell_data.values()))
    for m, (k, c) in enumerate(got):
        j = int(out.cell_data["id"][m])
        D.prove("every cell keeps its own data and nodes", cells[j][0] == k and [old[i] for i in cells[j][1]] == c,
                "cell %d has the data of %d" % (m, j))
        for n, v in cdatum.items():
            D.prove("every cell keeps its own data", _row(out.cell_data[n][m], v[j]), n)


def _row(a, b):
    if np.ndim(a) or np.ndim(b):
        return np.shape(a) == np.shape(b) and all(_eq(x, y) for x, y in zip(np.ravel(a), np.ravel(b)))
    return _eq(a, b)


@contract("C13", PRUNE, budget=60, samples=300, fallback=1500, objarrays=True,
          bounded="twenty-four repeated meshes symbolically; data unbounded")
def pruning(D):
    if D.symbolic:
        r = random.Random(D.choice("mesh", list(range(24))))
    else:
        r = random.Random(D.int("geometry", 0, 2 ** 31))
    pts, blocks = start(r)
    pts, blocks = duplicated(r, pts, blocks, r.random() < .75, r.random() < .75)
    n, m = len(pts), sum(len(b) for k, b in blocks)
    if D.symbolic:
        R = Ring(D)

        def new(shape, tag):
            a = np.empty(shape, dtype=object)
            for i in np.ndindex(*a.shape):
                a[i] = R.real("%s%s" % (tag, i))
            return a
    else:
        def new(shape, tag):
            return np.array([r.uniform(-9, 9) for _ in range(int(np.prod(shape)))]).reshape(shape)
    datum = {"s": new((n,), "s"), "v": new((n, 3), "v")}
    cdatum = {"a": new((m,), "a"), "w": new((m, 2), "w")}
    pruned(D, r, pts, blocks, datum, cdatum)


@contract("C13", PRUNE, symbolic=False, fallback=60, bounded="sampled meshes")
def pruning_again(D):
    """A mesh without duplicates, and a pruned mesh, are left with the same content."""
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    pts, blocks = start(r)
    seen, unique = set(), []
    for k, b in blocks:
        b = [c for c in b if not ((k, frozenset(c)) in seen or seen.add((k, frozenset(c))))]
        if b:
            unique.append((k, b))
    pruned(D, r, pts, unique, {}, {})


# ------------------------------------------------------------------ splitting

@contract("C13", SPLIT, budget=20, samples=100, fallback=300, objarrays=True, bounded="up to four blocks; values unbounded")
def splitting(D):
    V = Exact(D) if D.symbolic else Approx(D)
    npts = 6
    blocks = plane(D, V, npts)
    n = sum(len(b) for k, b in blocks)
    mesh = D.T("_mesh").Mesh(np.zeros((npts, 3)), [(k, np.array(b)) for k, b in blocks])
    wide = D.choice("columns", [0, 1, 3])
    rows = [[V.datum("%d,%d" % (i, j)) for j in range(wide)] if wide else V.datum(str(i)) for i in range(n)]
    kind = D.choice("kind", ["array", "list", "tuple"])
    arr = V.array(rows) if kind == "array" else rows if kind == "list" else tuple(rows)
    out = mesh.split(arr)
    D.prove("one part per block", [len(x) for x in out] == [len(b) for k, b in blocks])
    flat = [x for part in out for x in part]
    D.prove("the parts make the array", len(flat) == n and all(_row(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
                                                               for x, y in zip(flat, rows)))
    for m in (0, n - 1, n + 1, 2 * n):
        D.raises("arrays of another size are rejected", ValueError, lambda: mesh.split([0.0] * m))
