"""C15: spatial queries and transfer of data between cells and points."""
import random

import numpy as np

from props import gridlib as G
from props import meshlib as M
from props.C11 import alike, content
from pyvc.domain import contract
from pyvc.poly import P, Ring

NEAR = ["toughio._mesh._mesh.Mesh.near", "toughio._mesh._mesh.Mesh.centers"]
BOX = ["toughio._mesh._filter.box._box.filter_", "toughio._mesh._filter._helpers.MeshFilter.__call__",
       "toughio._mesh._filter._helpers.MeshFilter.box", "toughio._mesh._mesh.Mesh.filter", "toughio._mesh._mesh.Mesh.centers"]
MEAN = ["toughio._mesh._common.interpolate_data", "toughio._mesh._mesh.Mesh.cell_data_to_point_data",
        "toughio._mesh._mesh.Mesh.point_data_to_cell_data", "toughio._mesh._properties._volumes"]


def reals(D, name, shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = D.real("%s%s" % (name, list(i)))
    return a


def triangles(D, n, dim=3):
    """n triangles on nodes of their own; (mesh, centres)."""
    pts = reals(D, "p", (3 * n, dim))
    mesh = D.T("_mesh").Mesh(pts, [("triangle", np.arange(3 * n).reshape(n, 3))])
    c = [[(pts[3 * i, k] + pts[3 * i + 1, k] + pts[3 * i + 2, k]) / 3 for k in range(dim)] for i in range(n)]
    return mesh, c


def sampled(D, dim=None, small=None):
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    how = r.random()
    if dim == 2 or dim is None and how < .2:
        pts = np.array([[r.choice([0.0, 1.0, r.uniform(-2, 2)]) for _ in range(2)] for _ in range(8)])
        blocks = [(k, [r.sample(range(8), M.NODES.get(k, {"triangle": 3, "quad": 4}.get(k))) for _ in range(r.randint(1, 4))])
                  for k in (r.choice(["triangle", "quad"]) for _ in range(r.randint(1, 3)))]
    else:
        pts, cells, _ = G.hybrid_cells(r, kinds=r.choice(["h", "hw", "hp", "hwpt"]))
        pts, blocks = G.scramble(r, pts, cells, affine=how < .6)
    if small:
        pts = np.array(pts) * small
    mesh = M.lived(D.T("_mesh").Mesh(np.array(pts), [(k, np.array(b)) for k, b in blocks]))
    c = [[sum(float(pts[i][k]) for i in cell) / len(cell) for k in range(len(pts[0]))] for _, b in blocks for cell in b]
    return r, mesh, c


# ------------------------------------------------------------------ nearest cell

@contract("C15", NEAR, budget=90, samples=150, fallback=600, objarrays=True,
          bounded="up to three triangles and one query point, in two or three dimensions; coordinates unbounded")
def nearest(D):
    if D.symbolic:
        n, dim = D.choice("size", [(1, 3), (2, 3), (2, 2), (3, 2)])
        mesh, cs = triangles(D, n, dim)
        q = [D.real("q%d" % k) for k in range(dim)]
        many = D.choice("many", [False, True])
        i = mesh.near([q] if many else q)
        if many:
            D.prove("one index per point", np.shape(i) == (1,))
            i = i[0]
        i = int(i)
        D.prove("the index is that of a cell", 0 <= i < n)
        d = [sum((c[k] - q[k]) * (c[k] - q[k]) for k in range(dim)) for c in cs]
        for j in range(n):
            D.prove("no other cell is nearer" if j > i else "the first one on ties", d[i] <= d[j] if j > i else d[i] < d[j] if j < i else True)
        return
    scale = D.choice("scale", [1.0, 1.0, 1e-7, 1e6])
    r, mesh, cs = sampled(D, small=scale)
    dim = len(cs[0])
    before = content(mesh) if dim == 3 else None
    qs = []
    for _ in range(r.randint(1, 6)):
        how = r.random()
        if how < .3:
            qs.append(list(r.choice(cs)))
        elif how < .6:
            qs.append(list(map(float, r.choice(mesh.points.tolist()))))
        else:
            qs.append([scale * r.uniform(-4, 4) * r.choice([1, 1, 100]) for _ in range(dim)])
    form = r.choice(["list", "array", "tuple", "one", "onearray"])
    if form.startswith("one"):
        qs = qs[:1]
        out = mesh.near(qs[0] if form == "one" else np.array(qs[0]))
        D.prove("one point: one index", np.ndim(out) == 0)
        out = [out]
    else:
        out = mesh.near(qs if form == "list" else tuple(map(tuple, qs)) if form == "tuple" else np.array(qs))
        D.prove("one index per point", np.shape(out) == (len(qs),))
    for q, i in zip(qs, out):
        D.prove("the index is that of a cell", i == int(i) and 0 <= i < len(cs))
        d = [sum((a - b) ** 2 for a, b in zip(c, q)) for c in cs]
        # rounding: distances closer than this are ties
        tol = 1e-13 * max(abs(x) for x in list(q) + mesh.points.ravel().tolist()) ** 2
        D.prove("no other cell is nearer", d[int(i)] <= min(d) + tol, "%r: cell %d at %r, %r" % (q, i, d[int(i)], min(d)))
    if before:
        D.prove("the mesh is untouched", alike(before, content(mesh)))
    D.raises("a number is no point", TypeError, lambda: mesh.near(1.0))
    D.raises("points of another dimension", ValueError, lambda: mesh.near([0.0] * (dim + 1)))


@contract("C15", NEAR, symbolic=False, fallback=60, bounded="sampled grids with exact ties")
def ties(D):
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    n = [r.randint(1, 4) for _ in range(3)]
    pts, cells = [], []
    for _ in range(r.randint(2, 12)):
        c = [float(r.randint(0, 3)) for _ in range(3)]
        k = len(pts)
        pts += [[c[0] + a, c[1] + b, c[2]] for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        cells.append(([k, k + 1, k + 2, k + 3], c))
    mesh = D.T("_mesh").Mesh(np.array(pts), [("quad", np.array([c for c, _ in cells]))])
    qs = [[r.choice([0.0, .5, 1.5, 2.0]) for _ in range(3)] for _ in range(5)]
    for q, i in zip(qs, mesh.near(qs)):
        d = [sum((a - b) ** 2 for a, b in zip(c, q)) for _, c in cells]
        D.prove("the first one on ties", int(i) == d.index(min(d)), "%r: %r, %r" % (q, i, d))


# ------------------------------------------------------------------ box

def inside(D, c, bounds):
    ok = []
    for x, (lo, length) in zip(c, bounds):
        if lo is not None:
            ok.append(lo <= x)
            if length is not None:
                ok.append(x <= lo + length)
    return ok


GIVEN = [("x",), ("y",), ("z",), ("x", "z"), ("y", "x"), ()]


@contract("C15", BOX, budget=100, samples=150, fallback=600, objarrays=True, max_paths=8000,
          bounded="two triangles, bounds on up to two axes at a time; coordinates and bounds unbounded")
def box(D):
    if D.symbolic:
        mesh, cs = triangles(D, 2)
        axes = D.choice("bounded axes", GIVEN)
        kw, bounds = {}, []
        for a in "xyz":
            lo = D.real(a + "0") if a in axes else None
            ln = D.real("d" + a) if a in axes and D.choice("length " + a, [True, False]) else None
            if lo is not None:
                kw[a + "0"] = lo
            if ln is not None:
                kw["d" + a] = ln
            bounds.append((lo, ln))
    else:
        r, mesh, cs = sampled(D, 3)
        got = mesh.centers  # the mean of the nodes as rounded by the code
        D.prove("centres", np.allclose(got, cs, rtol=1e-12, atol=1e-12))
        cs = got.tolist()
        kw, bounds = {}, []
        for k, a in enumerate("xyz"):
            xs = sorted(c[k] for c in cs)
            lo = ln = None
            if r.random() < .6:
                lo = r.choice([r.choice(xs), r.uniform(xs[0] - 1, xs[-1] + 1), 0.0, 0])
                kw[a + "0"] = lo
                if r.random() < .7:
                    ln = r.choice([0.0, r.uniform(0, 3), r.choice(xs) - lo, -1.0])
                    kw["d" + a] = ln
            bounds.append((lo, ln))
            if lo is not None and any(abs(x - lo) < 1e-9 and x != lo or ln is not None and abs(x - lo - ln) < 1e-9 and x != lo + ln for x in xs):
                return
    how = D.choice("call", ["box", "call"])
    got = mesh.filter.box(**kw) if how == "box" else mesh.filter("box", **kw)
    got = [int(i) for i in got]
    D.prove("in increasing order", got == sorted(set(got)) and all(0 <= i < len(cs) for i in got), "%r" % (got,))
    for i, c in enumerate(cs):
        ok = inside(D, c, bounds)
        if i in got:
            for k in ok:
                D.prove("a selected centre is in the box", k, "cell %d" % i)
        else:
            D.prove("a centre in the box is selected", D.not_(D.and_(*ok)) if ok else False, "cell %d" % i)


# ------------------------------------------------------------------ means

def boxes(D):
    """A hybrid grid with symbolic spacings: (mesh, cells, volumes)."""
    R = Ring(D)
    n, kinds, seed = D.choice("grid", [((2, 1, 1), "h", 0), ((2, 2, 1), "h", 1), ((2, 1, 1), "hw", 2), ((1, 1, 1), "hw", 5),
                                       ((1, 1, 1), "p", 3), ((2, 1, 1), "hwpt", 4), ((1, 2, 1), "hpt", 6)])
    r = random.Random(seed)
    pts, cells, axes = G.hybrid_cells(r, n=n, kinds=kinds)
    steps = [[R.positive("d%s%d" % (a, i)) for i in range(m)] for a, m in zip("xyz", n)]
    lines = []
    for st in steps:
        v = [R.real("o%d" % len(lines))]
        for s in st:
            v.append(v[-1] + s)
        lines.append(v)

    def place(k, x):
        for i, y in enumerate(axes[k]):
            if x == y:
                return lines[k][i]
        for i in range(len(axes[k]) - 1):
            if axes[k][i] < x < axes[k][i + 1]:
                return (lines[k][i] + lines[k][i + 1]) / 2
    sym = np.empty((len(pts), 3), dtype=object)
    for i, p in enumerate(pts):
        for k in range(3):
            sym[i, k] = place(k, float(p[k]))
    vol = []
    for kind, c in cells:
        v6 = R.lift(M.volume6(kind, [list(sym[i]) for i in c]))
        vol.append(v6 / 6)
    pairs = list(zip(cells, vol))
    r.shuffle(pairs)
    blocks = []
    for (kind, c), _ in pairs:
        if blocks and blocks[-1][0] == kind:
            blocks[-1][1].append(c)
        else:
            blocks.append((kind, [c]))
    mesh = D.T("_mesh").Mesh(sym, [(k, np.array(b)) for k, b in blocks])
    return R, mesh, [c for (k, c), _ in pairs], [v for _, v in pairs], len(pts)


def wmean(xs, ws):
    s = xs[0] * ws[0]
    t = ws[0]
    for x, w in zip(xs[1:], ws[1:]):
        s = s + x * w
        t = t + w
    return s / t


@contract("C15", MEAN, budget=150, samples=120, fallback=600, objarrays=True,
          bounded="hybrid grids of up to four boxes of unbounded spacings; data unbounded")
def means(D):
    if D.symbolic:
        R, mesh, cells, vol, npts = boxes(D)
        number = R.real
    else:
        r, mesh, _ = sampled(D, 3)
        cells = [list(map(int, c)) for b in mesh.cells for c in b.data]
        npts = mesh.n_points
        vol = [M.volume6(b.type, [list(map(float, mesh.points[i])) for i in c]) / 6 for b in mesh.cells for c in b.data]
        const = r.random() < .2

        def number(name):
            return 2.5 if const else r.choice([r.uniform(-1e3, 1e3), 0.0, 1.0])
    way = D.choice("direction", ["to cells", "to points"])
    n, m = (npts, len(cells)) if way == "to cells" else (len(cells), npts)

    def table(name, shape):
        a = np.empty(shape, dtype=object if D.symbolic else float)
        for i in np.ndindex(*a.shape):
            a[i] = number(name + str(i))
        return a
    data = {"s": table("s", (n,)), "v": table("v", (n, 3)), "one": table("one", (n, 1))}
    if not D.symbolic:
        data["int"] = np.array([r.randint(-5, 5) for _ in range(n)])
    kept = table("kept", (m,))
    src, dst = (mesh.point_data, mesh.cell_data) if way == "to cells" else (mesh.cell_data, mesh.point_data)
    for k, v in data.items():
        (mesh.add_point_data if way == "to cells" else mesh.add_cell_data)(k, v.copy())
    (mesh.add_cell_data if way == "to cells" else mesh.add_point_data)("kept", kept)
    out = mesh.point_data_to_cell_data() if way == "to cells" else mesh.cell_data_to_point_data()
    D.prove("in place", out is None)
    src, dst = (mesh.point_data, mesh.cell_data) if way == "to cells" else (mesh.cell_data, mesh.point_data)
    D.prove("the data are moved", len(src) == 0, "%r" % (sorted(src),))
    D.prove("every array is transferred", sorted(dst) == sorted(list(data) + ["kept"]), "%r" % (sorted(dst),))
    D.prove("other arrays are kept", len(dst["kept"]) == m and all(a is b or a == b for a, b in zip(dst["kept"], kept)))
    if way == "to cells":
        use = [(c, [1] * len(c)) for c in cells]
    else:
        use = []
        for p in range(npts):
            mine = [i for i, c in enumerate(cells) if p in c]
            use.append((mine, [vol[i] for i in mine]))
    for k, v in data.items():
        got = dst[k]
        D.prove("one value per entity, same components", np.shape(got) == (m,) + v.shape[1:], "%s: %r" % (k, np.shape(got)))
        if np.shape(got) != (m,) + v.shape[1:]:
            continue
        for i, (idx, w) in enumerate(use):
            for j in np.ndindex(*v.shape[1:]):
                xs = [v[(e,) + j] for e in idx]
                want = wmean(xs, w)
                x = got[(i,) + j]
                if D.symbolic:
                    R.eq("mean of the points of the cell" if way == "to cells" else "volume-weighted mean of the cells of the point", x, want)
                else:
                    D.close("mean", x, want, rel=1e-9, abs_=1e-9 * max(abs(float(y)) for y in xs))
                    s = 1e-9 * max(abs(float(y)) for y in xs)
                    D.prove("within the range of the data", min(xs) - s <= x <= max(xs) + s)
