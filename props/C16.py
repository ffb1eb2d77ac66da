"""C16: mesh file formats keep geometry, connectivity and data."""
import random

import numpy as np

from props import gridlib as G
from props import meshlib as M
from pyvc.domain import contract

HELPERS = ["toughio._mesh._helpers.write", "toughio._mesh._helpers.read", "toughio._mesh._helpers.get_material_key",
           "toughio._mesh._mesh.Mesh.write", "toughio._mesh._mesh.Mesh.split"]
AVS = HELPERS + ["toughio._mesh.avsucd._avsucd." + x for x in
                 ("write", "_write_nodes", "_write_cells", "_write_data", "read", "read_buffer", "_read_nodes", "_read_cells", "_read_data")]
FLAC = HELPERS + ["toughio._mesh.flac3d._flac3d." + x for x in
                  ("write", "_write_points", "_write_cells", "_write_groups", "_translate_zones", "_translate_faces", "_translate_groups",
                   "_write_table", "read", "read_buffer", "_read_point", "_read_cell", "_read_group", "_update_cells", "_update_field_data",
                   "_update_slots")]
TEC = HELPERS + ["toughio._mesh.tecplot._tecplot." + x for x in
                 ("write", "_write_table", "read", "read_buffer", "_read_variables", "_read_zone", "_parse_fezone", "_read_zone_data")]
MESHIO = ["toughio._mesh._mesh.Mesh.to_meshio", "toughio._mesh._mesh.from_meshio"]

SIZE = dict(M.NODES, triangle=3, quad=4)
BLOCKS = [["hexahedron", "hexahedron"], ["tetra"], ["wedge", "pyramid", "wedge"], ["pyramid", "tetra", "tetra", "hexahedron"]]
FLAT = [["quad", "hexahedron"], ["wedge", "triangle", "quad"]]


def arr(D, rows, shape):
    """An array of numbers; symbolic ones are kept in an array of objects."""
    if not D.symbolic:
        return np.array(rows, dtype=float).reshape(shape)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        x = rows
        for k in i:
            x = x[k]
        a[i] = x
    return a


def is_same(a, b):
    return a is b or np.shape(a) == np.shape(b) and a.dtype == b.dtype and all(x is y or x == y for x, y in zip(np.ravel(a), np.ravel(b)))


class Picture:
    """Everything a mesh holds, and whether it still holds the same."""

    def __init__(self, mesh):
        self.mesh = mesh
        self.was = self.of(mesh)

    @staticmethod
    def of(mesh):
        arrays = lambda d: {k: ([np.array(x) for x in v] if isinstance(v, list) else np.array(v)) for k, v in (d or {}).items()}  # noqa: E731
        out = {"points": {"": np.array(mesh.points)}, "cells": {i: np.array(c.data) for i, c in enumerate(mesh.cells)},
               "types": [c.type for c in mesh.cells], "order": [list(mesh.point_data), list(mesh.cell_data), list(mesh.field_data)]}
        for k in ("point_data", "cell_data", "field_data", "point_sets", "cell_sets"):
            out[k] = arrays(getattr(mesh, k, None))
        return out

    def intact(self):
        now = self.of(self.mesh)
        for k, v in self.was.items():
            if isinstance(v, list):
                if v != now[k]:
                    return False
                continue
            if list(v) != list(now[k]):
                return False
            for x, y in zip(v.values(), now[k].values()):
                if isinstance(x, list) != isinstance(y, list) or isinstance(x, list) and len(x) != len(y):
                    return False
                for p, q in (zip(x, y) if isinstance(x, list) else [(x, y)]):
                    if not is_same(p, q):
                        return False
        return True


def lived(D, mesh):
    return mesh if D.symbolic else M.lived(mesh)


def kinds_and_cells(D, faces):
    """Block types, one entry per cell (consecutive equal types share a block), and node lists."""
    if D.symbolic:
        kinds = D.choice("cells", BLOCKS + (FLAT if faces else []))
        npts = 8
        perm = D.choice("numbering", [[0, 1, 2, 3, 4, 5, 6, 7], [5, 2, 7, 0, 3, 6, 1, 4]])
        cells = [[perm[(i + 3 * j) % 8] for i in range(SIZE[k])] for j, k in enumerate(kinds)]
        split = D.choice("equal types in one block", [True, False]) if len(set(kinds)) < len(kinds) else True
        return kinds, cells, npts, split, None
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    pts, cc, _ = G.hybrid_cells(r, kinds=r.choice(["h", "hw", "hp", "hwpt", "hpt"]))
    pts, blocks = G.scramble(r, pts, cc)
    pts = np.array(pts) * r.choice([1.0, 1e-3, 1e6]) + r.choice([0.0, -1e3])
    flat = [(k, list(map(int, c))) for k, b in blocks for c in b]
    if r.random() < .4:
        # the cells of one type only, and perhaps a few of them
        k0 = r.choice(sorted({k for k, _ in flat}))
        flat = [x for x in flat if x[0] == k0][:r.randint(1, 30)]
    if faces and r.random() < .5:
        fs = [(k, [c[i] for i in f]) for k, c in flat for f in M.FACES[k]]
        new = [("triangle" if len(f) == 3 else "quad", f) for _, f in r.sample(fs, min(len(fs), r.randint(1, 4)))]
        flat = new + flat if r.random() < .5 else flat + new
    return [k for k, _ in flat], [c for _, c in flat], len(pts), r.random() < .7, pts


def blocks_of(kinds, cells, joined):
    out = []
    for k, c in zip(kinds, cells):
        if joined and out and out[-1][0] == k:
            out[-1][1].append(c)
        else:
            out.append((k, [c]))
    return out


def number(D, name):
    return D.real(name, -1e300, 1e300)


def value(D, r, name):
    if D.symbolic:
        x = D.real(name, -1e90, 1e90)
        return x
    return r.choice([0.0, 1.0, r.uniform(-1, 1), r.uniform(-1, 1) * 10.0 ** r.randint(-120, 120), float(r.randint(-9, 9)), -3.0])


def coordinates(D, npts, pts):
    if not D.symbolic:
        return pts
    return arr(D, [[D.real("p%d%s" % (i, c), -1e300, 1e300) for c in "xyz"] for i in range(npts)], (npts, 3))


def given(D, r, npts, n):
    """Point and cell arrays: {name: array}."""
    pd, cd = {}, {}
    which = D.choice("arrays", ["none", "points", "cells", "both", "many"])
    vec = lambda m, w: arr(D, [[value(D, r, "%s%d,%d" % (w, i, k)) for k in range(3)] for i in range(m)], (m, 3))  # noqa: E731
    sca = lambda m, w: arr(D, [value(D, r, "%s%d" % (w, i)) for i in range(m)], (m,))  # noqa: E731
    if which in ("points", "both"):
        pd["T"] = sca(npts, "T")
        pd["disp"] = vec(npts, "disp")
    if which in ("cells", "both"):
        cd["flux"] = vec(n, "flux")
        cd["P_gas"] = sca(n, "P")
    if which == "many":
        # so many columns that their numbers have two digits
        a, b = [(9, 1), (9, 2), (1, 12), (12, 10)][n % 4 if r is None else r.randint(0, 3)]
        plain = lambda m, k: arr(D, [float(k) - i / 4 for i in range(m)], (m,))  # noqa: E731
        pd["pair"] = arr(D, [[k / 8 - i for k in range(2)] for i in range(npts)], (npts, 2))
        if b > 1:
            cd["four"] = arr(D, [[k / 8 - i for k in range(4)] for i in range(n)], (n, 4))
        pd.update(("a%d" % k, plain(npts, k)) for k in range(a - 1))
        pd["T"] = sca(npts, "T")
        cd["P_gas"] = sca(n, "P")
        cd.update(("b%d" % k, plain(n, 40 + k)) for k in range(b - 1))
    return pd, cd


def rows(a):
    return a.tolist() if isinstance(a, np.ndarray) else list(a)


def equal_arrays(D, name, got, want, prec):
    """Array values equal to the printed precision, entry by entry."""
    D.prove(name + ".shape", np.shape(got) == np.shape(want), "%r instead of %r" % (np.shape(got), np.shape(want)))
    if np.shape(got) != np.shape(want):
        return
    for i in np.ndindex(*np.shape(want)):
        # numbers printed in full come back exactly
        D.prove(name, D.eqx(got[i], want[i], prec, rel=1e-15) if prec is None else D.eqx(got[i], want[i], prec), "%r instead of %r at %r" % (got[i], want[i], i))


def flat_cells(mesh):
    return [(c.type, [int(i) for i in row]) for c in mesh.cells for row in c.data]


def materials(D, r, n):
    names = D.choice("materials", [None, {"ROCK1": 1, "clay": 2}, {"a": 7, "b": 3}, {}])
    if names is None:
        return None, None
    ids = sorted(names.values()) or [4, 11]
    if D.symbolic:
        m = [ids[j % len(ids)] for j in range(n)]
    else:
        m = [r.choice(ids) for _ in range(n)]
    return np.array(m), {k: np.array([v, 3]) for k, v in names.items()}


def rng(D):
    return None if D.symbolic else random.Random(D.int("data", 0, 2 ** 31))


# ------------------------------------------------------------------ AVS-UCD

AVS_TYPE = {"tetra": "tet", "pyramid": "pyr", "wedge": "prism", "hexahedron": "hex", "triangle": "tri", "quad": "quad"}
# position in the file of the nodes of a cell: AVS-UCD lists the apex or the top face first
AVS_ORDER = {"tetra": [0, 1, 3, 2], "pyramid": [4, 0, 1, 2, 3], "wedge": [3, 4, 5, 0, 1, 2], "hexahedron": [4, 5, 6, 7, 0, 1, 2, 3],
             "triangle": [0, 1, 2], "quad": [0, 1, 2, 3]}


@contract("C16", AVS, budget=150, samples=80, fallback=500, objarrays=True,
          bounded="up to four cells in up to four blocks; coordinates and values unbounded")
def avsucd(D):
    kinds, cells, npts, joined, pts = kinds_and_cells(D, faces=True)
    r = rng(D)
    n = len(kinds)
    pd, cd = given(D, r, npts, n)
    mat, field = materials(D, r, n)
    key = D.choice("material key", ["material", "gmsh:physical"]) if mat is not None else None
    first = D.choice("material first", [True, False]) if mat is not None and cd else True
    arrays = dict(cd)
    if mat is not None:
        arrays = dict([(key, mat)] + list(cd.items())) if first else dict(list(cd.items()) + [(key, mat)])
    x = coordinates(D, npts, pts)
    mesh = lived(D, D.T("_mesh").Mesh(x, [(k, np.array(c)) for k, c in blocks_of(kinds, cells, joined)], point_data=pd, cell_data=arrays, field_data=field))
    before = Picture(mesh)
    path = D.file("mesh.avs")
    if D.choice("by", ["method", "function"]) == "method":
        mesh.write(path, file_format="avsucd")
    else:
        D.T("_mesh").write(path, mesh, file_format="avsucd")
    D.prove("writing does not modify the mesh", before.intact())
    with open(path) as f:
        lines = f.read().split("\n")
    top = [int(i) for i in lines[1].split()]
    width = lambda d: sum(1 if np.ndim(v) == 1 else np.shape(v)[1] for v in d.values())  # noqa: E731
    D.prove("header", top == [npts, n, width(pd), width(cd), 0], "%r" % (top,))
    for j, (k, c) in enumerate(zip(kinds, cells)):
        w = lines[2 + npts + j].split()
        D.prove("cell as AVS-UCD defines it", w == [str(j + 1), str(0 if mat is None else mat[j]), AVS_TYPE[k]] + [str(c[i] + 1) for i in AVS_ORDER[k]],
                "%r" % (w,))
    at = 2 + npts + n
    for what, d, m in (("point", pd, npts), ("cell", cd, n)):
        if d:
            sizes = [1 if np.ndim(v) == 1 else np.shape(v)[1] for v in d.values()]
            D.prove("sizes of the %s arrays" % what, [int(i) for i in lines[at].split()] == [len(d)] + sizes, "%r" % (lines[at],))
            D.prove("names of the %s arrays" % what, [y.split(",")[0].strip() for y in lines[at + 1:at + 1 + len(d)]] == list(d))
            D.prove("rows of the %s arrays" % what, [int(y.split()[0]) for y in lines[at + 1 + len(d):at + 1 + len(d) + m]] == list(range(1, m + 1)))
            at += 1 + len(d) + m
    back = D.T("_mesh").read(path, file_format="avsucd")
    equal_arrays(D, "points", back.points, x, None)
    D.prove("cells in the same order with the same nodes", flat_cells(back) == list(zip(kinds, cells)))
    D.prove("arrays", sorted(back.point_data) == sorted(pd) and sorted(back.cell_data) == sorted(list(cd) + ["material"]),
            "%r %r" % (sorted(back.point_data), sorted(back.cell_data)))
    got = back.cell_data["material"]
    D.prove("materials", [int(i) for i in got] == ([0] * n if mat is None else [int(i) for i in mat]))
    for k, v in pd.items():
        equal_arrays(D, "point data", back.point_data[k], v, 14)
    for k, v in cd.items():
        equal_arrays(D, "cell data", back.cell_data[k], v, 14)


# ------------------------------------------------------------------ FLAC3D

FLAC_TYPE = {"tetra": "T4", "pyramid": "P5", "wedge": "W6", "hexahedron": "B8", "triangle": "T3", "quad": "Q4"}
FLAC_ORDER = {"tetra": [0, 1, 2, 3], "pyramid": [0, 1, 3, 4, 2], "wedge": [0, 1, 3, 2, 4, 5], "hexahedron": [0, 1, 3, 4, 2, 7, 5, 6],
              "triangle": [0, 1, 2], "quad": [0, 1, 2, 3]}
MIRRORED = {"tetra": [0, 2, 1, 3], "pyramid": [0, 3, 2, 1, 4], "wedge": [0, 2, 1, 3, 5, 4], "hexahedron": [0, 3, 2, 1, 4, 7, 6, 5]}
NAMES = [{"ROCK1": 1, "clay": 2}, {"lower clay": 7, "b": 3}, {"grès": 2, "argile à blocs": 5}, {}, None]


def _flac3d(D, binary):
    kinds, cells, npts, joined, pts = kinds_and_cells(D, faces=True)
    r = rng(D)
    n = len(kinds)
    x = coordinates(D, npts, pts)
    # the first four points of a zone are right-handed in the file: cells of the other hand are listed from their mirrored base
    seen = list(cells)
    left = D.choice("left-handed", [False, True]) if D.symbolic else None
    for j, (k, c) in enumerate(zip(kinds, cells)):
        if k in M.NODES:
            v = M.det4(*[x[c[i]] for i in FLAC_ORDER[k][:4]])
            if D.symbolic:
                D.assume(v < 0 if left else v > 0)
            if left if D.symbolic else v < 0:
                seen[j] = [c[i] for i in MIRRORED[k]]
    names = D.choice("materials", NAMES)
    mat, field, shown = None, {}, {}
    if names is not None:
        ids = sorted(names.values()) or [4, 11]
        solid = [(ids[j % len(ids)] if D.symbolic else r.choice(ids)) for j in range(n)]
        # faces have groups of their own
        mat = np.array([20 + j % 2 if k not in M.NODES else m for j, (k, m) in enumerate(zip(kinds, solid))])
        field = {k: np.array([v, 3]) for k, v in names.items()}
        shown = {v: k for k, v in names.items()}
        if D.choice("named faces", [True, False]) and any(k not in M.NODES for k in kinds):
            field["top face"] = np.array([20, 2])
            shown[20] = "top face"
            if names:
                # groups of zones and of faces are numbered on their own
                field["other face"] = np.array([ids[0], 2])
                field["other zone"] = np.array([20, 3])
    mesh = D.T("_mesh").Mesh(x, [(k, np.array(c)) for k, c in blocks_of(kinds, cells, joined)],
                             cell_data={} if mat is None else {"material": mat}, field_data=field)
    before = Picture(mesh)
    path = D.file("mesh.f3grid")
    mesh.write(path, file_format="flac3d", binary=binary)
    D.prove("writing does not modify the mesh", before.intact())
    zones = [j for j in range(n) if kinds[j] in M.NODES]
    order = zones + [j for j in range(n) if kinds[j] not in M.NODES]
    if not binary:
        with open(path) as f:
            recs = [y.split() for y in f.read().split("\n") if y[:2] in ("Z ", "F ")]
        want = [["Z" if kinds[j] in M.NODES else "F", FLAC_TYPE[kinds[j]], str(i + 1)] + [str(seen[j][k] + 1) for k in FLAC_ORDER[kinds[j]]]
                for i, j in enumerate(order)]
        D.prove("cells as FLAC3D defines them", recs == want, "%r" % (recs,))
    back = D.T("_mesh").read(path, file_format="flac3d")
    equal_arrays(D, "points", back.points, x, None)
    D.prove("cells, zones first, with the same nodes", flat_cells(back) == [(kinds[j], seen[j]) for j in order], "%r" % (flat_cells(back),))
    if mat is None:
        D.prove("no materials", not back.cell_data and not back.field_data, "%r" % (back.field_data,))
        return
    D.prove("arrays", sorted(back.cell_data) in (["flac3d:group"], ["material"]), "%r" % (sorted(back.cell_data),))
    got = [int(i) for v in back.cell_data.values() for i in v]
    name = {int(v[0]): (k, int(v[1])) for k, v in back.field_data.items()}
    D.prove("every material has a name of its own", len(name) == len(back.field_data))
    for i, j in enumerate(order):
        m = int(mat[j])
        want = (shown.get(m, str(m)), 3 if kinds[j] in M.NODES else 2)
        D.prove("every cell keeps the name of its material", name.get(got[i]) == want, "cell %d: %r instead of %r" % (j, name.get(got[i]), want))


@contract("C16", FLAC, budget=150, samples=80, fallback=500, objarrays=True,
          bounded="up to four cells in up to four blocks; coordinates unbounded")
def flac3d_text(D):
    _flac3d(D, False)


@contract("C16", FLAC, budget=150, samples=80, fallback=500, objarrays=True,
          bounded="up to four cells in up to four blocks; coordinates unbounded")
def flac3d_binary(D):
    _flac3d(D, True)


# ------------------------------------------------------------------ Tecplot

def faces_of_brick(c):
    """Faces of a brick whose equal nodes are one."""
    out = []
    for f in M.FACES["hexahedron"]:
        g = []
        for i in f:
            if c[i] not in g:
                g.append(c[i])
        if len(g) > 2:
            out.append(M.unoriented(tuple(g)))
    return sorted(out)


@contract("C16", TEC, budget=150, samples=80, fallback=500, objarrays=True,
          bounded="up to four cells in up to four blocks; coordinates and values unbounded")
def tecplot(D):
    kinds, cells, npts, joined, pts = kinds_and_cells(D, faces=True)
    r = rng(D)
    n = len(kinds)
    pd, cd = given(D, r, npts, n)
    if cd and pd and len(cd) == len(pd) and D.choice("same name", [False, True]):
        cd["T"] = cd.pop("P_gas")
    mat, field = materials(D, r, n)
    if mat is not None:
        cd = dict([("material", mat)] + list(cd.items()))
    x = coordinates(D, npts, pts)
    mesh = lived(D, D.T("_mesh").Mesh(x, [(k, np.array(c)) for k, c in blocks_of(kinds, cells, joined)], point_data=pd, cell_data=cd, field_data=field))
    before = Picture(mesh)
    path = D.file("mesh.tec")
    mesh.write(path, file_format="tecplot")
    D.prove("writing does not modify the mesh", before.intact())
    back = D.T("_mesh").read(path, file_format="tecplot")
    equal_arrays(D, "points", back.points, x, None)
    kept = [j for j in range(n) if kinds[j] in M.NODES]  # surface cells cannot be mixed with volumes
    got = flat_cells(back)
    D.prove("number of cells", len(got) == len(kept))
    one = len({kinds[j] for j in range(n)}) == 1
    for (k, c), j in zip(got, kept):
        if kinds[j] == "tetra" and one:
            D.prove("cells", (k, c) == ("tetra", cells[j]))
        elif kinds[j] == "hexahedron":
            D.prove("cells", (k, c) == ("hexahedron", cells[j]))
        else:
            want = sorted(M.unoriented(tuple(cells[j][i] for i in f)) for f in M.FACES[kinds[j]])
            D.prove("cells are bricks with the same faces", k == "hexahedron" and faces_of_brick(c) == want, "%r for %r %r" % (c, kinds[j], cells[j]))

    def columns(d):
        out = {}
        for k, v in d.items():
            if np.ndim(v) == 1:
                out[k] = v
            else:
                for i in range(np.shape(v)[1]):
                    out["%s_%d" % (k, i)] = v[:, i]
        return out
    wp, wc = columns(pd), columns(cd)
    D.prove("arrays", sorted(back.point_data) == sorted(wp) and sorted(back.cell_data) == sorted(wc),
            "%r %r" % (sorted(back.point_data), sorted(back.cell_data)))
    for k, v in wp.items():
        equal_arrays(D, "point data", back.point_data[k], v, None)
    for k, v in wc.items():
        equal_arrays(D, "cell data", back.cell_data[k], np.array([v[j] for j in kept], dtype=object), None)


# ------------------------------------------------------------------ pickle, meshio

def full_mesh(D, r):
    kinds, cells, npts, joined, pts = kinds_and_cells(D, faces=True)
    n = len(kinds)
    pd, cd = given(D, r, npts, n)
    mat, field = materials(D, r, n)
    if mat is not None:
        cd["material"] = mat
    x = coordinates(D, npts, pts)
    blocks = [(k, np.array(c)) for k, c in blocks_of(kinds, cells, joined)]
    kw = {}
    if D.choice("sets", [False, True]):
        kw["point_sets"] = {"some": np.array([0, 2])}
        kw["cell_sets"] = {"first": [np.array([0]) if i == 0 else np.array([], dtype=int) for i in range(len(blocks))]}
    mesh = lived(D, D.T("_mesh").Mesh(x, blocks, point_data=pd, cell_data=cd, field_data=field, **kw))
    return mesh, blocks, x, pd, cd, field or {}, kw


@contract("C16", HELPERS[:2] + ["toughio._mesh.pickle._pickle.read", "toughio._mesh.pickle._pickle.write"], symbolic=False, fallback=150,
          bounded="sampled meshes")
def pickled(D):
    r = rng(D)
    mesh, *_ = full_mesh(D, r)
    if r.random() < .5:
        mesh.label_length = 7
    before = Picture(mesh)
    path = D.file("mesh.pickle")
    mesh.write(path)
    D.prove("writing does not modify the mesh", before.intact())
    back = D.T("_mesh").read(path)
    before.mesh = back
    D.prove("the same mesh is read", before.intact() and type(back) is type(mesh))
    D.prove("labels", [str(x) for x in back.labels] == [str(x) for x in mesh.labels])


def same_content(D, name, m, blocks, x, pd, cd, field, kw):
    D.prove(name + ": points", is_same(np.asarray(m.points), x))
    D.prove(name + ": cells", [(c.type, np.asarray(c.data).tolist()) for c in m.cells] == [(k, c.tolist()) for k, c in blocks])
    D.prove(name + ": names", sorted(m.point_data) == sorted(pd) and sorted(m.cell_data) == sorted(cd) and sorted(m.field_data) == sorted(field),
            "%r %r %r" % (sorted(m.point_data), sorted(m.cell_data), sorted(m.field_data)))
    D.prove(name + ": point data", all(is_same(np.asarray(m.point_data[k]), v) for k, v in pd.items()))
    for k, v in cd.items():
        g = m.cell_data[k]
        D.prove(name + ": cell data", is_same(np.concatenate(g) if isinstance(g, list) else g, v))
    for k, v in field.items():
        D.prove(name + ": material numbers", [int(i) for i in m.field_data[k]] == [int(i) for i in v])
    for s in ("point_sets", "cell_sets"):
        w = kw.get(s, {})
        g = getattr(m, s) or {}
        D.prove(name + ": sets", sorted(g) == sorted(w) and all(_sets(g[k]) == _sets(w[k]) for k in w))


def _sets(v):
    return [np.asarray(x).tolist() for x in v] if isinstance(v, list) else np.asarray(v).tolist()


@contract("C16", MESHIO, budget=60, samples=60, fallback=300, objarrays=True, bounded="up to four cells; coordinates and values unbounded")
def meshio_conversion(D):
    """To meshio, back, and neither side is modified."""
    r = rng(D)
    mesh, blocks, x, pd, cd, field, kw = full_mesh(D, r)
    before = Picture(mesh)
    m = mesh.to_meshio()
    D.prove("converting does not modify the mesh", before.intact())
    same_content(D, "to meshio", m, blocks, x, pd, cd, field, kw)
    D.prove("cell data by block", all([len(v) for v in vs] == [len(c) for _, c in blocks] for vs in m.cell_data.values()))
    m.field_data["added"] = np.array([77, 3])
    m.point_data["added"] = np.zeros(mesh.n_points)
    D.prove("what is added to the meshio mesh is not added to the mesh", before.intact())
    del m.field_data["added"], m.point_data["added"]
    there = Picture(m)
    name = D.choice("default material", [None, "rock"])
    back = D.T("_mesh").from_meshio(m) if name is None else D.T("_mesh").from_meshio(m, name)
    D.prove("converting does not modify the meshio mesh", there.intact())
    D.prove("converting back does not modify the first mesh", before.intact())
    field, cd = dict(field), dict(cd)
    if "material" not in cd:
        # a default material with a number of its own
        n = len(back.cell_data.get("material", []))
        name = name or "dfalt"
        D.prove("default material", name in back.field_data and n == mesh.n_cells)
        num = int(back.field_data[name][0])
        D.prove("every cell has the default material", [int(i) for i in back.cell_data["material"]] == [num] * mesh.n_cells)
        D.prove("no other name has its number", all(int(v[0]) != num for k, v in back.field_data.items() if k != name))
        cd["material"] = back.cell_data["material"]
        field[name] = np.array([num, 3])
    same_content(D, "from meshio", back, blocks, x, pd, cd, field, kw)


@contract("C16", MESHIO, budget=30, samples=60, fallback=200, bounded="two cells, a few named groups")
def meshio_materials(D):
    """Material arrays of other programs become the material; a default material never takes a number in use."""
    import meshio
    key = D.choice("array", [None, "material", "gmsh:physical", "medit:ref", "cell_tags"])
    field = D.choice("groups", [{}, {"a": [1, 3]}, {"edge": [4, 1], "face": [9, 2]}, {"a": [2, 3], "face": [7, 2]}, {"a": [3, 3], "b": [1, 3]}])
    tet = np.array([[0, 1, 2, 3]])
    pts = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
    fd = {k: np.array(v) for k, v in field.items()}
    cd = {} if key is None else {key: [np.array([5]), np.array([6])]}
    if D.choice("other array", [True, False]):
        cd["other"] = [np.array([0.5]), np.array([0.25])]
    m = meshio.Mesh(pts, [("tetra", tet), ("tetra", tet)], cell_data=cd, field_data=fd)
    there = Picture(m)
    out = D.T("_mesh").from_meshio(m)
    D.prove("converting does not modify the meshio mesh", there.intact())
    got = [int(i) for i in out.cell_data["material"]]
    if key in (None, "cell_tags"):
        num = int(out.field_data["dfalt"][0])
        D.prove("default material", got == [num, num] and int(out.field_data["dfalt"][1]) == 3)
        D.prove("no other name has its number", all(v[0] != num for v in field.values()))
    else:
        D.prove("material numbers", got == [5, 6])
    D.prove("names", all([int(i) for i in out.field_data[k]] == v for k, v in field.items()))
    D.prove("other arrays", "other" not in cd or out.cell_data["other"].tolist() == [0.5, 0.25])


@contract("C16", HELPERS, symbolic=False, fallback=60, bounded="sampled meshes written by meshio")
def other_formats(D):
    r = rng(D)
    mesh, blocks, x, pd, cd, field, kw = full_mesh(D, r)
    fmt = r.choice([".vtu", ".vtk"])
    if any(len(v) == 0 for b in kw.get("cell_sets", {}).values() for v in b):
        mesh.cell_sets, kw = {}, {}
        mesh.point_sets = {}
    before = Picture(mesh)
    path = D.file("mesh" + fmt)
    mesh.write(path)
    D.prove("writing does not modify the mesh", before.intact())
    back = D.T("_mesh").read(path)
    D.prove("points", np.array_equal(back.points, x))
    D.prove("cells", flat_cells(back) == flat_cells(mesh))
    # meshio's legacy VTK format adds a zero to vectors of two components
    same = lambda g, v: np.array_equal(g, v) or (  # noqa: E731
        fmt == ".vtk" and v.ndim == 2 and v.shape[1] == 2 and np.array_equal(g, np.column_stack([v, np.zeros(len(v))])))
    D.prove("point data", all(same(back.point_data[k], v) for k, v in pd.items()))
    D.prove("cell data", all(same(back.cell_data[k], v) for k, v in cd.items()))


# ------------------------------------------------------------------ pyvista

PYVISTA = ["toughio._mesh._mesh.Mesh.to_pyvista", "toughio._mesh._mesh.from_pyvista"]
VTK = {"line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}


def _quiet(f, *args, **kwargs):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*args, **kwargs)


def _vtk_cells(u):
    """The cells of an unstructured grid, from its connectivity alone."""
    out, i, c = [], 0, np.asarray(u.cells)
    for t in np.asarray(u.celltypes):
        n = int(c[i])
        out.append((int(t), [int(x) for x in c[i + 1 : i + 1 + n]]))
        i += n + 1
    assert i == len(c)
    return out


@contract("C16", PYVISTA, symbolic=False, fallback=120, bounded="sampled meshes")
def pyvista_conversion(D):
    """To pyvista, back, and neither side is modified."""
    r = rng(D)
    mesh, blocks, x, pd, cd, field, kw = full_mesh(D, r)
    if r.random() < .3:
        pd["a name"] = np.array([r.uniform(-1, 1) for _ in x])
        cd["another one"] = np.arange(mesh.n_cells)[::-1].copy()
        mesh.add_point_data("a name", pd["a name"])
        mesh.add_cell_data("another one", cd["another one"])
    if r.random() < .2:
        x = x.copy()
        x[:, 2] = 0.0
        mesh.points = x[:, :2].copy()
    before = Picture(mesh)
    u = _quiet(mesh.to_pyvista)
    D.prove("converting does not modify the mesh", before.intact())
    D.prove("to pyvista: points", np.array_equal(np.asarray(u.points), x))
    D.prove("to pyvista: cells", _vtk_cells(u) == [(VTK[k], [int(i) for i in c]) for k, b in blocks for c in b])
    D.prove("to pyvista: names", sorted(u.point_data.keys()) == sorted(pd) and sorted(u.cell_data.keys()) == sorted(cd))
    D.prove("to pyvista: point data", all(np.array_equal(np.asarray(u.point_data[k]), v) for k, v in pd.items()))
    D.prove("to pyvista: cell data", all(np.array_equal(np.asarray(u.cell_data[k]), v) for k, v in cd.items()))
    name = D.choice("default material", [None, "rock"])
    there = (_vtk_cells(u), np.array(u.points), {k: np.array(u.point_data[k]) for k in u.point_data.keys()}, {k: np.array(u.cell_data[k]) for k in u.cell_data.keys()})
    back = _quiet(D.T("_mesh").from_pyvista, u) if name is None else _quiet(D.T("_mesh").from_pyvista, u, name)
    D.prove("converting back does not modify the grid",
            _vtk_cells(u) == there[0] and np.array_equal(u.points, there[1]) and sorted(u.point_data.keys()) == sorted(there[2])
            and sorted(u.cell_data.keys()) == sorted(there[3]) and all(np.array_equal(u.point_data[k], v) for k, v in there[2].items())
            and all(np.array_equal(u.cell_data[k], v) for k, v in there[3].items()))
    _from_pyvista(D, back, x, flat_cells(mesh), {k.replace(" ", "_"): v for k, v in pd.items()}, {k.replace(" ", "_"): v for k, v in cd.items()},
                  name or "dfalt")
    D.prove("converting back does not modify the first mesh", before.intact())
    # what a mesh made by pyvista holds is enough to work with it
    copy = D.T("_mesh").from_meshio(back.to_meshio())
    D.prove("and on to meshio", flat_cells(copy) == flat_cells(mesh) and np.array_equal(copy.points, x))


def _from_pyvista(D, back, x, cells, pd, cd, name):
    D.prove("from pyvista: points", np.array_equal(np.asarray(back.points), x))
    D.prove("from pyvista: cells", flat_cells(back) == cells, "%r instead of %r" % (flat_cells(back), cells))
    if "material" not in cd:
        D.prove("default material", name in back.field_data and "material" in back.cell_data)
        num = int(back.field_data[name][0])
        D.prove("of cells", int(back.field_data[name][1]) == 3)
        D.prove("every cell has the default material", [int(i) for i in back.cell_data["material"]] == [num] * len(cells))
        cd = dict(cd, material=np.full(len(cells), num))
    D.prove("from pyvista: names", sorted(back.point_data) == sorted(pd) and sorted(back.cell_data) == sorted(cd),
            "%r %r" % (sorted(back.point_data), sorted(back.cell_data)))
    D.prove("from pyvista: point data", all(np.array_equal(np.asarray(back.point_data[k]), v) for k, v in pd.items()))
    D.prove("from pyvista: cell data", all(np.array_equal(np.asarray(back.cell_data[k]), v) for k, v in cd.items()))


@contract("C16", PYVISTA[1:], symbolic=False, fallback=80, bounded="sampled grids of pyvista")
def pyvista_grids(D):
    """Grids made by pyvista: pixels and voxels become quadrangles and bricks, polygons keep their number of nodes."""
    import pyvista
    r = rng(D)
    kind = D.choice("grid", ["uniform", "polygons", "mixed"])
    if kind == "uniform":
        n = [r.randint(1, 3), r.randint(1, 3), r.choice([0, 0, 1, 2])]
        u = _quiet(lambda: pyvista.UniformGrid(dims=tuple(k + 1 for k in n), spacing=(1.0, 2.0, .5), origin=(0.0, -1.0, 3.0)).cast_to_unstructured_grid())
        pts = np.asarray(u.points)
        # the nodes of each cell from where they are, in the order of quadrangles and bricks
        at = {tuple(np.round((p - [0, -1, 3]) / [1, 2, .5]).astype(int)): i for i, p in enumerate(pts)}
        cells = []
        for k in range(max(n[2], 1)):
            for j in range(n[1]):
                for i in range(n[0]):
                    ring = [(0, 0), (1, 0), (1, 1), (0, 1)]
                    c = [at[i + a, j + b, k] for a, b in ring]
                    cells.append(("quad", c) if n[2] == 0 else ("hexahedron", c + [at[i + a, j + b, k + 1] for a, b in ring]))
    else:
        pts = np.array([[r.uniform(-5, 5) for _ in range(3)] for _ in range(12)])
        cells = []
        for _ in range(r.randint(1, 6)):
            k = r.choice(["polygon", "triangle", "quad"] if kind == "polygons" else list(VTK))
            m = {"line": 2, "triangle": 3, "quad": 4}.get(k) or M.NODES.get(k) or r.choice([3, 4, 5, 6])
            cells.append(("polygon%d" % m if k == "polygon" else k, r.sample(range(12), m)))
        flat = [x for _, c in cells for x in [len(c)] + c]
        u = pyvista.UnstructuredGrid(np.array(flat), np.array([VTK.get(k, 7) for k, _ in cells], dtype=np.uint8), pts)
    cd = {}
    if r.random() < .7:
        cd["some_data"] = np.array([r.uniform(-1, 1) for _ in cells])
        u.cell_data["some data"] = cd["some_data"]
    if r.random() < .3:
        cd["material"] = np.array([r.choice([3, 5]) for _ in cells])
        u.cell_data["material"] = cd["material"]
    back = _quiet(D.T("_mesh").from_pyvista, u)
    _from_pyvista(D, back, pts, [(k, [int(i) for i in c]) for k, c in cells], {}, cd, "dfalt")


@contract("C16", ["toughio._common.filetype_from_filename"] + HELPERS[:2], symbolic=False, fallback=40, bounded="a grid of two cells")
def extensions(D):
    """The format follows the extension, in capitals or not; a format that is given wins."""
    ext, fmt = D.choice("file", [(".f3grid", "flac3d"), (".pickle", "pickle"), (".pkl", "pickle"), (".dat", "tecplot"), (".tec", "tecplot"), (".vtk", "vtk")])
    how = D.choice("case", [str.lower, str.upper, str.capitalize])
    mesh = D.T("meshmaker").structured_grid([1.0], [1.0], [1.0, 2.0])
    given = D.choice("format", [None, "flac3d", "avsucd", "pickle"])
    path = D.file("a.b" + how(ext))
    if fmt == "vtk":
        path = D.file("a.vtk")
    mesh.write(path, file_format=given) if given else mesh.write(path)
    back = D.T("_mesh").read(path, file_format=given or fmt)
    D.prove("the format is the one of the extension", back.n_cells == 2 and len(back.points) == 12)
    again = D.T("_mesh").read(path, file_format=given) if given else D.T("_mesh").read(path)
    D.prove("and so it is when reading", again.n_cells == 2 and len(again.points) == 12)


@contract("C16", FLAC, symbolic=False, fallback=60, bounded="sampled meshes")
def flac3d_binary_records(D):
    """The binary file as FLAC3D defines it, read here without the reader."""
    import struct
    r = rng(D)
    kinds, cells, npts, joined, pts = kinds_and_cells(D, faces=True)
    x = coordinates(D, npts, pts)
    mesh = D.T("_mesh").Mesh(x, [(k, np.array(c)) for k, c in blocks_of(kinds, cells, joined)])
    mat = [r.choice([3, 8, 20]) for _ in kinds]
    if D.choice("materials", [True, False]):
        mesh.add_cell_data("material", np.array(mat))
        mesh.field_data = {"lower rock": np.array([3, 3]), "é": np.array([8, 3])}
    path = D.file("mesh.f3grid")
    mesh.write(path, file_format="flac3d", binary=True)
    with open(path, "rb") as f:
        buf = f.read()
    at = [0]

    def take(fmt):
        out = struct.unpack_from("<" + fmt, buf, at[0])
        at[0] += struct.calcsize("<" + fmt)
        return out

    D.prove("header", take("2I") == (1375135718, 3))
    got = [take("I3d") for _ in range(take("I")[0])]
    D.prove("points", got == [(i + 1,) + tuple(float(c) for c in p) for i, p in enumerate(x)])
    count, group = 0, {}
    for solid in (True, False):
        mine = [j for j, k in enumerate(kinds) if (k in M.NODES) == solid]
        n = take("I")[0]
        D.prove("one record per cell", n == len(mine))
        for j in mine:
            count += 1
            i, m = take("2I")
            nodes = [v - 1 for v in take("%dI" % m)]
            want = cells[j]
            if solid and M.det4(*[x[want[i]] for i in FLAC_ORDER[kinds[j]][:4]]) < 0:
                want = [want[i] for i in MIRRORED[kinds[j]]]
            D.prove("cells numbered from one, zones then faces", i == count, "%d instead of %d" % (i, count))
            D.prove("nodes in the order of FLAC3D", nodes == [want[i] for i in FLAC_ORDER[kinds[j]]])
            group[count] = mat[j]
        for _ in range(take("I")[0]):
            name = take("%ds" % take("H")[0])[0].decode()
            slot = take("%ds" % take("H")[0])[0].decode()
            ids = take("%dI" % take("I")[0])
            D.prove("slot", slot == "Default")
            for i in ids:
                if solid:
                    D.prove("group of the zone", name == {3: "lower rock", 8: "é", 20: "20"}[group.pop(i)], "%s has %d" % (name, i))
        if solid and mesh.cell_data:
            D.prove("every zone has a group", not group)
    D.prove("nothing follows", at[0] == len(buf))


# ------------------------------------------------------------------ the same mesh as another program would write it

def _ids(r, n):
    """n different numbers, in no order."""
    return r.sample(range(1, r.choice([n + 1, 3 * n + 5, 100 * n + 10])), n)


def _rewrapped(r, words, most=40):
    out, i = [], 0
    while i < len(words):
        k = r.randint(1, most)
        out.append(" ".join(words[i:i + k]))
        i += k
    return out


def _avs_of_others(r, lines, npts, n):
    at = 1
    sizes = [int(i) for i in lines[at].split()]
    pid, cid = _ids(r, npts), _ids(r, n)
    out = ["# by somebody", "# else"][:r.randint(0, 2)] + [lines[at]]
    out += ["%d %s" % (pid[i], x.split(None, 1)[1]) for i, x in enumerate(lines[at + 1:at + 1 + npts])]
    at += 1 + npts
    for i, x in enumerate(lines[at:at + n]):
        w = x.split()
        out.append("  ".join([str(cid[i])] + w[1:3] + [str(pid[int(k) - 1]) for k in w[3:]]))
    at += n
    for m, ids, size in ((npts, pid, sizes[2]), (n, cid, sizes[3])):
        if size:
            k = int(lines[at].split()[0])
            out += lines[at:at + 1 + k]
            data = ["%d %s" % (ids[i], x.split(None, 1)[1]) for i, x in enumerate(lines[at + 1 + k:at + 1 + k + m])]
            r.shuffle(data)
            out += data
            at += 1 + k + m
    return out


def _flac3d_of_others(r, lines, npts, n):
    nz, nf = (sum(x.startswith(c + " ") for x in lines) for c in "ZF")
    pid, zid, fid = _ids(r, npts), _ids(r, nz), _ids(r, nf)
    out, i = [], 0
    while i < len(lines):
        w = lines[i].split()
        i += 1
        if w and w[0] == "G":
            out.append(" ".join(["G", str(pid[int(w[1]) - 1])] + w[2:]))
        elif w and w[0] in ("Z", "F"):
            ids = zid if w[0] == "Z" else fid
            out.append(" ".join(w[:2] + [str(ids[(int(w[2]) - 1) - (0 if w[0] == "Z" else _first(lines, "F") - 1)])] + [str(pid[int(k) - 1]) for k in w[3:]]))
        elif w and w[0] in ("ZGROUP", "FGROUP"):
            ids, low = (zid, 1) if w[0] == "ZGROUP" else (fid, _first(lines, "F"))
            members = []
            head = lines[i - 1]
            while i < len(lines) and lines[i].split() and lines[i].split()[0].isdigit():
                members += [str(ids[int(k) - low]) for k in lines[i].split()]
                i += 1
            r.shuffle(members)
            out += [head] + _rewrapped(r, members)
        elif w:
            out.append(lines[i - 1])
    return out


def _first(lines, c):
    return min([int(x.split()[2]) for x in lines if x.startswith(c + " ")] or [1])


def _tecplot_of_others(r, lines, npts, n):
    at = next(i for i, x in enumerate(lines) if x.startswith("VARLOCATION") or x.startswith("ZONE"))
    names = [x.strip().strip('"') for x in lines[at - 1].split("=", 1)[1].split(",")]
    i = at
    while not lines[i].replace(".", "").replace("-", "")[:1].isdigit():
        i += 1
    head = " ".join(lines[at:i])
    words = head.replace(",", " ").replace("=", " ").split()
    get = lambda k: words[words.index(k) + 1]  # noqa: E731
    nn, ne, kind = int(get("NODES")), int(get("ELEMENTS")), get("ZONETYPE")
    body = " ".join(lines[i:]).split()
    loc = head.partition("VARLOCATION")[2]
    nodal = len(names)
    if "[" in loc:
        a = loc[loc.index("[") + 1:loc.index("]")].split("-")
        nodal = int(a[0]) - 1
        if int(a[-1]) != len(names):
            return lines
    size = nodal * nn + (len(names) - nodal) * ne
    data, cells = body[:size], body[size:]
    k = len(cells) // ne
    if r.random() < .5:
        names = [x.lower() if x in "XYZ" else x for x in names]
    out = ['TITLE = "other"', "VARIABLES = " + r.choice([", ", " "]).join('"%s"' % x for x in names)]
    point = nodal == len(names) and r.random() < .5
    style = r.choice(["old", "new", "title"])
    where = "NV = %d" % nodal if r.random() < .5 else "VARLOCATION = ([%d-%d] = NODAL, [%d-%d] = CELLCENTERED)" % (1, nodal, nodal + 1, len(names))
    if nodal + 1 == len(names) and where[0] == "V":
        where = "VARLOCATION = ([%d] = CELLCENTERED)" % len(names)
    where = "" if nodal == len(names) else ", " + where
    if style == "old":
        out.append("ZONE N=%d, E=%d, F=%s, ET=%s%s" % (nn, ne, "FEPOINT" if point else "FEBLOCK", kind[2:], where))
    else:
        out += ["ZONE %sNODES = %d, ELEMENTS = %d" % ('T = "rock, 1" ' if style == "title" else "", nn, ne),
                ", DATAPACKING = %s, ZONETYPE = %s%s" % ("POINT" if point else "BLOCK", kind, where)]
    if point:
        out += [" ".join(data[j::nn]) for j in range(nn)]
    else:
        out += _rewrapped(r, data)
    out += [" ".join(cells[j * k:(j + 1) * k]) for j in range(ne)]
    if r.random() < .3:
        out += ["ZONE N=1, E=1, F=FEPOINT, ET=BRICK", " ".join("9" for _ in names), "1 1 1 1 1 1 1 1"]
    return out


OTHERS = {"avsucd": _avs_of_others, "flac3d": _flac3d_of_others, "tecplot": _tecplot_of_others}


@contract("C16", AVS + FLAC + TEC, symbolic=False, fallback=150, bounded="sampled meshes")
def files_of_others(D):
    """Numbers of nodes and cells of their own, rows of data in any order, lines of any length, other keywords: the same mesh."""
    kinds, cells, npts, joined, pts = kinds_and_cells(D, faces=True)
    r = rng(D)
    n = len(kinds)
    fmt = D.choice("format", sorted(OTHERS))
    pd, cd = given(D, r, npts, n)
    mat, field = materials(D, r, n)
    if mat is not None:
        cd = dict([("material", mat)] + list(cd.items()))
    mesh = D.T("_mesh").Mesh(pts, [(k, np.array(c)) for k, c in blocks_of(kinds, cells, joined)], point_data=pd, cell_data=cd, field_data=field)
    path, other = D.file("mesh.txt"), D.file("other.txt")
    if fmt == "flac3d" and not set(kinds) & set(M.NODES):
        return
    mesh.write(path, file_format=fmt)
    want = D.T("_mesh").read(path, file_format=fmt)
    with open(path, encoding="utf-8") as f:
        lines = f.read().split("\n")
    with open(other, "w", encoding="utf-8") as f:
        f.write("\n".join(OTHERS[fmt](r, lines, npts, n)) + "\n")
    got = D.T("_mesh").read(other, file_format=fmt)
    equal_arrays(D, "points", got.points, want.points, None)
    D.prove("cells", flat_cells(got) == flat_cells(want), "%r instead of %r" % (flat_cells(got), flat_cells(want)))
    for what in ("point_data", "cell_data"):
        a, b = getattr(got, what), getattr(want, what)
        D.prove("names of the arrays", list(a) == list(b), "%r instead of %r" % (list(a), list(b)))
        for k in b:
            equal_arrays(D, "array", np.asarray(a[k]), np.asarray(b[k]), None)
    D.prove("materials", {k: list(v) for k, v in got.field_data.items()} == {k: list(v) for k, v in want.field_data.items()})
