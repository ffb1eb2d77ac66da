"""C14: materials assigned to cells over any history."""
import itertools
import random

import numpy as np

from props import gridlib as G
from props import meshlib as M
from props.C11 import alike, content
from pyvc.domain import contract

FUNCS = ["toughio._mesh._mesh.Mesh.set_material", "toughio._mesh._properties._materials", "toughio._mesh._mesh.Mesh.add_cell_data",
         "toughio._mesh._mesh.Mesh.add_point_data"]
DATA = ["toughio._mesh._mesh.Mesh.add_cell_data", "toughio._mesh._mesh.Mesh.add_point_data"]
QUAD = [0, 1, 2, 3]


def symbolic_state(D, n, names):
    """A mesh of n cells whose materials are all named, by pairwise distinct identifiers."""
    ids = [D.int("id of %s" % k) for k in names]
    for i, a in enumerate(ids):
        for b in ids[:i]:
            D.assume(a != b)
    of = [D.choice("material of %d" % i, list(range(len(names)))) for i in range(n)]
    mat = np.empty(n, dtype=object)
    for i in range(n):
        mat[i] = ids[of[i]]
    field = {}
    dims = D.choice("dimensions", [[3] * len(names), [2] * len(names), ([2, 3, 2] + [3] * len(names))[:len(names)]])
    for k, v, d in zip(names, ids, dims):
        f = np.empty(2, dtype=object)
        f[0], f[1] = v, d
        field[k] = f
    mesh = D.T("_mesh").Mesh(np.zeros((4, 3)), [("quad", np.array([QUAD] * n))], cell_data={"material": mat}, field_data=field)
    return mesh, [names[k] for k in of]


def check(D, mesh, want):
    got = mesh.materials
    D.prove("one material per cell", len(got) == len(want))
    for i, w in enumerate(want):
        D.prove("a cell has the material last assigned to it", isinstance(got[i], str) and got[i] == w,
                "cell %d: %r, expected %r" % (i, got[i], w))
    ids = [(k, v[0]) for k, v in mesh.field_data.items()]
    for i, (k, a) in enumerate(ids):
        for l, b in ids[:i]:
            D.prove("distinct names have distinct identifiers", D.truth(a != b) if not D.symbolic else a != b, "%s and %s" % (k, l))
    for i, w in enumerate(want):
        if w in mesh.field_data:
            D.prove("the cell holds the identifier of its name", mesh.cell_data["material"][i] == mesh.field_data[w][0], "cell %d" % i)
        else:
            D.prove("every material is named", False, w)


SELECT = [("ints", c) for c in ([], [0], [2], [1, 1], [2, 0], [0, 1, 2])] + \
    [("mask", m) for m in ([False, False, False], [True, False, False], [False, True, True], [True, True, True], [False, True, False])]


@contract("C14", FUNCS, budget=150, samples=60, fallback=600, objarrays=True, max_paths=20000,
          bounded="three cells and three names; identifiers unbounded, so any history of assignments on three cells by induction")
def assignment(D):
    """One assignment from any state where distinct names have distinct identifiers and all materials
    are named: the state keeps that property, so the statement follows for every history."""
    if not D.symbolic:
        return histories(D)
    mesh, want = symbolic_state(D, 3, ["rock1", "rock2", "rock3"])
    name = D.choice("name", ["rock2", "other"])
    kind, cells = D.choice("cells", SELECT)
    sel = cells if kind == "ints" else [i for i, x in enumerate(cells) if x]
    form = D.choice("form", ["list", "array"])
    given = list(cells) if form == "list" else np.array(cells, dtype=int if kind == "ints" else bool)
    mesh.set_material(name, given)
    for i in sel:
        want[i] = name
    check(D, mesh, want)


def forms(r, cells):
    how = r.randint(0, 4)
    if how == 0:
        return list(cells)
    if how == 1:
        return tuple(cells)
    if all(isinstance(x, bool) for x in cells) and cells:
        return np.array(cells, dtype=bool) if how < 4 else [np.bool_(x) for x in cells]
    return np.array(cells, dtype=r.choice([np.int8, np.int16, np.int32, np.int64])) if how < 4 and max(cells, default=0) < 128 else [np.int64(x) for x in cells]


def rejected(r, n):
    """A selection that is no list of indices and no mask."""
    return r.choice([
        [n], [0, n + 3], [-1], [n - 1, -2], np.array([n]), np.array([-1, 0]), (0, n),
        [True] * (n + 1), [False] * (n - 1 if n > 1 else n + 2), np.ones(n + 1, dtype=bool), np.zeros(2 * n, dtype=bool),
        [0.0], [0, 1.5] if n > 1 else [.5], np.array([0.0]), ["0"], [None], [0, None], 0, None, 1.5])


def histories(D):
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    T = D.T("_mesh")
    if r.random() < .3:
        pts, cells, _ = G.hybrid_cells(r, kinds="hw")
        pts, blocks = G.scramble(r, pts, cells, affine=False)
        mesh = T.Mesh(np.array(pts), [(k, np.array(b)) for k, b in blocks])
    else:
        mesh = T.Mesh(np.zeros((4, r.choice([2, 3]))), [("quad", np.array([QUAD] * m)) for m in [r.randint(1, 4) for _ in range(r.randint(1, 3))]])
    M.lived(mesh)
    n = mesh.n_cells
    names = ["rock%d" % i for i in range(r.randint(1, 4))]
    ids = r.sample(range(r.choice([-3, 0, 1]), 12), len(names))
    want = [r.choice(names) for _ in range(n)]
    mesh.add_cell_data("material", np.array([ids[names.index(w)] for w in want]))
    mesh.field_data = {k: np.array([i, r.choice([2, 3, 3])]) for k, i in zip(names, ids)}
    pool = names + ["new%d" % i for i in range(r.randint(1, 4))]
    for step in range(r.randint(1, 14)):
        other = np.arange(n) * r.random()
        if r.random() < .2:
            mesh.add_cell_data("other", other)
        before = content(mesh)
        if r.random() < .2:
            bad = rejected(r, n)
            try:
                mesh.set_material(r.choice(pool), bad)
                D.prove("selections out of range, of a wrong size or not of integers are rejected", False, "%r accepted" % (bad,))
            except (TypeError, ValueError):
                pass
            D.prove("a rejected selection leaves the mesh unchanged", alike(before, content(mesh)), "%r" % (bad,))
        else:
            name = r.choice(pool)
            how = r.random()
            if how < .12:
                cells, sel = r.choice([([], []), ([False] * n, [])])
            elif how < .5:
                sel = [r.randrange(n) for _ in range(r.randint(1, 2 * n))]
                cells = sel
            else:
                cells = [r.random() < .5 for _ in range(n)]
                sel = [i for i, x in enumerate(cells) if x]
            given = forms(r, cells)
            keep = list(given)
            mesh.set_material(name, given)
            D.prove("the selection is not modified", list(given) == keep)
            for i in sel:
                want[i] = name
        check(D, mesh, want)


@contract("C14", FUNCS, budget=40, samples=40, fallback=300, objarrays=True, bounded="up to three indices; their values unbounded")
def out_of_range(D):
    n = 3
    if D.symbolic:
        mesh, want = symbolic_state(D, n, ["rock1", "rock2"])
    else:
        r = random.Random(D.int("geometry", 0, 2 ** 31))
        mesh = D.T("_mesh").Mesh(np.zeros((4, 3)), [("quad", np.array([QUAD] * n))],
                                 cell_data={"material": np.array([4, 2, 4])}, field_data={"rock1": np.array([4, 3]), "rock2": np.array([2, 3])})
        want = ["rock1", "rock2", "rock1"]
    m = D.choice("indices", [1, 2, 3])
    k = D.choice("which", list(range(m)))
    cells = [D.int("cell %d" % i, 0, 2) for i in range(m)]
    bad = D.int("outside")
    D.assume(D.or_(bad < 0, bad >= n))
    cells[k] = bad
    D.raises("an index out of range is rejected", ValueError, lambda: mesh.set_material(D.choice("name", ["rock1", "other"]), cells))
    check(D, mesh, want)
    D.prove("no name is added", sorted(mesh.field_data) == ["rock1", "rock2"])


@contract("C14", DATA, budget=20, samples=40, fallback=200, bounded="meshes of one to four cells")
def data_size(D):
    """Data arrays of another size than the mesh are rejected."""
    n = D.choice("cells", [1, 2, 4])
    npts = D.choice("points", [4, 6])
    mesh = D.T("_mesh").Mesh(np.zeros((npts, 3)), [("quad", np.array([QUAD] * n))])
    m = D.choice("size", [0, 1, 2, 3, 4, 5, 6, 7])
    wide = D.choice("columns", [0, 3])
    rows = [[float(i + j) for j in range(wide)] if wide else float(i) for i in range(m)]
    form = D.choice("form", ["list", "tuple", "array"])
    data = rows if form == "list" else tuple(rows) if form == "tuple" else np.array(rows)
    for what, size, add in (("cell", n, mesh.add_cell_data), ("point", npts, mesh.add_point_data)):
        store = mesh.cell_data if what == "cell" else mesh.point_data
        if m == size:
            add("a", data)
            D.prove("the array is stored", list(store) == ["a"] and np.array_equal(store["a"], np.array(rows)))
        else:
            D.raises("data of another size are rejected", ValueError, lambda: add("a", data))
            D.prove("rejected data are not stored", not store)
        for bad in (1.0, None, "abcd", {0: 1}):
            D.raises("data must be an array", TypeError, lambda: add("b", bad))
        D.raises("the name must be a string", TypeError, lambda: add(1, data))
        D.prove("nothing else is stored", list(store) in ([], ["a"]))
