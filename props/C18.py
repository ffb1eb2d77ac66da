"""C18: results are imported onto the right cells and time steps."""
import itertools
import random

import numpy as np

from props import gridlib as G
from props import meshlib as M
from props.C11 import alike, content
from props.inputlib import P13, P9, entry, maybe_eq
from pyvc.domain import contract
from pyvc.poly import Ring

READ = ["toughio._mesh._mesh.Mesh.read_output", "toughio._io.output._common.reorder_labels"]
SAVE = ["toughio._io.output.save._save.read", "toughio._io.output._common.reorder_labels", "toughio._io.output._helpers.read",
        "toughio._io.output._helpers.get_output_type"]
SERIES = ["toughio._mesh._helpers.write_time_series", "toughio._mesh._helpers.read_time_series"]
QUAD = [0, 1, 2, 3]


def flat_mesh(D, n):
    mesh = D.T("_mesh").Mesh(np.zeros((4, 3)), [("quad", np.array([QUAD] * n))])
    return mesh if D.symbolic else M.lived(mesh)


def hybrid(D, r):
    pts, cells, _ = G.hybrid_cells(r, kinds=r.choice(["h", "hw", "hp", "hwpt"]))
    pts, blocks = G.scramble(r, pts, cells, affine=r.random() < .5)
    return M.lived(D.T("_mesh").Mesh(np.array(pts), [(k, np.array(b)) for k, b in blocks]))


def arr(D, rows):
    shape = np.shape(rows)
    a = np.empty(shape, dtype=object if D.symbolic else float)
    for i in np.ndindex(*shape):
        x = rows
        for k in i:
            x = x[k]
        a[i] = x
    return a


def permutation(r, n):
    """Any order of n rows, or one in which many rows are where they were."""
    p = r.sample(range(n), n)
    how = r.random()
    if how < .2:
        return list(range(n))
    if how < .5:
        p = list(range(n))
        i, j = r.randrange(n), r.randrange(n)
        p[i], p[j] = p[j], p[i]
    elif how < .7 and n > 3:
        p = [0] + [i for i in p if 0 < i < n - 1] + [n - 1]
    return p


# ------------------------------------------------------------------ element results

@contract("C18", READ, budget=80, samples=120, fallback=600, objarrays=True,
          bounded="three cells and up to three time steps; values unbounded")
def elements(D):
    O = D.T("_io.output._common").Output
    if D.symbolic:
        n, nt = 3, D.choice("time steps", [1, 2, 3])
        mesh = flat_mesh(D, n)
        perms = [D.choice("rows of step %d" % i, [[2, 0, 1], [1, 0, 2]] if i == 0 else [[1, 2, 0]]) for i in range(nt)]
        value = lambda name: D.real(name)  # noqa: E731
        step = D.choice("step", list(range(-nt - 1, nt + 1)) + [None, "output"])
    else:
        r = random.Random(D.int("seed", 0, 2 ** 31))
        mesh = hybrid(D, r) if r.random() < .3 else flat_mesh(D, r.randint(1, 30))
        n, nt = mesh.n_cells, r.randint(1, 5)
        perms = [permutation(r, n) for _ in range(nt)]
        value = lambda name: r.uniform(-1e6, 1e6)  # noqa: E731
        step = r.choice(list(range(-nt - 1, nt + 1)) + [None, "output"])
    if not D.symbolic and r.random() < .3:
        mesh.label_length = r.choice([5, 6, 8])
    labels = [str(x) for x in mesh.labels]
    values = [{"P": [value("P %d,%d" % (i, j)) for j in range(n)],
               "v": [[value("v %d,%d,%d" % (i, j, k)) for k in range(2)] for j in range(n)]} for i in range(nt)]
    shared = D.choice("labels shared by the steps", [False, True])
    if shared:
        perms = [perms[0]] * nt
    common = np.array([labels[j] for j in perms[0]])
    times = [float(i) for i in range(nt)]
    if not D.symbolic:
        r.shuffle(times)    # the order of the list decides, not the time
    outs = [O("element", "csv", times[i], common if shared else np.array([labels[j] for j in p]),
              {k: arr(D, [v[j] for j in p]) for k, v in values[i].items()}) for i, p in enumerate(perms)]
    mesh.add_cell_data("kept", np.arange(n))
    mesh.add_cell_data("P", np.zeros(n, dtype=D.choice("type of the array before", [float, int])))

    def imported(i):
        D.prove("arrays", sorted(mesh.cell_data) == ["P", "kept", "v"], "%r" % (sorted(mesh.cell_data),))
        D.prove("other arrays are kept", list(mesh.cell_data["kept"]) == list(range(n)))
        for k in ("P", "v"):
            got = mesh.cell_data[k]
            D.prove("one value per cell", np.shape(got) == np.shape(values[i][k]))
            for j in range(n):
                a, b = got[j], values[i][k][j]
                same = (a is b or a == b) if k == "P" else all(x is y or x == y for x, y in zip(a, b))
                D.prove("a cell has the values of the row that bears its label", same, "cell %d of step %d" % (j, i))

    if step == "output":
        i = D.choice("which", [0, nt - 1])
        mesh.read_output(outs[i])
        imported(i)
    elif step is None:
        mesh.read_output(tuple(outs) if D.choice("form", [False, True]) else outs)
        imported(nt - 1)
    elif -nt <= step < nt:
        mesh.read_output(outs, time_step=step)
        imported(range(nt)[step])
        # again, another step of the same results
        mesh.read_output(outs, time_step=0)
        imported(0)
    else:
        D.raises("a step out of range is refused", ValueError, lambda: mesh.read_output(outs, time_step=step))
        D.prove("nothing is imported", sorted(mesh.cell_data) == ["P", "kept"] and list(mesh.cell_data["P"]) == [0] * n)


@contract("C18", READ, budget=20, samples=40, fallback=200, bounded="meshes of up to four cells")
def results_of_another_mesh(D):
    O = D.T("_io.output._common").Output
    n = D.choice("cells", [1, 2, 4])
    mesh = flat_mesh(D, n)
    labels = [str(x) for x in mesh.labels]
    how = D.choice("how", ["fewer", "more", "other"])
    if how == "fewer":
        bad = labels[:-1]
    elif how == "more":
        bad = labels + ["ZZZ99"]
    else:
        bad = labels[:-1] + ["ZZZ99"]
    out = O("element", "csv", 0.0, np.array(bad), {"P": np.arange(float(len(bad)))})
    given = D.choice("given", [out, [out], (out,)])
    D.raises("results of another mesh are refused", (ValueError, KeyError), lambda: mesh.read_output(given))
    D.prove("nothing is imported", not mesh.cell_data)
    for wrong in (1, None, {"a": 1}):
        D.raises("results are a file, an output or a list", TypeError, lambda: mesh.read_output(wrong))
    for wrong in (1.0, "0", None):
        D.raises("a time step is an integer", TypeError, lambda: mesh.read_output([out], time_step=wrong))


# ------------------------------------------------------------------ connection results

ROWS = [[(0, 1)], [(1, 0), (1, 2)], [(0, 1), (2, 1), (0, 2)], [(2, 0), (0, 1), (1, 0)]]


@contract("C18", READ, budget=80, samples=120, fallback=600, objarrays=True,
          bounded="three tetrahedra and up to three connections; coordinates and values unbounded")
def connections(D):
    O = D.T("_io.output._common").Output
    if D.symbolic:
        R = Ring(D)
        pts = [[R.real("p%d%s" % (i, c)) for c in "xyz"] for i in range(12)]
        cells = [list(range(4 * i, 4 * i + 4)) for i in range(3)]
        mesh = D.T("_mesh").Mesh(arr(D, pts), [("tetra", np.array(cells))])
        cs = [[sum((pts[i][k] for i in c[1:]), pts[c[0]][k]) / 4 for k in range(3)] for c in cells]
        rows = D.choice("connections", ROWS)
        n = 3
    else:
        r = random.Random(D.int("seed", 0, 2 ** 31))
        mesh = hybrid(D, r)
        cs = [[sum(float(mesh.points[i][k]) for i in c) / len(c) for k in range(3)] for b in mesh.cells for c in b.data]
        n = mesh.n_cells
        if n < 2:
            return
        rows = []
        for _ in range(r.randint(1, 20)):
            a, b = r.sample(range(n), 2)
            if max(abs(x - y) for x, y in zip(cs[a], cs[b])) > 1e-6:
                rows.append((a, b))
        if not rows:
            return
    labels = [str(x) for x in mesh.labels]
    values = {}
    for k in ("HEAT", "FLOW"):
        v = []
        for i in range(len(rows)):
            neg = D.choice("%s %d negative" % (k, i), [False, True] if k == "HEAT" or not D.symbolic else [i % 2 == 0])
            if D.symbolic:
                x = R.positive("%s %d" % (k, i))
            else:
                x = r.uniform(0, 1e3) + 1e-3
            v.append(-x if neg else x)
        values[k] = v
    out = O("connection", "csv", 0.0, np.array([[labels[a], labels[b]] for a, b in rows]), {k: arr(D, v) for k, v in values.items()})
    given = D.choice("given", ["output", "list"])
    mesh.add_cell_data("kept", np.arange(n))
    if D.choice("results are there already", [False, True] if not D.symbolic else [given == "list"]):
        mesh.add_cell_data("HEAT", np.ones(n))
    mesh.read_output(out if given == "output" else [out])
    D.prove("arrays", sorted(mesh.cell_data) == ["FLOW", "HEAT", "kept"])
    dist = {}
    for a, b in rows:
        line = M.sub(cs[a], cs[b])
        d = frozenset((a, b))
        if d not in dist:
            dist[d] = R.sqrt(M.dot(line, line)) if D.symbolic else M.norm(line)
    for k, v in values.items():
        got = mesh.cell_data[k]
        D.prove("one vector per cell", np.shape(got) == (n, 3), "%r" % (np.shape(got),))
        for c in range(n):
            want = [0.0, 0.0, 0.0]
            for (a, b), x in zip(rows, v):
                # from the second centre to the first; counted at the cell it points to
                if c == (a if bool(x > 0) else b):
                    line = M.sub(cs[a], cs[b])
                    want = [w + x * l / dist[frozenset((a, b))] for w, l in zip(want, line)]
            for j in range(3):
                name = "sum of the vectors of the connections towards the cell"
                if D.symbolic:
                    R.eq(name, got[c][j], want[j])
                else:
                    D.close(name, got[c][j], want[j], rel=1e-9, abs_=1e-7)


# ------------------------------------------------------------------ SAVE

def save_text(incon, tail):
    """A SAVE file as TOUGH writes it: label, porosity and user values, then the primary variables four to a line."""
    w = lambda f, x: " " * int(f.split(".")[0]) if x is None else ("{:%s}" % f).format(x)  # noqa: E731
    lines = ["INCON -- INITIAL CONDITIONS FOR %5d ELEMENTS AT TIME  0.100000E+01" % len(incon)]
    for label, e in incon.items():
        user = e.get("userx", [])
        lines.append(label + " " * 10 + w("15.9e", e.get("porosity")) + "".join([w("10.3e", x) for x in user]))
        for i in range(0, len(e["values"]), 4):
            lines.append("".join([w("20.13e", x) for x in e["values"][i:i + 4]]))
    if tail == "blank":
        lines.append("")
    else:
        lines.append("+++")
        lines.append("   10   23   10 0.00000000E+00 0.10000000E+01")
    return "".join([x + "\n" for x in lines])


def number(D, name, lo, hi):
    x = D.real(name, -hi, hi)
    D.assume(D.or_(x == 0, x >= lo, x <= -lo))
    return x


@contract("C18", SAVE, budget=120, samples=150, fallback=800, objarrays=True,
          bounded="three entries of up to eight variables; values unbounded")
def save(D):
    n = 3
    labels = ["AAA 0", "BBB 1", "ZZ910"]
    nv = D.choice("variables", [1, 3, 4, 5, 8])
    poro = D.choice("porosity", ["all", "none", "some"])
    user = D.choice("user values", [0, 2, 5, "some"])
    incon = {}
    for i, l in enumerate(labels):
        e = {"values": [number(D, "x %d,%d" % (i, j), 1e-90, 1e90) for j in range(nv)]}
        if poro == "all" or poro == "some" and i != 1:
            e["porosity"] = D.real("porosity %d" % i, 1e-6, 1)
        m = user if user != "some" else [2, 0, 1][i]
        if m:
            e["userx"] = [number(D, "u %d,%d" % (i, j), 1e-90, 1e90) for j in range(m)]
        incon[l] = e
    path = D.file("SAVE")
    tail = D.choice("tail", ["blank", "restart"]) if nv in (4, 8) else "blank"
    with open(path, "w") as f:
        f.write(save_text(incon, tail))
    perm = D.choice("order", [None, [2, 0, 1]])
    want = labels if perm is None else [labels[i] for i in perm]
    how = D.choice("form", [list, np.array]) if perm is not None else None
    kw = {} if perm is None else {"labels_order": how(want)}
    out = D.T("_io.output._helpers").read(path, **kw)
    D.prove("type", out.type == "element" and out.format == "save")
    D.prove("labels", [str(x) for x in out.labels] == want, "%r" % (out.labels,))
    names = ["X%d" % (j + 1) for j in range(nv)] + (["porosity"] if poro != "none" else []) + (["userx"] if user else [])
    D.prove("variables", sorted(out.data) == sorted(names), "%r" % (sorted(out.data),))

    def check(name, got, w, prec):
        if w is None:
            D.prove(name, isinstance(got, float) and got != got or got is None, "%r" % (got,))
        else:
            D.prove(name, D.eqx(got, w, prec), "%r instead of %r" % (got, w))
    for i, l in enumerate(want):
        e = incon[l]
        for j in range(nv):
            check("primary variables of each label", out.data["X%d" % (j + 1)][i], e["values"][j], P13)
        if poro != "none":
            check("porosity of each label", out.data["porosity"][i], e.get("porosity"), P9)
        if user:
            row = out.data["userx"][i]
            w = e.get("userx", [])
            w = w + [None] * (max(len(x.get("userx", [])) for x in incon.values()) - len(w))
            D.prove("user values.len", len(row) == len(w), "%r" % (row,))
            for x, y in zip(row, w):
                check("user values of each label", x, y, 3)


# ------------------------------------------------------------------ time series

def _series(D):
    """Steps in any order, given to the writer that meshio provides (recorded here) or written and read back."""
    if D.symbolic:
        nt = D.choice("time steps", [1, 2, 3])
        kinds = D.choice("data", ["both", "points", "cells"])
        blocks = D.choice("blocks", [[2], [1, 2]])
        times = [D.real("t%d" % i) for i in range(nt)]
        for i in range(nt):
            for j in range(i):
                D.assume(times[i] != times[j])
        value = lambda name: D.real(name)  # noqa: E731
    else:
        r = random.Random(D.int("seed", 0, 2 ** 31))
        nt = r.randint(1, 6)
        kinds = r.choice(["both", "points", "cells"])
        blocks = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
        times = r.sample([0.0, 1.0, 2.5, 1e-3, 1e5, 3e7, r.uniform(0, 10), -1.0], nt)
        value = lambda name: r.uniform(-1, 1)  # noqa: E731
    npts = 5 if D.symbolic else r.randint(4, 8)
    kind = ["quad", "triangle"]
    cells = []
    for i, m in enumerate(blocks):
        k = kind[i % 2]
        cells.append((k, np.array([list(range(4 if k == "quad" else 3))] * m)))
    n = sum(blocks)
    pdata = [{"p": arr(D, [value("p %d,%d" % (i, j)) for j in range(npts)])} for i in range(nt)] if kinds != "cells" else None
    cdata = [{"c": arr(D, [value("c %d,%d" % (i, j)) for j in range(n)]), "w": arr(D, [[value("w %d,%d,%d" % (i, j, k)) for k in range(3)] for j in range(n)])}
             for i in range(nt)] if kinds != "points" else None
    return nt, times, npts, cells, pdata, cdata


class Recorder:
    def __init__(self):
        self.steps = []
        self.mesh = None

    def __call__(self, filename):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write_points_cells(self, points, cells):
        self.mesh = (points, cells)

    def write_data(self, t, point_data=None, cell_data=None):
        self.steps.append((t, point_data, cell_data))


@contract("C18", SERIES[:1], budget=60, samples=60, fallback=300, objarrays=True,
          bounded="up to three time steps and two blocks of cells; times and values unbounded")
def time_series_given(D):
    """The steps handed to meshio's writer, whose own contract is to write them in the order given."""
    nt, times, npts, cells, pdata, cdata = _series(D)
    h = D.T("_mesh._helpers")
    CB = D.T("_mesh").CellBlock
    rec = Recorder()
    ts = h.meshio.xdmf.TimeSeriesWriter
    form = D.choice("times", [list, tuple])
    try:
        h.meshio.xdmf.TimeSeriesWriter = rec
        h.write_time_series(D.file("series.xdmf"), np.zeros((npts, 3)), [CB(k, c) for k, c in cells], pdata, cdata, form(times))
    finally:
        h.meshio.xdmf.TimeSeriesWriter = ts
    D.prove("every step is written", len(rec.steps) == nt)
    for (a, _, _), (b, _, _) in zip(rec.steps, rec.steps[1:]):
        D.prove("in increasing time order", a < b)
    for i in range(nt):
        hits = [s for s in rec.steps if s[0] is times[i] or not D.symbolic and s[0] == times[i]]
        D.prove("every time is written once", len(hits) == 1)
        if len(hits) != 1:
            continue
        _, p, c = hits[0]
        want = pdata[i] if pdata else {}
        D.prove("the point data of the step", sorted(p or {}) == sorted(want) and all(_flat_same(p[k], want[k]) for k in want))
        want = cdata[i] if cdata else {}
        D.prove("the cell data of the step", sorted(c or {}) == sorted(want))
        for k in want:
            D.prove("cell data by block", [len(x) for x in c[k]] == [len(b) for _, b in cells])
            D.prove("the cell data of the step", _flat_same(np.concatenate(c[k]), want[k]))


def _flat_same(a, b):
    return np.shape(a) == np.shape(b) and all(x is y or x == y for x, y in zip(np.ravel(a), np.ravel(b)))


@contract("C18", SERIES, symbolic=False, fallback=60, bounded="sampled series written to and read from a file")
def time_series_file(D):
    import os
    nt, times, npts, cells, pdata, cdata = _series(D)
    T = D.T("_mesh._helpers")
    CB = D.T("_mesh").CellBlock
    pts = np.random.RandomState(1).rand(npts, 3)
    here = os.getcwd()
    os.chdir(D.scratch())  # meshio writes data files beside
    try:
        form = D.choice("times", [list, tuple, np.array, None])
        if form is None:
            times = list(range(nt))
        T.write_time_series("series.xdmf", pts, [CB(k, c) for k, c in cells], pdata, cdata, form(times) if form else None)
        p2, c2, pd, cd, ts = T.read_time_series("series.xdmf")
    finally:
        os.chdir(here)
    D.prove("points", np.array_equal(p2, pts))
    D.prove("cells", [(c.type, c.data.tolist()) for c in c2] == [(k, c.tolist()) for k, c in cells])
    order = sorted(range(nt), key=lambda i: times[i])
    D.prove("in increasing time order", len(ts) == nt and np.allclose([float(t) for t in ts], [times[i] for i in order], rtol=1e-12, atol=0))
    D.prove("one set of data per step", len(pd) == nt and len(cd) == nt, "%d, %d of %d" % (len(pd), len(cd), nt))
    for i, p, c in zip(order, pd, cd):
        D.prove("the point data of the step", sorted(p) == (["p"] if pdata else []) and all(np.array_equal(p[k], pdata[i][k]) for k in p))
        D.prove("the cell data of the step", sorted(c) == (["c", "w"] if cdata else []) and all(np.array_equal(c[k], cdata[i][k]) for k in c))


@contract("C18", SERIES[:1], budget=20, samples=30, fallback=100, bounded="up to three time steps")
def time_series_refused(D):
    h = D.T("_mesh._helpers")
    CB = D.T("_mesh").CellBlock
    cells = [CB("quad", np.array([QUAD] * 2))]
    a, b, c = D.choice("sizes", [(2, 3, 2), (3, 2, 3), (2, 2, 3), (2, 2, 1), (1, 1, 0), (0, 0, 0), (0, 0, 2)])
    p = [{"p": np.zeros(4)}] * a if a else None
    q = [{"c": np.zeros(2)}] * b if b else None
    D.raises("numbers of steps that differ are refused", ValueError,
             lambda: h.write_time_series(D.file("series.xdmf"), np.zeros((4, 3)), cells, p, q, [float(i) for i in range(c)]))


# ------------------------------------------------------------------ history files

HISTORY = ["toughio._io.output._helpers.read_history"]
COLUMNS = [[], ["PRES"], ["PRES", "TEMP", "SAT_G", "SAT_L"], ["GEN", "ENTG", "PWB"]]


@contract("C18", HISTORY, budget=60, samples=120, fallback=400, objarrays=True,
          bounded="up to three rows and four columns; the numbers unbounded")
def history(D):
    """History of one cell or source: a column is found under its own header, row by row."""
    style = D.choice("style", ["quoted", "blank"])
    if D.symbolic:
        names = D.choice("columns", COLUMNS)
        n = D.choice("rows", [1, 2, 3])
        value = lambda name: D.real(name, -9e98, 9e98)  # noqa: E731
        fmt = D.choice("format", ["20.12e", "12.5e"])
        gap, end = "  ", D.choice("end", ["\n", "", "\n\n"])
    else:
        r = random.Random(D.int("seed", 0, 2 ** 31))
        pool = ["PRES", "TEMP", "SAT_G", "GEN", "X(CO2)", "TIMES", "PCAP", "time"] + (["Liquid saturation", "PRES [Pa]"] if style == "quoted" else [])
        names = r.sample(pool, r.randint(0, len(pool)))
        n = r.choice([1, 2, 3, r.randint(1, 60)])
        value = lambda name: r.choice([0.0, -1.0, 1.0, r.uniform(-1, 1), r.uniform(-1, 1) * 10 ** r.randint(-90, 90)])  # noqa: E731
        fmt = r.choice(["20.12e", "12.5e", ".9g", "14.6E"])
        gap, end = r.choice([" ", "  ", "   "]), r.choice(["\n", "", "\n\n", "\n  \n"])
    first = D.choice("first header", ["TIME(S)", "TIME", "Time"])
    heads = [first] + names
    rows, want = [], []
    for i in range(n):
        text, num = [], []
        for k in heads:
            x = value("%s %d" % (k, i))
            if D.symbolic:
                D.assume(D.or_(x == 0, x >= 1e-98, x <= -1e-98))
            s = ("{:%s}" % fmt).format(x)
            text.append(s)
            num.append(D.field(s, "real"))
        rows.append(text)
        want.append(num)
    if style == "quoted":
        lines = [",".join('"%s"' % k.center(18) for k in heads)] + [",".join(t) for t in rows]
    else:
        lines = [gap + gap.join(heads)] + [gap + gap.join(t) for t in rows]
    path = D.file("FOFT")
    with open(path, "w") as f:
        f.write("\n".join(lines) + end)
    got = D.T("_io").read_history(path)
    D.prove("the time and every column", sorted(got) == sorted(["TIME"] + names), "%r" % (sorted(got),))
    for j, k in enumerate(["TIME"] + names):
        D.prove("one value per row", len(got[k]) == n)
        for i in range(min(n, len(got[k]))):
            D.prove("every column under its own header, in the order of the rows", D.eqx(got[k][i], want[i][j], None),
                    "%s of row %d: %r instead of %r" % (k, i, got[k][i], want[i][j]))
    D.raises("a path is a string", TypeError, lambda: D.T("_io").read_history(17))
