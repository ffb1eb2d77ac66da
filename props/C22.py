"""C22: exported results sit where they were computed, at the time they were computed for."""
import contextlib
import io
import os
import random

import numpy as np

from props.C18 import Recorder, arr
from props.C21 import Inside
from props.pairs import config
from pyvc.domain import contract

EXPORT = ["toughio._cli._export.export", "toughio._cli._export._get_points", "toughio.meshmaker._voxelize.voxelize",
          "toughio.meshmaker._structured_grid.structured_grid", "toughio._mesh._mesh.Mesh.read_output",
          "toughio._io.output._common.reorder_labels", "toughio._mesh._helpers.write_time_series"]
TRIANGLES = ["toughio.meshmaker._triangulate.triangulate"]

OPTIONS = {
    "shape": [(2, 2, 2), (3, 1, 2), (1, 3, 2), (2, 3, 1), (3, 1, 1), (1, 1, 3), (1, 3, 1), (2, 1, 2), (3, 2, 2), (1, 2, 2)],
    "mode": ["mesh", "voxels", "voxels by layers", "points"],
    "rows": ["as in the mesh", "reversed", "shuffled"],
    "grid by layers": [False, True],
    "origin": [(0.0, 0.0, 0.0), (-5.0, 10.0, 0.5)],
    "times": [1, 2, 3],
    "read from": ["csv", "petrasim", "tecplot"],
    "format": ["tecplot", "vtk", "vtu", "xdmf"],
    "time step": [None, 0, -1, 1, -2],
    "target": [True, False],
    "variables": [["P"], ["T", "P", "SAT_G"]],
    "constant columns": [True, False],
    "mesh format": [".pickle", ".f3grid"],
}
PREC = {"csv": 8, "petrasim": 12, "tecplot": 7}
EXT = {"tecplot": ".dat", "vtk": ".vtk", "vtu": ".vtu", "xdmf": ".xdmf"}


@contextlib.contextmanager
def quiet():
    """Without the progress messages of the tool."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def value(D, r, name, source):
    if D.symbolic:
        m, t = (9e98, 1e-98) if source == "tecplot" else (1e300, 1e-300)     # the columns of that format: see C17
        x = D.real(name, -m, m)
        D.assume(D.or_(x == 0, x >= t, x <= -t))
        return x
    return r.choice([0.0, 1.0, r.uniform(-1, 1), r.uniform(-1, 1) * 10.0 ** r.randint(-60, 60)])


class Step:
    """What an exported file holds for one time."""

    def __init__(self, points, cells, pdata, cdata):
        self.points, self.pdata, self.cdata = np.asarray(points), pdata, cdata
        self.cells = [(c.type, np.asarray(c.data)) if hasattr(c, "type") else (c[0], np.asarray(c[1])) for c in cells]
        self.centers = [np.mean([[float(x) for x in self.points[i]] for i in c], axis=0) for _, b in self.cells for c in b]


def joined(v):
    return list(np.concatenate(v)) if isinstance(v, list) else list(v)


class MeshRecorder:
    """meshio's writer (assumed to write the mesh it is given; files are read back in samples)."""

    def __init__(self):
        self.mesh = None

    def __call__(self, filename, mesh, file_format=None, **kwargs):
        self.filename, self.mesh = filename, mesh


def run(D, argv, target, fmt):
    """Export; [(time or None, Step)]."""
    T = D.T("_cli._export")
    h = D.T("_mesh._helpers")
    if not D.symbolic:
        T.export(argv)
        D.prove("the file is written", os.path.isfile(target))
        if fmt == "xdmf":
            points, cells, pd, cd, ts = h.read_time_series(target)
            return [(float(t), Step(points, cells, p, c)) for t, p, c in zip(ts, pd, cd)]
        m = h.read(target, file_format=fmt)
        return [(None, Step(m.points, m.cells, m.point_data, m.cell_data))]
    rec, mrec = Recorder(), MeshRecorder()
    names = []
    keep, write = h.meshio.xdmf.TimeSeriesWriter, h.meshio.write
    try:
        h.meshio.xdmf.TimeSeriesWriter = lambda filename: names.append(filename) or rec
        h.meshio.write = mrec
        T.export(argv)
    finally:
        h.meshio.xdmf.TimeSeriesWriter, h.meshio.write = keep, write
    if fmt == "xdmf":
        D.prove("the file is written", names == [target], "%r" % (names,))
        return [(t, Step(rec.mesh[0], rec.mesh[1], p or {}, {k: joined(v) for k, v in (c or {}).items()})) for t, p, c in rec.steps]
    if fmt == "tecplot":
        D.prove("the file is written", os.path.isfile(target))
        m = h.read(target, file_format=fmt)
        return [(None, Step(m.points, m.cells, m.point_data, m.cell_data))]
    m = mrec.mesh
    D.prove("the file is written", m is not None and mrec.filename == target)
    return [(None, Step(m.points, m.cells, m.point_data, {k: joined(v) for k, v in m.cell_data.items()}))]


@contract("C22", EXPORT + TRIANGLES, budget=100, samples=120, fallback=600, objarrays=True,
          bounded="grids of up to twelve cells, up to three times; values and times unbounded")
def export(D):
    r = None if D.symbolic else random.Random(D.int("geometry", 0, 2 ** 31))
    o = config(D, OPTIONS)
    shape, mode, fmt, nt, names = o["shape"], o["mode"], o["format"], o["times"], o["variables"]
    origin = o["origin"]
    spacing = [[1.0, 2.0, 4.0], [3.0, 1.0, 2.0], [0.5, 2.0, 1.0]]
    if r is not None:
        if r.random() < .7:
            shape = [n if n == 1 else r.randint(2, 5) for n in shape]
        spacing = [[r.choice([1.0, 2.0, 0.5, 8.0, round(r.uniform(.1, 9), 2)]) for _ in range(5)] for _ in range(3)]
        origin = [round(r.uniform(-50, 50), 1) for _ in range(3)]
    step = o["time step"]
    if step is not None and not -nt <= step < nt:
        step = None
    varying = [k for k in range(3) if shape[k] > 1]
    source = o["read from"]
    if mode == "mesh" and source == "tecplot":
        source = "csv"                                     # no labels in this format
    asked = mode != "points"
    if mode == "points" and len(varying) == 1:
        mode = "voxels"                                    # a column or a row of cells cannot be triangulated
    d = [spacing[k][:shape[k]] for k in range(3)]
    grid = D.T("meshmaker").structured_grid(*d, origin=list(origin), layer=o["grid by layers"])
    n = grid.n_cells
    centers = np.array(grid.centers, dtype=float)
    labels = [str(x) for x in grid.labels]
    order = list(range(n))
    if o["rows"] == "reversed":
        order.reverse()
    elif o["rows"] == "shuffled":
        (r or random.Random(n)).shuffle(order)

    # results of every time, in the order of the rows
    if D.symbolic:
        times = [D.real("time %d" % i, 0, 1e90) for i in range(nt)]
        for a, b in zip(times, times[1:]):
            D.assume(a * 1.001 + 1e-3 < b)
    else:
        times = sorted(r.sample([0.0, 1.0, 3600.0, 3.15e7, 0.25, 86400.0, 1e10], nt))
    columns = [k for k in range(3) if o["constant columns"] or shape[k] > 1 or source != "csv"]
    values = [{k: [value(D, r, "%s %d %d" % (k, i, j), source) for j in range(n)] for k in names} for i in range(nt)]
    outputs = []
    for i in range(nt):
        data = {"XYZ"[k]: np.array([centers[j][k] for j in order]) for k in columns}
        data.update({k: arr(D, [values[i][k][j] for j in order]) for k in names})
        outputs.append(D.T("_io.output").Output("element", source, times[i], np.array([labels[j] for j in order]), data))
    base = D.scratch()
    infile = os.path.join(base, D.choice("name of the results", ["OUTPUT_ELEME", "run.2", "v1.0/OUTPUT"][:1 if D.symbolic else 3]) + (".csv" if source != "tecplot" else ".tec"))
    os.makedirs(os.path.dirname(infile), exist_ok=True)
    D.T("_io.output").write(infile, outputs, file_format=source)

    argv = [infile, "--file-format", fmt]
    target = os.path.splitext(infile)[0] + EXT[fmt]
    if o["target"]:
        target = os.path.join(base, "results" + (".out" if fmt != "xdmf" else ".xdmf"))
        argv += ["-o", target]
    if mode == "mesh":
        path = os.path.join(base, "mesh" + (o["mesh format"] if not D.symbolic else ".f3grid"))
        grid.write(path)
        argv += ["-m", path]
    else:
        if mode != "points":
            argv += (["--voxelize"] if asked else []) + (["--layer"] if mode == "voxels by layers" else [])
        argv += ["--origin"] + [repr(float(x)) for x in origin]
    if step is not None:
        argv += ["--time-step", str(step)]
    with Inside(base), quiet():
        steps = run(D, argv, target, fmt)

    if fmt == "xdmf":
        D.prove("every time is exported", len(steps) == nt, "%d of %d" % (len(steps), nt))
        want = list(range(nt))
        for (t, _), i in zip(steps, want):
            D.prove("in time order", D.eqx(t, times[i], PREC[source]), "%r" % (t,))
    else:
        D.prove("one time is exported", len(steps) == 1)
        want = [range(nt)[-1 if step is None else step]]

    given = [[float(("{:.%de}" % PREC[source]).format(x)) for x in c] for c in centers]
    prec = PREC[source]
    for (_, s), i in zip(steps, want):
        if mode == "points":
            D.prove("one point for every row", len(s.points) == n)
            places = [[float(x) for x in p] for p in s.points]
            where = [[x[k] for k in varying] for x in given]
            places = [p[:len(varying)] for p in places]
            got = s.pdata
        else:
            D.prove("one cell for every row", len(s.centers) == n)
            axes = range(3) if mode == "mesh" else varying
            where = [[x[k] for k in axes] for x in given]
            places = [[p[k] for k in axes] for p in s.centers]
            got = s.cdata
        D.prove("the variables are exported", all(k in got and len(got[k]) == n for k in names), "%r" % (sorted(got),))
        for j in range(n):
            hits = [q for q in range(n) if np.allclose(places[q], where[j], rtol=1e-5, atol=1e-4)]
            D.prove("the location of the row is in the exported mesh", len(hits) == 1, "%r in %r" % (where[j], places))
            for k in names:
                x = got[k][hits[0]]
                D.prove("the value is where it was computed", D.eqx(x, values[i][k][j], prec), "%s: %r instead of %r" % (k, x, values[i][k][j]))


BAD = ["no file", "no mesh file", "no origin", "short origin", "long origin", "no origin in 1D", "short origin in 1D", "step", "negative step",
       "no coordinates", "format"]


@contract("C22", EXPORT[:2], budget=30, samples=40, fallback=200, bounded="eleven kinds of unusable input")
def export_rejects(D):
    what = D.choice("input", BAD)
    T = D.T("_cli._export")
    one = "1D" in what
    shape = (3, 1, 1) if one else (2, 1, 2)
    grid = D.T("meshmaker").structured_grid(*[[1.0] * n for n in shape])
    c = np.array(grid.centers, dtype=float)
    data = {"P": np.arange(float(len(c)))}
    if what != "no coordinates":
        data.update(X=c[:, 0], Y=c[:, 1], Z=c[:, 2])
    outs = [D.T("_io.output").Output("element", "csv", float(t), np.array([str(x) for x in grid.labels]), data) for t in (1, 2)]
    base = D.scratch()
    infile = os.path.join(base, "results.csv")
    D.T("_io.output").write(infile, outs, file_format="csv")
    argv = {
        "no file": [infile + "2"],
        "no mesh file": [infile, "-m", os.path.join(base, "mesh.pickle")],
        "no origin": [infile, "-v"],
        "short origin": [infile, "-v", "--origin", "0", "0"],
        "long origin": [infile, "-v", "--origin", "0", "0", "0", "0"],
        "no origin in 1D": [infile],
        "short origin in 1D": [infile, "--origin", "0", "0"],
        "step": [infile, "-t", "2"],
        "negative step": [infile, "-t=-3"],
        "no coordinates": [infile],
        "format": [infile, "-f", "csv"],
    }[what] + ["-o", os.path.join(base, "out.vtk")]
    with Inside(base), quiet():
        D.raises("unusable input is rejected", (ValueError, SystemExit), lambda: T.export(argv))
    D.prove("nothing is written", sorted(os.listdir(base)) == ["results.csv"])


@contract("C22", TRIANGLES, symbolic=False, fallback=80, bounded="sampled clouds of points")
def triangulation(D):
    """The simplices of scipy on the points as they were given, filling their hull."""
    from scipy.spatial import ConvexHull
    if D.symbolic:
        return
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    ndim = r.choice([2, 3])
    p = [[r.uniform(-1, 1) * 10 ** r.choice([0, 3]) for _ in range(ndim)] for _ in range(r.randint(ndim + 1, 30))]
    name = r.choice(["dfalt", "rock"])
    form = r.choice([list, tuple, np.array])
    m = D.T("meshmaker").triangulate(form(p)) if name == "dfalt" and r.random() < .5 else D.T("meshmaker").triangulate(form(p), name)
    D.prove("the points are the given ones, in order", np.array_equal(m.points, np.array(p)))
    D.prove("one block", [c.type for c in m.cells] == ["triangle" if ndim == 2 else "tetra"])
    D.prove("material", list(m.materials) == [name] * m.n_cells)
    q = np.array(p)
    size = sum(abs(np.linalg.det(q[c[1:]] - q[c[0]])) for c in m.cells[0].data) / (2.0 if ndim == 2 else 6.0)
    D.close("the cells fill the hull of the points", size, ConvexHull(q).volume, rel=1e-8)


@contract("C22", ["toughio._cli._co2tab.co2tab"], samples=10, fallback=10, bounded="three target directories")
def co2tab(D):
    import toughio
    base = D.scratch()
    sub = D.choice("directory", ["", "a", "a b"])
    path = os.path.join(base, sub)
    os.makedirs(path, exist_ok=True)
    if D.choice("existing", [True, False]):
        with open(os.path.join(path, "CO2TAB"), "w") as f:
            f.write("an older table")
    T = D.T("_cli._co2tab")
    T.co2tab([path])
    with open(os.path.join(path, "CO2TAB"), "rb") as f, open(os.path.join(os.path.dirname(toughio.__file__), "data", "CO2TAB"), "rb") as g:
        D.prove("the table is copied", f.read() == g.read())
    D.raises("a directory that does not exist is rejected", ValueError, lambda: T.co2tab([os.path.join(base, "none")]))
