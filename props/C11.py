"""C11: MESH and INCON files written from a mesh."""
import random

import numpy as np

from props import gridlib as G
from props import meshlib as M
from props.C09 import array
from props.C10 import SLOTS, oracle, pair
from props.meshlib import FACES, KINDS, NODES, add, cross, dot, mul, sub
from props.tough_layout import LAYOUT, columns, fields, precs
from pyvc.domain import contract
from pyvc.poly import P, Ring

TOUGH = "toughio._mesh.tough._tough."
HELP = "toughio._mesh.tough._helpers."
MESH = [TOUGH + f for f in ("write", "write_mesh", "_write_eleme", "_write_conne", "_isot", "_dot", "init_incon",
                            "check_incon")] + [
    HELP + f for f in ("block", "_write_eleme", "_write_conne", "_to_record")] + ["toughio._mesh._mesh.Mesh.write_tough"]
LINE = MESH + [TOUGH + "_intersection_line_plane"]
ORTHO = MESH + [TOUGH + "_distance_point_plane"]
COORD = [TOUGH + "_write_coord", HELP + "_write_coord"]
INCON = [TOUGH + f for f in ("write_incon", "_write_incon", "init_incon", "check_incon")] + [
    HELP + "_write_incon", "toughio._mesh._mesh.Mesh.write_incon", "toughio._mesh._mesh.Mesh.write_tough"]


# ------------------------------------------------------------------ reading

def blocks_of(D, path, names):
    """{block: records}; every block ends with a blank line, in this order, and nothing else."""
    with open(path, encoding="utf-8") as f:
        lines = f.read().split("\n")
    out, k = {}, 0
    for name in names:
        D.prove("block %s" % name, k < len(lines) and lines[k][:5].ljust(5) == name.ljust(5)[:5],
                "line %d: %r" % (k, lines[k] if k < len(lines) else None))
        k += 1
        rows = []
        while k < len(lines) and lines[k] != "":
            rows.append(lines[k])
            k += 1
        out[name] = rows
        k += 1
    D.prove("nothing else", [x for x in lines[k:] if x] == [])
    return out


def record(D, line, fmt):
    D.prove("nothing beyond the last column", len(line.rstrip("\n")) <= columns(fmt)[-1][1])
    return fields(D, line, fmt)


class Numbers:
    """Compares printed values with exact (symbolic) or floating point ones."""

    def __init__(self, D, R=None):
        self.D, self.R = D, R

    def same(self, name, field, want, prec, abs_=0.0):
        D = self.D
        if self.R is not None and isinstance(want, P):
            return self.R.printed(name, field, want, prec)
        if D.symbolic or field is None or isinstance(field, str):
            return D.prove(name, D.eqx(field, want, prec), "column holds %r, expected %r" % (field, want))
        w, p = prec
        p = max(0, min(p, w - 6 - (1 if field < 0 else 0) - (1 if abs(field) >= 9e99 else 0)))
        tol = 0.51 * 10.0 ** -p * abs(want) + 1e-7 * abs(want) + abs_
        return D.prove(name, abs(field - want) <= tol, "column holds %r, expected %r" % (field, want))


def check_eleme(D, num, line, ln, label, material, volume, centre, scale=0.0):
    fmt = LAYOUT["ELEME"][ln]
    got, pr = record(D, line, fmt), precs(fmt)
    D.prove("ELEME: label", D.eqx(got[0], label), "%r, expected %r" % (got[0], label))
    for k in (1, 2, 5, 6):
        D.prove("ELEME: blank column", D.eqx(got[k], None), "column %d holds %r" % (k, got[k]))
    D.prove("ELEME: material", D.eqx(got[3], material), "%r, expected %r" % (got[3], material))
    num.same("ELEME: volume", got[4], volume, pr[4])
    for k in range(3):
        num.same("ELEME: centre", got[7 + k], centre[k], pr[7 + k], 1e-9 * scale)


def check_conne(D, num, line, ln, labels, isot, d1, d2, area, cosine, scale=0.0):
    fmt = LAYOUT["CONNE"][ln]
    got, pr = record(D, line, fmt), precs(fmt)
    D.prove("CONNE: labels", D.eqx(got[0], "".join(labels)), "%r, expected %r" % (got[0], labels))
    for k in (1, 2, 3, 9):
        D.prove("CONNE: blank column", D.eqx(got[k], None), "column %d holds %r" % (k, got[k]))
    isot = isot if isinstance(isot, (set, list)) else [isot]
    D.prove("CONNE: axis of the connecting line", any(D.truth(D.eqx(got[4], i)) for i in isot), "%r, expected %r" % (got[4], isot))
    num.same("CONNE: distance of the first cell", got[5], d1, pr[5], 1e-8 * scale)
    num.same("CONNE: distance of the second cell", got[6], d2, pr[6], 1e-8 * scale)
    num.same("CONNE: area", got[7], area, pr[7])
    num.same("CONNE: cosine", got[8], cosine, pr[8], 1e-9)


# ------------------------------------------------------------------ geometry of one connection

PATTERNS = [(a, b, c) for a in (0, 1, -1) for b in (0, 1, -1) for c in (0, 1, -1) if (a, b, c) != (0, 0, 0)]
ALIGNED = [p for p in PATTERNS if sum(map(abs, p)) == 1]


def connected_pair(D, R, a, b, turn, pattern):
    """Two cells either side of a shared planar face, with centres p0 - g and p0 + h."""
    first, second, size = pair(a[0], a[1], b[0], b[1], turn)
    q = [first[i] for i in FACES[a[0]][a[1]]]  # the shared face, seen from the first cell
    pts = [[R.real("p%d%s" % (i, c)) for c in "xyz"] for i in range(size)]
    o = pts[q[0]]
    u, v = ([R.real(n + c) for c in "xyz"] for n in "uv")
    pts[q[1]] = add(o, u)
    N = cross(u, v)
    y = R.root(dot(N, N), "|u x v|")
    if len(q) == 3:
        pts[q[2]] = add(o, v)
        area = y / 2
    else:
        s, t = R.positive("s"), R.positive("t")
        R.assume_pos(s + t - 1)
        pts[q[3]] = add(o, v)
        pts[q[2]] = add(add(o, mul(s, u)), mul(t, v))
        for m in (s, t, s + t - 1, s + t):
            R.scaled_root(y, m)
        area = (s + t) * y / 2
    g = [R.real("g" + c) for c in "xyz"]
    h = []
    for k, sign in enumerate(pattern):
        if sign == 0:
            h.append(-g[k])  # the line from centre to centre has no such component
        else:
            w = R.positive("w" + "xyz"[k])
            h.append((w if sign > 0 else -w) - g[k])
    c1, c2 = sub(o, g), add(o, h)
    for cell, c in ((first, c1), (second, c2)):
        free = [i for i in cell if i not in q][0]
        rest = [pts[i] for i in cell if i != free]
        pts[free] = [len(cell) * c[k] - sum((p[k] for p in rest[1:]), rest[0][k]) for k in range(3)]
    A, B = dot(g, N), dot(add(g, h), N)
    R.assume_pos(A)
    R.assume_pos(B - A)
    R.assume_pos(B)
    line = add(g, h)
    L = R.root(dot(line, line), "|line|")
    R.scaled_root(y, B)
    R.scaled_root(y, A, L)
    R.scaled_root(y, B - A, L)
    return first, second, pts, (c1, c2), line, dict(N=N, y=y, A=A, B=B, L=L, area=area)


def _geometry(n, method):
    def f(D):
        if not D.symbolic:
            return exported(D, method)
        a = D.choice("face of the first cell", SLOTS[n])
        b = D.choice("face of the second cell", SLOTS[n])
        turn = D.choice("rotation", list(range(n))) if n == 3 else (a[1] + b[1]) % n
        r = random.Random("%s%s%s" % (a, b, turn))
        swap = r.random() < .5 if n == 3 else D.choice("order", [False, True])
        pattern = r.choice(PATTERNS) if r.random() < 0.6 else r.choice(ALIGNED)
        one_connection(D, method, a, b, turn, swap, pattern, r)
    f.__name__ = "connection_%s_through_a_%s" % (method, {3: "triangle", 4: "quadrangle"}[n])
    contract("C11", LINE if method == "line" else ORTHO, budget=150, samples=30, fallback=150, objarrays=True,
             bounded="two cells, every pair of faces; coordinates unbounded")(f)


def one_connection(D, method, a, b, turn, swap, pattern, r, flags=None):
    R = Ring(D)
    first, second, pts, centres, line, g = connected_pair(D, R, a, b, turn, pattern)
    number = list(range(len(pts)))
    r.shuffle(number)
    new = [None] * len(pts)
    for i, k in enumerate(number):
        new[k] = pts[i]
    cells = [(a[0], [number[i] for i in first]), (b[0], [number[i] for i in second])]
    sign = 1
    d = [g["A"], g["B"] - g["A"]]
    centres = list(centres)
    if swap:
        cells, d, centres, sign = cells[::-1], d[::-1], centres[::-1], -1
    blocks = [(cells[0][0], [cells[0][1], cells[1][1]])] if cells[0][0] == cells[1][0] else [(k, [c]) for k, c in cells]
    flags = flags if flags is not None else [int(r.random() < .25), int(r.random() < .25)]
    coord = r.random() < .5
    ln = r.choice([5, 5, 6, 7, 8, 9]) if method == "line" else 5
    ln = min(ln, 6)  # longer labels: see the contract on labels
    V = [R.positive("volume%d" % i) for i in (0, 1)]
    base = D.T("_mesh").Mesh

    class Measured(base):
        """Volumes are the matter of C09: here any positive numbers."""
        @property
        def volumes(self):
            out = np.empty(2, dtype=object)
            out[:] = V
            return out

    mesh = Measured(array(new), [(k, np.array(c, dtype=int)) for k, c in blocks])
    mesh.label_length = ln
    mesh.add_cell_data("material", np.array([1, 1]))
    if any(flags):
        mesh.add_cell_data("boundary_condition", np.array(flags))
    path = D.file("MESH")
    mesh.write_tough(path, nodal_distance=method, coord=coord)
    rec = blocks_of(D, path, ["ELEME"] + ["COORD"] * coord + ["CONNE"])
    num = Numbers(D, R)
    labels = [str(x) for x in mesh.labels]
    D.prove("one element record per cell", len(rec["ELEME"]) == 2)
    D.prove("one connection record per connection", len(rec["CONNE"]) == 1)
    for i in (0, 1):
        v = V[i] * 1e50 if flags[i] else V[i]
        check_eleme(D, num, rec["ELEME"][i], ln, labels[i], "1", v, centres[i])
    if coord:
        D.prove("one centre per cell", len(rec["COORD"]) == 2)
        for i in (0, 1):
            for k, (x, p) in enumerate(zip(record(D, rec["COORD"][i], LAYOUT["COORD"]), precs(LAYOUT["COORD"]))):
                num.same("COORD: centre", x, centres[i][k], p)
    L, y, B = g["L"], g["y"], g["B"]
    dist = [L * x / B if method == "line" else x / y for x in d]
    dist = [1.0e-9 if flags[i] else dist[i] for i in (0, 1)]
    axis = [k + 1 for k in range(3) if pattern[k]]
    check_conne(D, num, rec["CONNE"][0], ln, labels, axis[0] if len(axis) == 1 else 1, dist[0], dist[1], g["area"],
                -line[2] * sign / L)


for _m in ("line", "orthogonal"):
    for _n in (3, 4):
        _geometry(_n, _m)


@contract("C11", LINE + ORTHO, budget=60, samples=20, fallback=60, objarrays=True,
          bounded="two cells of the same type; coordinates unbounded")
def axes_and_boundaries(D):
    """Every orientation of the line, every combination of boundary flags."""
    if not D.symbolic:
        return exported(D, None)
    pattern = D.choice("line", PATTERNS)
    flags = D.choice("boundary", [[0, 0], [1, 0], [0, 1], [1, 1], [2, 0], [0, -1], [True, False], [3, 1]])
    method = ["line", "orthogonal"][(sum(map(bool, flags)) + pattern[0]) % 2]
    kind = ("wedge", 2) if sum(pattern) % 2 else ("wedge", 0)
    one_connection(D, method, kind, kind, 0, False, pattern, random.Random(str(pattern)), flags)


# ------------------------------------------------------------------ materials

def grid(D, n):
    return D.T("meshmaker").structured_grid([1.0 + i for i in range(n)], [1.0], [2.0])


def names_of(D, k):
    """k distinct material names of 1 to 5 characters, not readable as anything else."""
    lens = D.choice("lengths", [[5, 5, 5], [3, 5, 2], [1, 4, 5]])
    out = [D.text("rock%d" % i, lens[i], letters=(0,)) for i in range(k)]
    D.distinct(out)
    return out


@contract("C11", MESH + COORD, budget=100, samples=300, fallback=1500,
          bounded="four cells of up to three materials; names unbounded")
def materials(D):
    """Names are renamed, and the cells of the end materials follow the others, in mesh order."""
    k = D.choice("materials", [1, 2, 3])
    names = names_of(D, k)
    if D.symbolic:
        ids = D.choice("cells", {1: [[0, 0, 0, 0]], 2: [[0, 1, 1, 0]], 3: [[2, 0, 1, 2]]}[k])
    else:
        ids = [D.int("cell%d" % i, 0, k - 1) for i in range(4)]
    end = D.choice("end", ["none", "str", "padded", "list", "all"] if k > 1 else ["none", "str", "list"])
    ren = D.choice("renamed", ["none", "first", "all", "swap"] if k > 1 else ["none", "first"])
    mesh = grid(D, 4)
    number = [7, 3, 12] if D.symbolic else D.choice("numbers", [[1, 2, 3], [7, 3, 12]])
    mesh.cell_data["material"] = np.array([number[i] for i in ids])
    mesh.field_data = {n: np.array([number[i], 3]) for i, n in enumerate(names)}
    kw = {}
    last = []
    if end == "str":
        last, kw["material_end"] = [0], names[0]
    elif end == "padded":
        last, kw["material_end"] = [0], "{:5}".format(names[0])
    elif end == "list":
        last, kw["material_end"] = [k - 1], [names[k - 1], "qqqqq"]
    elif end == "all":
        last, kw["material_end"] = list(range(k)), tuple(names)
    shown = list(names)
    if ren != "none":
        new = D.text("new", D.choice("new length", [5, 2]), letters=(0,))
        D.distinct(names + [new])
        if ren == "first":
            kw["material_name"] = {names[0]: new}
            shown[0] = new
        elif ren == "all":
            kw["material_name"] = {n: new for n in names}
            shown = [new] * k
        else:
            kw["material_name"] = {names[0]: names[1], names[1]: names[0]}
            shown[0], shown[1] = names[1], names[0]
    for n in names:
        D.assume(D.not_(D.eqx(n, "qqqqq")))
    coord = D.choice("coord", [False, True])
    path = D.file("MESH")
    mesh.write_tough(path, coord=coord, **kw)
    rec = blocks_of(D, path, ["ELEME"] + ["COORD"] * coord + ["CONNE"])
    order = [i for i in range(4) if ids[i] not in last] + [i for i in range(4) if ids[i] in last]
    D.prove("one element record per cell", len(rec["ELEME"]) == 4)
    num = Numbers(D)
    labels = [str(x) for x in mesh.labels]
    x = [0.5, 2.0, 4.5, 8.0]
    for i, line in zip(order, rec["ELEME"]):
        check_eleme(D, num, line, 5, labels[i], shown[ids[i]], 2.0 * (1 + i), [x[i], 0.5, -1.0])
    if coord:
        D.prove("one centre per cell, in the order of the elements", len(rec["COORD"]) == 4)
        for i, line in zip(order, rec["COORD"]):
            D.same("COORD: centre", record(D, line, LAYOUT["COORD"]), [x[i], 0.5, -1.0])
    for i, line in enumerate(rec["CONNE"]):
        check_conne(D, num, line, 5, labels[i:i + 2], 1, (1 + i) / 2, (2 + i) / 2, 2.0, 0.0)
    D.prove("one connection record per connection", len(rec["CONNE"]) == 3)
    D.prove("materials of the mesh are unchanged", [int(m) for m in mesh.cell_data["material"]] == [number[i] for i in ids])


# ------------------------------------------------------------------ initial conditions

def incon_values(D, n, k):
    """n rows of k variables, undefined where None."""
    if D.symbolic:
        pats = [[1] * k, [0] * k, [1] + [0] * (k - 1), [0] * (k - 1) + [1], [(j + 1) % 2 for j in range(k)]]
    rows = []
    for i in range(n):
        if D.symbolic:
            p = D.choice("row %d" % i, pats if i == 0 else [pats[k < 5]])
        else:
            q = D.choice("row %d" % i, ["all", "none", "some", "some"])
            p = [q == "all" or q == "some" and D.bool("defined %d,%d" % (i, j)) for j in range(k)]
        rows.append([D.real("x%d,%d" % (i, j), -9.99e8, 1e12, edge=(0.0, -1.0, -1e-12), wide=not D.symbolic) if p[j] else None
                     for j in range(k)])
    return rows


def table(D, rows):
    a = np.empty(np.shape(rows) if np.ndim(rows) else len(rows), dtype=object)
    for i, r in enumerate(rows):
        if isinstance(r, list):
            for j, v in enumerate(r):
                a[i, j] = -1.0e9 if v is None else v
        else:
            a[i] = r
    return a if D.symbolic else a.astype(float)


@contract("C11", INCON, budget=150, samples=400, fallback=2000, objarrays=True,
          bounded="two or three cells, up to eight variables; values unbounded")
def initial_conditions(D):
    n = 2 if D.symbolic else 3
    k = D.choice("variables", [2, 4, 5, 8] if D.symbolic else list(range(1, 9)))
    rows = incon_values(D, n, k)
    if all(v is None for r in rows for v in r):
        return
    if D.symbolic:
        ln, how, porous, dims = D.choice("options", [(5, "write_tough", False, 0), (5, "write_incon", True, 0),
                                                     (6, "write_tough", True, 3), (6, "write_incon", False, 1)])
    else:
        porous, dims = D.choice("porosity", [False, True]), D.choice("permeability", [0, 1, 3])
        ln, how = D.choice("label length", [5, 6]), D.choice("how", ["write_tough", "write_incon"])

    def plain(name, lo, hi):
        x = D.real(name, lo, hi)
        D.assume(D.or_(D.eqx(x, 0), D.le(1e-90, x), D.le(x, -1e-90)))
        return x
    phi = [plain("phi%d" % i, 0.0, 1.0) for i in range(n)] if porous else None
    per = [[plain("k%d,%d" % (i, j), -1e30, 1e30) for j in range(dims)] for i in range(n)] if dims else None
    mesh = grid(D, n)
    mesh.label_length = ln
    mesh.add_cell_data("initial_condition", table(D, rows))
    if phi is not None:
        mesh.add_cell_data("porosity", table(D, phi))
    if per is not None:
        per_ = table(D, per)
        mesh.add_cell_data("permeability", per_[:, 0] if dims == 1 else per_)
    if how == "write_incon":
        path = D.file("INCON.new")
        mesh.write_incon(path)
    else:
        path = D.file("INCON")
        mesh.write_tough(D.file("MESH"), incon=True)
    rec = incon_records(D, path)
    labels = [str(x) for x in mesh.labels]
    num = Numbers(D)
    want = []
    for i in range(n):
        if phi is not None or per is not None or any(v is not None for v in rows[i]):
            want.append(i)
    size = 2 if k <= 4 else 3
    D.prove("one record per cell with a defined value", len(rec) == size * len(want), "%d lines, expected %d" % (len(rec), size * len(want)))
    f1, f2 = LAYOUT["INCON"][ln], LAYOUT["INCON"][0]
    for m, i in enumerate(want):
        lines = rec[size * m:size * m + size]
        if len(lines) < size:
            break
        one = [labels[i], None, None, phi[i] if phi is not None else None]
        one += per[i] if per is not None else []
        got = record(D, lines[0], f1)
        one += [None] * (len(got) - len(one))
        for g, w, p in zip(got, one, precs(f1)):
            D.prove("INCON: label, porosity and user values", D.eqx(g, w, p), "column holds %r, expected %r" % (g, w))
        for part in range(size - 1):
            vals = rows[i][4 * part:4 * part + 4]
            got = record(D, lines[1 + part], f2)
            vals = vals + [None] * (4 - len(vals))
            for g, w, p in zip(got, vals, precs(f2)):
                D.prove("INCON: exactly the defined variables", D.eqx(g, w, p), "column holds %r, expected %r" % (g, w))
    for i in range(n):
        for j in range(k):
            D.prove("the mesh is unchanged", D.eqx(mesh.cell_data["initial_condition"][i][j],
                                                   -1.0e9 if rows[i][j] is None else rows[i][j]))


def incon_records(D, path):
    """Lines of block INCON; a record of undefined variables is a blank line of its own."""
    with open(path, encoding="utf-8") as f:
        lines = f.read().split("\n")
    D.prove("block INCON", lines[0][:5] == "INCON")
    D.prove("the block ends with an empty line", len(lines) >= 3 and lines[-1] == "" and lines[-2] == "")
    return lines[1:-2]


# ------------------------------------------------------------------ sampled meshes

def content(mesh):
    out = [np.array(mesh.points), [(c.type, np.array(c.data)) for c in mesh.cells]]
    out += [(k, np.array(v)) for k, v in sorted(mesh.cell_data.items())]
    out += [(k, np.array(v)) for k, v in sorted(mesh.field_data.items())]
    return out


def alike(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def exported(D, method):
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    method = method or r.choice(["line", "orthogonal"])
    pts, cells, _ = G.hybrid_cells(r, kinds=r.choice(["h", "h", "hw", "hp", "hwp", "hwpt", "hpt"]))
    G.positively(pts, cells)
    pts, blocks = G.scramble(r, pts, cells, affine=r.random() < .6)
    flat = [(k, c) for k, b in blocks for c in b]
    n = len(flat)
    mesh = M.mesh_of(D.T, pts, blocks)
    ln = r.choice([None, 5, 5, 6, 7])
    mesh.label_length = ln
    ln = ln or 5
    names = r.sample(["ROCK1", "rock2", "ab", "x", "DFALT", "b 12"], r.randint(1, 4))
    numbers = r.sample(range(1, 20), len(names))
    ids = [r.randrange(len(names)) for _ in range(n)]
    mesh.add_cell_data("material", np.array([numbers[i] for i in ids]))
    mesh.field_data = {k: np.array([v, 3]) for k, v in zip(names, numbers)}
    kw = {}
    last = []
    if r.random() < .6:
        last = r.sample(names, r.randint(1, len(names)))
        kw["material_end"] = last[0] if len(last) == 1 and r.random() < .6 else r.choice([list, tuple])(last)
    shown = {k: k for k in names}
    if r.random() < .6:
        new = {k: r.choice(["new", "NEW12"] + names) for k in names if r.random() < .6}
        kw["material_name"] = dict(new)
        shown.update(new)
    flags = [r.random() < .2 for _ in range(n)] if r.random() < .6 else [False] * n
    if any(flags) or r.random() < .5:
        # anything but zero is a flag
        mark = r.choice([[True], [1], [1.0], [2, 1, -1]])
        mesh.add_cell_data("boundary_condition", np.array([r.choice(mark) if b else type(mark[0])(0) for b in flags]))
    coord = r.random() < .5
    before = content(mesh)
    path = D.file("MESH")
    mesh.write_tough(path, nodal_distance=method, coord=coord, **kw)
    D.prove("the mesh is not modified", alike(before, content(mesh)))
    if r.random() < .3:
        mesh.write_tough(path, nodal_distance=method, coord=coord, **kw)
    rec = blocks_of(D, path, ["ELEME"] + ["COORD"] * coord + ["CONNE"])
    labels = [str(x) for x in mesh.labels]
    order = [i for i in range(n) if names[ids[i]] not in last] + [i for i in range(n) if names[ids[i]] in last]
    p = [[list(map(float, pts[i])) for i in c] for k, c in flat]
    cs = [[sum(x[k] for x in q) / len(q) for k in range(3)] for q in p]
    size = max(abs(x) for q in p for y in q for x in y)
    num = Numbers(D)
    D.prove("one element record per cell", len(rec["ELEME"]) == n)
    for i, line in zip(order, rec["ELEME"]):
        v = M.volume6(flat[i][0], p[i]) / 6
        check_eleme(D, num, line, ln, labels[i], shown[names[ids[i]]], v * 1e50 if flags[i] else v, cs[i], size)
    if coord:
        D.prove("one centre per cell", len(rec["COORD"]) == n)
        for i, line in zip(order, rec["COORD"]):
            for k, x in enumerate(record(D, line, LAYOUT["COORD"])):
                num.same("COORD: centre", x, cs[i][k], (20, 13), 1e-9 * size)
    want = oracle(flat)
    pairs = [(i, k, j) for i in range(n) for j, k in enumerate(want[i]) if k > i]
    D.prove("one connection record per connection", len(rec["CONNE"]) == len(pairs), "%d, expected %d" % (len(rec["CONNE"]), len(pairs)))
    found = {}
    for line in rec["CONNE"]:
        found.setdefault(line[:2 * ln], []).append(line)
    for i, k, j in pairs:
        key = labels[i] + labels[k]
        flip = key not in found
        if flip:
            i, k = k, i
            j = want[i].index(k)
            key = labels[i] + labels[k]
        D.prove("connection of cells sharing a face", len(found.get(key, [])) == 1, "%s: %r" % (key, found.get(key)))
        if len(found.get(key, [])) != 1:
            continue
        face = [p[i][a] for a in FACES[flat[i][0]][j]]
        area, nrm = M.polygon(face)
        line = sub(cs[k], cs[i])
        L = M.norm(line)
        a, b = dot(sub(face[0], cs[i]), nrm), dot(line, nrm)
        d = [L * a / b, L * (b - a) / b] if method == "line" else [a, b - a]
        d = [1e-9 if flags[x] else abs(y) for x, y in zip((i, k), d)]
        axis = [x for x in range(3) if abs(line[x]) > 1e-9 * L]
        some = [x for x in range(3) if cs[k][x] != cs[i][x]]
        isot = [axis[0] + 1] if len(axis) == 1 else [1]
        if len(axis) == 1 and some != axis:
            isot.append(1)  # aligned up to round-off only
        if len(axis) == 1 and len(some) == 1 and r is not None:
            isot.append(1) if noisy(p[i], p[k], axis[0]) else None
        check_conne(D, num, found[key][0], ln, (labels[i], labels[k]), isot, d[0], d[1], area, -line[2] / L, size)


def noisy(a, b, axis):
    """The other coordinates of the two centres are sums of different numbers, equal up to round-off."""
    return any(float(np.array(a).mean(axis=0)[k]) != float(np.array(b).mean(axis=0)[k]) or
               [x[k] for x in a] != [x[k] for x in b] for k in range(3) if k != axis)


@contract("C11", LINE + ORTHO + COORD, symbolic=False, fallback=200, bounded="sampled conforming hybrid meshes of up to 72 cells")
def hybrid_meshes(D):
    exported(D, None)


@contract("C11", MESH, symbolic=False, fallback=10, bounded="sampled meshes without connections")
def unconnected(D):
    """Cells without neighbours still have their record."""
    n = D.int("n", 1, 3)
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    pts, conn = [], []
    for i in range(n):
        q = M.convex_cell("hexahedron", r)
        conn.append(list(range(len(pts), len(pts) + 8)))
        pts += q
    mesh = M.mesh_of(D.T, pts, [("hexahedron", conn)])
    path = D.file("MESH")
    mesh.write_tough(path)
    with open(path) as f:
        lines = f.read().split("\n")
    D.prove("one element record per cell", [x[:5] for x in lines[1:n + 2]] == [str(x) for x in mesh.labels] + [""])
    D.prove("no connection", lines[n + 2][:5] == "CONNE" and not any(lines[n + 3:]))


def _column(D, n):
    mk = D.T("meshmaker")
    return mk.structured_grid([1.0], [2.0], [1.0 + i for i in range(n)])


@contract("C11", MESH + INCON, symbolic=False, fallback=40, bounded="sampled columns of cells")
def incon_or_not(D):
    """INCON is written beside MESH when it is asked for and something is defined, and only then."""
    import os
    n = D.int("cells", 1, 4)
    mesh = _column(D, n)
    asked = D.choice("incon", [None, False, True])
    defined = D.choice("variables", ["none", "nothing", "one", "all"])
    if defined != "none":
        pv = np.full((n, 3), -1.0e9)
        if defined == "one":
            pv[n - 1, 1] = 0.0
        elif defined == "all":
            pv[:] = -5.0 + np.arange(3.0 * n).reshape(n, 3)
        mesh.add_cell_data("initial_condition", pv)
    if D.choice("porosity", [False, True]):
        mesh.add_cell_data("porosity", np.full(n, 0.25))
    here = D.scratch()
    path = os.path.join(here, D.choice("name", ["MESH", "mesh.txt"]))
    kw = {} if asked is None else {"incon": asked}
    if D.choice("how", [False, True]):
        mesh.write_tough(path, **kw)
    else:
        mesh.write(path, file_format="tough", **kw)
    want = [os.path.basename(path)] + (["INCON"] if asked and defined in ("one", "all") else [])
    D.prove("the files written", sorted(os.listdir(here)) == sorted(want), "%r" % (os.listdir(here),))


@contract("C11", ["toughio._mesh.tough._tough.read"] + MESH, symbolic=False, fallback=40, bounded="sampled columns of cells")
def read_back(D):
    """What is read from MESH through the mesh reader is what the input reader finds in it."""
    n = D.int("cells", 1, 5)
    mesh = _column(D, n)
    ln = D.choice("length", [None, 5, 6, 8])
    if ln:
        mesh.label_length = ln
    path = D.file("MESH")
    mesh.write_tough(path)
    kw = {} if ln in (None, 5) and D.choice("inferred", [False, True]) else {"label_length": ln or 5}
    got = D.T("_mesh").read(path, file_format="tough", **kw)
    labels = [str(x) for x in mesh.labels]
    D.prove("elements", list(got["elements"]) == labels and got["elements_order"] == labels)
    D.prove("connections", len(got.get("connections", {})) == n - 1 and
            all(k in (a + b, b + a) for k, a, b in zip(got.get("connections", {}), labels, labels[1:])))
    for k, v, c in zip(labels, mesh.volumes, mesh.centers):
        e = got["elements"][k]
        D.prove("volume", abs(e["volume"] - v) <= 1e-4 * v)
        D.prove("centre", np.allclose(np.asarray(e["center"], dtype=float), c, rtol=1e-4, atol=1e-6))
