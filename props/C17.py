"""C17: simulation output survives conversion between formats."""
import itertools
import random

import numpy as np

from pyvc.domain import contract

COMMON = ["toughio._io.output._helpers." + f for f in ("read", "write", "get_output_type")] + ["toughio._io.output._common.to_output"]
CSV = COMMON + ["toughio._io.output.csv._csv." + f for f in ("read", "_read_csv", "write", "_write_csv")]
PETRASIM = COMMON + ["toughio._io.output.petrasim._petrasim." + f for f in ("read", "write")]
TECPLOT = COMMON + ["toughio._io.output.tecplot._tecplot." + f for f in ("read", "write")] + [
    "toughio._mesh.tecplot._tecplot._read_variables", "toughio._mesh.tecplot._tecplot._read_zone"]
ORDER = ["toughio._io.output._common.reorder_labels", "toughio._io.output._common.to_output"]

VARIABLES = [["P", "T"], ["X", "Y", "Z", "P"], ["SAT_G", "X", "Z", "Y"], ["Y", "DG", "X"], ["HEAT", "FLOW_G", "X_NACL"]]
NAMES = ["P", "T", "PRES", "TEMP", "SAT_G", "SAT_L", "DG", "DW", "XCO2aq", "K(gas)", "X", "Y", "Z", "PCAP", "DEN_L", "VIS", "X1", "x_"]


# digits after the point of a printed time: two times are told apart beyond them
DIGITS = {"csv": 8, "petrasim": 12, "tecplot": 7}


class Sym:
    def __init__(self, D, variables=None):
        self.D = D
        self.nt, self.nl = D.choice("time steps and labels", [(1, 1), (2, 2), (1, 3), (3, 1)])
        self.names = D.choice("variables", variables or VARIABLES)
        self.narrow = variables is not None

    def time(self, i, digits=7):
        return self.D.real("time %d" % i, 0, 1e300)

    def value(self, name):
        # three-digit exponents change the layout of Tecplot records: one such value at a time there
        big = not self.narrow or name.endswith(" 0,0") and name.startswith(self.names[-1])
        m, t = (1e300, 1e-300) if big else (9e98, 1e-98)
        x = self.D.real(name, -m, m)
        self.D.assume(self.D.or_(x == 0, x >= t, x <= -t))
        return x

    def label(self, name, n=5):
        return self.D.text(name, n, alphabet="alnum")


class Rand:
    def __init__(self, D, variables=None):
        self.D, self.r = D, random.Random(D.int("seed", 0, 2 ** 31))
        self.nt = self.r.randint(1, 4)
        self.nl = self.r.choice([1, 2, 5, self.r.randint(1, 40)])
        names = self.r.sample(NAMES, self.r.randint(1, len(NAMES)))
        if variables:
            names = list(dict.fromkeys(names + ["X", "Y"]))
            self.r.shuffle(names)
        self.names = names
        self.pool = []
        self.last = self.r.choice([0.0, self.r.uniform(0, 1e5)])

    def time(self, i, digits=7):
        if i:
            near = 3 * 10.0 ** -digits
            step = self.r.choice([near, 10 ** self.r.uniform(-5, 3)])
            self.last = self.last * (1 + step) + (self.r.choice([1.0, 1e3, 1e-9, 1e-30]) if not self.last or step != near else 0.0)
        return self.last

    def value(self, name):
        r = self.r
        return r.choice([0.0, 1.0, -1.0, r.uniform(-1, 1), -r.random() * 10 ** r.uniform(-300, 300), r.random() * 10 ** r.uniform(-300, 300)])

    def label(self, name, n=5):
        import string
        r = self.r
        while True:
            s = r.choice(string.ascii_uppercase) + "".join(r.choice(string.ascii_uppercase + string.digits + " _-+.") for _ in range(2)) + \
                r.choice([" ", "1", "9", "0"]) + "".join(r.choice(string.digits) for _ in range(r.choice([1, 1, 1, 2, 4])))
            if self.pool and r.random() < .2:   # one that is almost the same
                s = r.choice(self.pool)
                s = r.choice([s.lower()[:3] + s[3:], s[:1] + s[1:].swapcase(), s[0] + s[2] + s[1] + s[3:], s[:2] + " " + s[3:],
                              s[0] + s[1:3][::-1].swapcase() + s[3:]])
            if s not in self.pool and not s.startswith("TIME"):
                self.pool.append(s)
                return s


def outputs(D, V, kind, fmt):
    """Outputs of the real type for every time step; (outputs, times, labels, values)."""
    O = D.T("_io.output._common").Output
    times = [V.time(i, DIGITS[fmt]) for i in range(V.nt)]
    for a, b in zip(times, times[1:]):
        D.assume(b - a > 2 * 10.0 ** -DIGITS[fmt] * b) if D.symbolic else None
    if kind == "element":
        labels = [V.label("label %d" % j) for j in range(V.nl)]
        if D.symbolic:
            D.distinct(labels)
    else:
        labels = [[V.label("label %d.%d" % (j, k)) for k in range(2)] for j in range(V.nl)]
    values = [{k: [V.value("%s %d,%d" % (k, i, j)) for j in range(V.nl)] for k in V.names} for i in range(V.nt)]
    out = []
    for t, v in zip(times, values):
        data = {}
        for k in V.names:
            a = np.empty(V.nl, dtype=object if D.symbolic else float)
            a[:] = v[k]
            data[k] = a
        out.append(O(kind, fmt, t, np.array(labels), data))
    return out, times, labels, values


def own_order(D, V, out, labels, values):
    """The same outputs, each with its rows and its variables in an order of its own; (outputs, labels, values)."""
    new, ll, vv = [], [], []
    for i, o in enumerate(out):
        p = list(range(V.nl))
        keys = list(o.data)
        if D.symbolic:
            p = p[i % V.nl:] + p[:i % V.nl]
            keys = keys[::-1] if i % 2 else keys
        else:
            V.r.shuffle(p)
            V.r.shuffle(keys)
        new.append(o._replace(labels=o.labels[p], data={k: o.data[k][p] for k in keys}))
        ll.append([labels[j] for j in p])
        vv.append({k: [v[j] for j in p] for k, v in values[i].items()})
    return new, ll, vv


def compare(D, got, kind, times, labels, values, names, tprec, prec=12, label=True, each=False):
    """each: every time step has labels of its own."""
    D.prove("one output per time step", len(got) == len(times), "%d for %d" % (len(got), len(times)))
    for i, o in enumerate(got):
        if i >= len(times):
            break
        D.prove("type of the data", o.type == kind)
        D.same("time", o.time, times[i], tprec)
        mine = labels[i] if each else labels
        if label:
            D.prove("labels.len", len(o.labels) == len(mine))
            for a, b in zip(o.labels, mine):
                if kind == "element":
                    D.same("label", str(a), b)
                else:
                    D.same("labels of a connection", [str(x) for x in a], list(b))
        D.prove("variables", sorted(o.data) == sorted(names), "%r" % (sorted(o.data),))
        for k in names:
            if k not in o.data:
                continue
            D.prove("one value per label", len(o.data[k]) == len(mine))
            for j, x in enumerate(o.data[k]):
                D.same("value of a variable for a label", x, values[i][k][j], prec)


def roundtrip(name, fmt, functions, ext, variables=None, kinds=("element",), tprec=12, label=True, **kw):
    def f(D):
        kind = D.choice("type", list(kinds))
        V = (Sym if D.symbolic else Rand)(D, variables)
        out, times, labels, values = outputs(D, V, kind, fmt)
        each = V.nt > 1 and V.nl > 1 and (D.symbolic or V.r.random() < 0.5)
        if each:
            out, labels, values = own_order(D, V, out, labels, values)
        h = D.T("_io.output._helpers")
        path = D.file("output." + ext)
        orders = [list(o.data) for o in out]
        single = V.nt == 1 and D.choice("one output", [True, False])
        h.write(path, out[0] if single else out, file_format=fmt)
        got = h.read(path)
        compare(D, got, kind, times, labels, values, V.names, tprec, label=label, each=each)
        # what was given is left as it was
        for o, t, v, k0 in zip(out, times, values, orders):
            D.prove("the output given is not modified", o.time is t and list(o.data) == k0
                    and all(x is y or x == y for k in V.names for x, y in zip(o.data[k], v[k])))
    f.__name__ = name
    contract("C17", functions, budget=120, samples=80, fallback=600, objarrays=True, max_paths=4000, prove_ms=6000,
             bounded="up to three time steps and three labels, five sets of variables; values, times and labels unbounded", **kw)(f)


XYZ = [v for v in VARIABLES if "X" in v and "Y" in v]
roundtrip("csv", "csv", CSV, "csv", kinds=("element", "connection"), tprec=8)
roundtrip("petrasim", "petrasim", PETRASIM, "csv")
roundtrip("tecplot", "tecplot", TECPLOT, "tec", variables=XYZ, tprec=7, label=False)


# ------------------------------------------------------------------ order of the labels

@contract("C17", ORDER, budget=60, samples=100, fallback=400, objarrays=True, bounded="three labels and up to two time steps; values unbounded")
def order(D):
    O = D.T("_io.output._common").Output
    if D.symbolic:
        n, nt = 3, D.choice("time steps", [1, 2])
        labels = ["AAA 0", "AAA 1", "ZZ910"]
        perm = D.choice("permutation", [list(p) for p in itertools.permutations(range(n))])
        value = lambda name: D.real(name)  # noqa: E731
    else:
        r = random.Random(D.int("seed", 0, 2 ** 31))
        n, nt = r.randint(1, 30), r.randint(1, 3)
        labels = ["A%s%2d" % (c, i // 5) for i, c in zip(range(n), itertools.cycle(["AA", "1Z", "B ", "aa", " B"]))]
        perm = r.sample(range(n), n)
        value = lambda name: r.uniform(-1, 1)  # noqa: E731
    wide = D.choice("columns", [0, 2])
    want = [labels[i] for i in perm]
    given = D.choice("form", [list, tuple, np.array])(want)
    values = [{k: [value("%s %d,%d" % (k, i, j)) for j in range(n)] for k in ("P", "T")} for i in range(nt)]
    vecs = [[[value("v %d,%d,%d" % (i, j, k)) for k in range(wide)] for j in range(n)] for i in range(nt)]
    how = D.choice("through", ["reorder_labels", "to_output"])
    dt = object if D.symbolic else float
    c = D.T("_io.output._common")
    if how == "to_output":
        rows = [np.array([[values[i][k][j] for k in ("P", "T")] for j in range(n)], dtype=dt) for i in range(nt)]
        out = c.to_output("element", "csv", given, ["P", "T"], [float(i) for i in range(nt)], [list(labels)] * nt, rows)
        D.prove("one output per time step", len(out) == nt)
    else:
        out = []
        for i in range(nt):
            data = {k: np.array(values[i][k], dtype=dt) for k in ("P", "T")}
            if wide:
                data["v"] = np.array(vecs[i], dtype=dt)
            out.append(c.reorder_labels(O("element", "csv", float(i), np.array(labels), data), given))
    for i, o in enumerate(out):
        D.prove("the labels are those of the list, in its order", [str(x) for x in o.labels] == want, "%r" % (o.labels,))
        D.prove("time", o.time == i)
        for j, p in enumerate(perm):
            for k in ("P", "T"):
                D.prove("a label keeps its own values", o.data[k][j] is values[i][k][p] or o.data[k][j] == values[i][k][p], "%s of %s" % (k, want[j]))
            if "v" in o.data:
                D.prove("a label keeps its own vectors", all(x == y for x, y in zip(o.data["v"][j], vecs[i][p])))


@contract("C17", ORDER, budget=30, samples=40, fallback=200, bounded="up to four labels")
def lists_that_do_not_cover(D):
    c = D.T("_io.output._common")
    labels = D.choice("labels", [["A"], ["A", "B"], ["A", "B", "C"]])
    bad = D.choice("list", [[], ["A", "A"], ["B"], ["A", "B", "D"], ["A", "B", "B"], ["D", "E"], ["A", "B", "C", "D"], ["C", "C", "A"], ["A", "B", "A", "B"]])
    if sorted(bad) == sorted(labels):
        return
    form = D.choice("form", [list, tuple, np.array])
    data = {"P": np.arange(float(len(labels)))}
    o = c.Output("element", "csv", 0.0, np.array(labels), data)
    D.raises("a list that does not cover the labels is rejected", (ValueError, KeyError), lambda: c.reorder_labels(o, form(bad)))
    D.prove("the output is left as it was", list(o.labels) == labels and list(o.data["P"]) == list(range(len(labels))))


@contract("C17", CSV + PETRASIM + ORDER, symbolic=False, fallback=80, bounded="sampled outputs")
def order_while_reading(D):
    """read(labels_order=...) for every format that stores labels."""
    V = Rand(D)
    r = V.r
    fmt = r.choice(["csv", "petrasim"])
    out, times, labels, values = outputs(D, V, "element", fmt)
    h = D.T("_io.output._helpers")
    path = D.file("output.csv")
    h.write(path, out, file_format=fmt)
    perm = r.sample(range(V.nl), V.nl)
    want = [labels[i] for i in perm]
    got = h.read(path, labels_order=r.choice([list, tuple, np.array])(want))
    compare(D, got, "element", times, want, [{k: [x[i] for i in perm] for k, x in v.items()} for v in values], V.names, 8)
    bad = r.choice([want + ["QQQQQ"], want[:-1], want[:-1] + ["QQQQQ"]])
    if bad:
        D.raises("a list that does not cover the labels is rejected", (ValueError, KeyError), lambda: h.read(path, labels_order=bad))


@contract("C17", PETRASIM, symbolic=False, fallback=40, bounded="sampled outputs")
def petrasim_index(D):
    """The rows of every time step are numbered from one, as the program that reads them expects."""
    V = Rand(D)
    out, times, labels, values = outputs(D, V, "element", "petrasim")
    path = D.file("output.csv")
    D.T("_io.output._helpers").write(path, out, file_format="petrasim")
    with open(path) as f:
        rows = [x.rstrip("\n").split(",") for x in f][1:]
    D.prove("one row per time step and label", len(rows) == V.nt * V.nl)
    D.prove("rows are numbered in every time step", [int(x[2]) for x in rows] == list(range(1, V.nl + 1)) * V.nt)


@contract("C17", COMMON[2:3], symbolic=False, fallback=20, bounded="sampled files")
def unknown_files(D):
    path = D.file("output.csv")
    with open(path, "w") as f:
        f.write(D.choice("file", ["\n\nELEM\n", "X,Y,Z\n1,2,3\n", '"LABEL"\n', "ELEME\nAAA 1\n", "\n", "nothing\n", "ELEM3,P\n"]))
    D.raises("a file in no known format is refused", (ValueError, KeyError), lambda: D.T("_io.output._helpers").read(path))


@contract("C17", ["toughio._common.filetype_from_filename"] + COMMON[:3], symbolic=False, fallback=30, bounded="sampled outputs")
def extensions(D):
    """The format follows the extension when none is given, in capitals or not."""
    V = Rand(D, XYZ)
    ext = D.choice("extension", [".csv", ".tec", ".CSV", ".Tec"])
    fmt = ext[1:].lower().replace("tec", "tecplot")
    out, times, labels, values = outputs(D, V, "element", fmt)
    path = D.file("output.x" + ext)
    h = D.T("_io.output._helpers")
    h.write(path, out)
    D.prove("the format of the extension", h.get_output_type(path) == ("element", fmt))
    compare(D, h.read(path), "element", times, labels, values, V.names, 7, prec=7, label=fmt == "csv")
