"""C21: command-line tools transform files without losing content."""
import os
import random
import string

from props.pairs import config
from pyvc.domain import contract

MERGE = ["toughio._cli._merge.merge"]
SAVE = ["toughio._cli._save2incon.save2incon"]
EXTRACT = ["toughio._cli._extract.extract", "toughio._io.output.tough._tough.read", "toughio._io.output.tough._tough._read_table",
           "toughio._io.output._helpers.get_output_type", "toughio._io.output._helpers.read", "toughio._io.output._helpers.write",
           "toughio._io.output._common.to_output", "toughio._mesh.tough._tough.read"]

BEFORE = "an existing target\nof another run\n"


def put(path, text):
    with open(path, "w", newline="") as f:
        f.write(text)


def content(path):
    with open(path, "r", newline="") as f:
        return f.read()


def words(D, r, name, n):
    """A line of text of n characters that no tool gives a meaning to."""
    if D.symbolic:
        return D.text(name, n, alphabet="alnum") if n else ""
    s = "".join(r.choice(string.ascii_letters + string.digits + " .-+_,*$") for _ in range(n))
    return s


END = ("ENDCY", "ENDFI")


def is_end(s):
    return s.upper()[:5] in END


def plain(D, r, name):
    """A line that does not end the input file."""
    if D.symbolic:
        s = words(D, r, name, 7)
        for k in END:
            D.assume(D.not_(D.and_(*[D.or_(D.eqx(x, y), D.eqx(x, y.lower())) for x, y in zip(s, k)])))
        return s
    while True:
        s = words(D, r, name, r.choice([0, 1, 4, 5, 6, 40, 80, 100]))
        if not is_end(s):
            return s


def compare_lines(D, name, path, want):
    got = content(path).splitlines(True)
    D.prove(name + ": number of lines", len(got) == len(want), "%d for %d" % (len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        D.same(name + ": a line", a, b)


class Inside:
    """Run with the given directory as the current one."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.path)

    def __exit__(self, *a):
        os.chdir(self.old)


MERGES = {
    "case": [str, str.lower, str.capitalize],
    "after a keyword": ["", "----1----*----2"],
    "lines of a block": [1, 2],
    "PARAM first": [False, True],
    "end": list(END),
    "after the end": ["", "----1----*", " and more"],
    "lines after the end": [0, 2],
    "terminated": [True, False],
    "elements": [1, 2],
    "conditions": [None, 1, 2],
    "last line of MESH": [True, False],
    "last line of INCON": [True, False],
    "directory": ["current", "absolute", "relative"],
    "target": ["new", "existing", "in place"],
}


@contract("C21", MERGE, budget=60, samples=200, fallback=800,
          bounded="up to three lines in each part; their text unbounded (sampled: any number of lines)")
def merge(D):
    r = None if D.symbolic else random.Random(D.int("geometry", 0, 2 ** 31))
    o = config(D, MERGES)
    k = [0]

    def lines(m):
        out = []
        for _ in range(m if D.symbolic else r.choice([1, 2, 3, r.randint(1, 60)]) if m else 0):
            k[0] += 1
            out.append(plain(D, r, "line %d" % k[0]) + "\n")
        return out

    case, tail = o["case"], o["after a keyword"] + "\n"
    blocks = [[case(b) + tail] + lines(o["lines of a block"]) + ["\n"] for b in ("ROCKS", "PARAM")]
    if o["PARAM first"]:
        blocks.reverse()
    before = lines(1) + [x for b in blocks for x in b]
    after = [case(o["end"]) + o["after the end"] + "\n"] + lines(o["lines after the end"])
    if not o["terminated"] and len(after[-1]) > 1:
        after[-1] = after[-1][:-1]
    files = {"MESH": ["ELEME" + tail] + lines(o["elements"]) + ["\n", "CONNE\n"] + lines(1) + ["\n"], "INCON": []}
    if o["conditions"]:
        files["INCON"] = ["INCON" + tail] + lines(o["conditions"]) + ["\n"]
    stored = {}
    for name, x in files.items():
        if x and not o["last line of " + name]:
            while x[-1] == "\n":
                x.pop()
            stored[name] = "".join(x)[:-1]      # the last line is not terminated
        elif x:
            stored[name] = "".join(x)
    where = o["directory"]
    base = D.scratch()
    sub = os.path.join(base, "case") if where == "relative" else base
    os.makedirs(sub, exist_ok=True)
    put(os.path.join(sub, "INFILE"), "".join(before + after))
    for name, t in stored.items():
        put(os.path.join(sub, name), t)
    infile = {"current": "INFILE", "absolute": os.path.join(base, "INFILE"), "relative": "case/INFILE"}[where]
    out = o["target"]
    target = os.path.join(sub, "INFILE") if out == "in place" else os.path.join(base, "TARGET")
    if out == "existing":
        put(target, BEFORE)
    with Inside(base):
        D.T("_cli._merge").merge([infile, infile if out == "in place" else os.path.basename(target)])
    compare_lines(D, "merged file", target, before + files["MESH"] + files["INCON"] + after)
    if out != "in place":
        compare_lines(D, "the input file is left as it was", os.path.join(sub, "INFILE"), before + after)
    for name, t in stored.items():
        D.prove("MESH and INCON are left as they were", content(os.path.join(sub, name)) == t)


REASONS = ["no infile", "infile is a directory", "no MESH", "empty MESH", "MESH without ELEME", "INCON without INCON", "empty INCON",
           "no ROCKS", "no PARAM", "no end", "empty infile", "end inside a line"]


@contract("C21", MERGE, budget=60, samples=150, fallback=500, bounded="twelve kinds of unusable input; text of the lines unbounded")
def merge_rejects(D):
    why = D.choice("why", REASONS)
    r = None if D.symbolic else random.Random(D.int("geometry", 0, 2 ** 31))
    k = [0]

    def line():
        k[0] += 1
        return "x" + plain(D, r, "line %d" % k[0]) + "\n"

    parts = [line(), "ROCKS----1\n", line(), "\n", "PARAM----1\n", line(), "ENDCY\n", line()]
    drop = {"no ROCKS": "ROCKS", "no PARAM": "PARAM", "no end": "ENDCY"}.get(why)
    if drop:
        how = D.choice("how", ["gone", "indented"])
        parts = [(" " + x if how == "indented" else "") if x.startswith(drop) else x for x in parts]
    if why == "end inside a line":
        parts = ["x" + x if x.startswith("ENDCY") else x for x in parts]
    mesh = ["ELEME\n", line(), "\n"]
    incon = ["INCON\n", line(), "\n"]
    if why == "MESH without ELEME":
        mesh = D.choice("MESH", [["CONNE\n", line()], [" ELEME\n"], ["\n", "ELEME\n"], ["INCON\n"]])
    if why == "INCON without INCON":
        incon = D.choice("INCON", [["ELEME\n", line()], [" INCON\n"], ["\n", "INCON\n"]])
    base = D.scratch()
    os.makedirs(base, exist_ok=True)
    p = lambda x: os.path.join(base, x)  # noqa: E731
    if why == "infile is a directory":
        os.makedirs(p("INFILE"))
    elif why != "no infile":
        put(p("INFILE"), "" if why == "empty infile" else "".join(parts))
    if why != "no MESH":
        put(p("MESH"), "" if why == "empty MESH" else "".join(mesh))
    if why.endswith("INCON") or D.bool("INCON present"):
        put(p("INCON"), "" if why == "empty INCON" else "".join(incon))
    out = D.choice("target", ["new", "existing", "in place"])
    if out == "in place" and why in ("no infile", "infile is a directory"):
        return
    target = p("INFILE" if out == "in place" else "TARGET")
    if out == "existing":
        put(target, BEFORE)
    old = {x: content(p(x)) for x in os.listdir(base) if os.path.isfile(p(x))}
    D.raises("unusable input is rejected", (ValueError, IndexError), lambda: D.T("_cli._merge").merge([p("INFILE"), target]))
    new = {x: content(p(x)) for x in os.listdir(base) if os.path.isfile(p(x))}
    D.prove("nothing is written for unusable input", new == old, "%r for %r" % (sorted(new), sorted(old)))


SAVES = {
    "header": ["", " -- INITIAL CONDITIONS FOR     3 ELEMENTS AT TIME  0.100000E+01"],
    "lines": [1, 2],
    "start of a line": ["", "+", "++ ", " +++"],
    "tail": ["+++", "+++ and more", "blank", "nothing"],
    "several restart lines": [True, False],
    "terminated": [True, False],
    "reset": [[], ["--reset"], ["-r"]],
    "target": ["new", "existing", "in place"],
    "options": ["first", "last"],
}


@contract("C21", SAVE, budget=60, samples=200, fallback=800, bounded="up to four lines; their text unbounded (sampled: any number of lines)")
def save2incon(D):
    r = None if D.symbolic else random.Random(D.int("geometry", 0, 2 ** 31))
    o = config(D, SAVES)
    head = "INCON" + o["header"]
    body = []
    for i in range(o["lines"] if D.symbolic else r.choice([1, 2, r.randint(1, 100)])):
        x = o["start of a line"] + words(D, r, "line %d" % i, 9 if D.symbolic else r.choice([1, 5, 20, 80])) + "\n"
        body.append("A" + x if not D.symbolic and x.startswith("+++") else x)
    tail, reset = o["tail"], o["reset"]
    rest = []
    if tail.startswith("+++"):
        rest = [tail + "\n", "   10   23   10 0.00000000E+00 0.10000000E+01\n"]
        if o["several restart lines"]:
            rest += [words(D, r, "restart", 6) + "\n", "+++\n", "   11\n"]
    elif tail == "blank":
        rest = ["\n"]
    lines = [head + "\n"] + body + rest
    if not o["terminated"] and (tail.startswith("+++") or not reset):
        lines[-1] = lines[-1][:-1]
        if not lines[-1]:
            lines.pop()
    base = D.scratch()
    os.makedirs(base, exist_ok=True)
    p = lambda x: os.path.join(base, x)  # noqa: E731
    put(p("SAVE"), "".join(lines))
    out = o["target"]
    target = p("SAVE" if out == "in place" else "INCON")
    if out == "existing":
        put(target, BEFORE * 10)
    argv = [p("SAVE"), target]
    D.T("_cli._save2incon").save2incon(reset + argv if o["options"] == "first" else argv + reset)
    if not reset:
        want = lines
    elif tail.startswith("+++"):
        want = [head + "\n"] + body + ["\n"]
    else:
        want = None
    if want is not None:
        compare_lines(D, "converted file", target, want)
    else:
        got = content(target)
        D.prove("every line of the SAVE file is kept", got.startswith("".join(lines)), "%r" % got[-200:])
        rest = got[len("".join(lines)):]
        D.prove("the block is closed with a blank line", got.endswith("\n") and not rest.strip("\n"))
    if out != "in place":
        D.prove("the SAVE file is left as it was", content(p("SAVE")) == "".join(lines))


@contract("C21", SAVE, budget=30, samples=80, fallback=300, bounded="six kinds of unusable input")
def save2incon_rejects(D):
    why = D.choice("why", ["missing", "directory", "empty", "blank first", "other block", "indented"])
    r = None if D.symbolic else random.Random(D.int("geometry", 0, 2 ** 31))
    base = D.scratch()
    os.makedirs(base, exist_ok=True)
    p = lambda x: os.path.join(base, x)  # noqa: E731
    body = words(D, r, "line", 8) + "\n"
    if why == "directory":
        os.makedirs(p("SAVE"))
    elif why != "missing":
        put(p("SAVE"), {"empty": "", "blank first": "\nINCON\n" + body, "other block": "ELEME\n" + body, "indented": " INCON\n" + body}[why])
    out = D.choice("target", ["new", "existing", "in place"])
    if out == "in place" and why in ("missing", "directory"):
        return
    target = p("SAVE" if out == "in place" else "INCON")
    if out == "existing":
        put(target, BEFORE)
    old = {x: content(p(x)) for x in os.listdir(base) if os.path.isfile(p(x))}
    D.raises("unusable input is rejected", (ValueError, IndexError), lambda: D.T("_cli._save2incon").save2incon(
        [p("SAVE"), target] + D.choice("reset", [[], ["-r"]])))
    new = {x: content(p(x)) for x in os.listdir(base) if os.path.isfile(p(x))}
    D.prove("nothing is written for unusable input", new == old)


# ------------------------------------------------------------------ extract

POOL = {
    5: ["A1 10", "AA1 1", "ZZ910", "B-2 7", "Q0012"],
    6: ["A1 101", "AA1 12", "ZZ9102", "B-2 70", "Q00127"],
    8: ["A1 10123", "AA1 1234", "ZZ910245", "B-2 7012", "Q0012700"],
}
VARS = [["P"], ["P", "T"], ["P", "T", "SAT_G", "X(NACL)", "K"]]
FLOWS = [["HEAT"], ["HEAT", "FLOW", "VEL_L", "VEL_G"]]
EXT = {"csv": ".csv", "tecplot": ".tec", "petrasim": ".csv"}
TPREC = {"csv": 8, "tecplot": 7, "petrasim": 12}


def number(D, r, name, big=9e98, tiny=1e-98):
    if D.symbolic:
        x = D.real(name, -big, big)
        D.assume(D.or_(x == 0, x >= tiny, x <= -tiny))
        return x
    return r.choice([0.0, 1.0, r.uniform(-1, 1), -r.random() * 10 ** r.uniform(-90, 90), r.random() * 10 ** r.uniform(-30, 30)])


def printed(D, x, f):
    """The text of a number, and the number this text stands for."""
    s = ("{:%s}" % f).format(x)
    return s, D.field(s, "real")


def eleme(D, labels, centers, width):
    """MESH file; the centres as it stores them."""
    stored = {}
    lines = ["ELEME----1----*----2"]
    for label in labels:
        t = [printed(D, x, "10.3e") for x in centers[label]]
        stored[label] = [v for _, v in t]
        lines.append(label + " " * (15 - len(label)) + "ROCK1" + "1.0000e+00" + " " * 20 + "".join([s for s, _ in t]))
    lines += ["", "CONNE", labels[0] + labels[-1] + " " * (30 - 2 * width - 1) + "1" + "1.0000e+00" * 3, ""]
    return "".join([x + "\n" for x in lines]), stored


def listing(D, start, times, rows, names, kind, pages, connections=None, blank=" "):
    """TOUGH main output file: tables of every time; blank: between the columns of the table extracted."""
    bar = " " + "@" * 60
    out = {"blank": ["", bar], "page": ["1      @@@@@" + "@" * 20]}[start]
    out += ["", "          OUTPUT DATA AFTER (  10,  2)-2-TIME STEPS", ""]
    for i, t in enumerate(times):
        out += [bar, "", "   TOTAL TIME     KCYC   ITER  ITERC   KON", " %s    %d     2     5     2" % (t, i + 1), bar, ""]
        tables = [("element", " ELEM.  INDEX    ", rows)]
        if connections is not None:
            tables.append(("connection", " ELEM1  ELEM2  INDEX   ", connections))
        for what, head, table in tables:
            keys, values = table
            head = head + "  ".join(names if what == kind else ["OTHER%d" % k for k in range(3)])
            units = " " * 20 + "(PA)      (DEG-C)"
            out += [head, units, ""]
            for j, key in enumerate(keys):
                if pages and j == 1:
                    out += ["", head, units, ""]
                if what == kind:
                    label = key if what == "element" else "  ".join(key)
                    out.append(" %s %6d%s%s" % (label, j + 1, blank, blank.join(values[i][j])))
                else:
                    label = key if what == "element" else "  ".join(key)
                    out.append(" %s %6d %s" % (label, j + 1, " ".join(["7.00000E+07"] * 3)))
            out += [bar, ""]
    out += [" END OF TOUGH SIMULATION RUN"]
    return "".join([x + "\n" for x in out])


SCENE = {
    "characters in a label": [5, 6, 8],
    "sizes": [(1, 1), (3, 1), (2, 2)],
    "MESH reversed": [True, False],
    "elements": VARS,
    "connections": FLOWS,
    "other tables": [True, False],
    "start": ["blank", "page"],
    "pages": [True, False],
    "format": ["csv", "tecplot", "petrasim"],
    "connection option": ["--connection", "-c"],
    "format option": ["--file-format", "-f", None],
    "label length option": [True, False],
    "target": [None, "RESULT", "a.b.dat"],
    "split": [True, False],
}


def scene(D, connection, blank=" "):
    r = None if D.symbolic else random.Random(D.int("geometry", 0, 2 ** 31))
    o = config(D, SCENE)
    width = o["characters in a label"]
    if D.symbolic:
        n, nt = o["sizes"]
        pool = POOL[width]
    else:
        n, nt = r.choice([1, 2, 5, r.randint(1, 30)]), r.choice([1, 2, 4])
        pool = []
        while len(pool) < n + 2:
            s = r.choice(string.ascii_uppercase) + r.choice(string.ascii_uppercase + string.digits + "-_ ") + \
                r.choice(string.ascii_uppercase + string.digits) + r.choice(" 123456789") + "".join(r.choice(string.digits) for _ in range(width - 4))
            if s not in pool and not s.startswith(("ELEM", "CONNE")):
                pool.append(s)
    cells = pool[:n + 2]                       # the MESH file may hold cells the output has not
    order = list(cells)
    if o["MESH reversed"]:
        order.reverse()
    if not D.symbolic:
        r.shuffle(order)
    big = 9e9
    centers = {l: [number(D, r, "%s of %s" % (k, l), big, 1e-9) for k in "xyz"] for l in cells}
    mesh, stored = eleme(D, order, centers, width)
    names = o["connections" if connection else "elements"]
    if connection:
        keys = [(cells[i], cells[i + 1]) for i in range(n)]
    else:
        keys = cells[:n]
    if not D.symbolic:
        keys = r.sample(keys, len(keys))
    times, values, tt = [], [], []
    last = 0.0
    for i in range(nt):
        t = D.real("time %d" % i, 0, 1e90) if D.symbolic else r.uniform(1.1, 50) * max(last, 1.0) * 10 ** r.uniform(0, 6)
        last = t
        s, v = printed(D, t, "12.5E")
        tt.append(s)
        times.append(v)
    if D.symbolic:
        for a, b in zip(times, times[1:]):
            D.assume(a * 1.001 + 1e-3 < b)
    text = []
    for i in range(nt):
        text.append([])
        values.append({k: [] for k in names})
        for j in range(len(keys)):
            row = []
            for k in names:
                s, v = printed(D, number(D, r, "%s %d,%d" % (k, i, j)), "12.5E")
                row.append(s)
                values[i][k].append(v)
            text[i].append(row)
    other = cells[:2]
    if connection:
        out = listing(D, o["start"], tt, (other, None), names, "connection", o["pages"], (keys, text), blank=blank)
    else:
        out = listing(D, o["start"], tt, (keys, text), names, "element", o["pages"],
                      ([(cells[0], cells[1])], None) if o["other tables"] else None, blank=blank)
    xyz = {k: [] for k in "XYZ"}
    for key in keys:
        for a, k in enumerate("XYZ"):
            xyz[k].append(stored[key][a] if not connection else (stored[key[0]][a] + stored[key[1]][a]) / 2)
    return r, o, width, out, mesh, keys, times, values, xyz, names


def compare(D, got, keys, times, values, xyz, names, fmt, kind):
    D.prove("one table per time", len(got) == len(times), "%d for %d" % (len(got), len(times)))
    for i, o in enumerate(got[:len(times)]):
        D.same("time", o.time, times[i], TPREC[fmt])
        if fmt != "tecplot":
            D.prove("labels, in their order", [str(x) if kind == "element" else tuple(str(y) for y in x) for x in o.labels] == list(keys), "%r" % (o.labels,))
        D.prove("variables", sorted(o.data) == sorted(names + ["X", "Y", "Z"]), "%r" % (sorted(o.data),))
        for k in names:
            D.prove("one value per row", len(o.data[k]) == len(keys))
            for j, x in enumerate(o.data[k]):
                D.same("value of a variable", x, values[i][k][j], 12)
        for k in "XYZ":
            for j, x in enumerate(o.data[k]):
                D.same("coordinates of the element of a row", x, xyz[k][j], 12)


def extraction(name, connection, blank=" ", **kw):
    def f(D):
        r, o, width, out, mesh, keys, times, values, xyz, names = scene(D, connection, blank)
        fmt = "csv" if connection else o["format"]
        base = D.scratch()
        os.makedirs(base, exist_ok=True)
        p = lambda x: os.path.join(base, x)  # noqa: E731
        put(p("OUT.out"), out)
        put(p("MESH"), mesh)
        argv = [p("OUT.out"), p("MESH")]
        if connection:
            argv.append(o["connection option"])
        if fmt != "csv" or o["format option"]:
            argv += [o["format option"] or "-f", fmt]
        if o["label length option"]:
            argv += ["-l", str(width)]
        target = o["target"] and (o["target"] + EXT[fmt] if o["target"] == "RESULT" else o["target"])
        if target:
            argv += ["-o", p(target)]
        split = o["split"]
        if split:
            argv.append("--split")
        with Inside(base):
            D.T("_cli._extract").extract(argv)
        name = target or ("OUTPUT_CONNE" if connection else "OUTPUT_ELEME") + EXT[fmt]
        kind = "connection" if connection else "element"
        if split and len(times) > 1:
            head, ext = os.path.splitext(name)
            want = ["%s_%d%s" % (head, i + 1, ext) for i in range(len(times))]
        else:
            want = [name]
        D.prove("the files written", sorted(os.listdir(base)) == sorted(["OUT.out", "MESH"] + want), "%r" % (sorted(os.listdir(base)),))
        h = D.T("_io.output._helpers")
        for i, w in enumerate(want):
            D.prove("format of the file written", h.get_output_type(p(w)) == (kind, fmt), "%r" % (h.get_output_type(p(w)),))
            got = h.read(p(w))
            if len(want) > 1:
                compare(D, got, keys, times[i:i + 1], values[i:i + 1], xyz, names, fmt, kind)
            else:
                compare(D, got, keys, times, values, xyz, names, fmt, kind)
        D.prove("the files given are left as they were", content(p("OUT.out")) == out and content(p("MESH")) == mesh)
    f.__name__ = name
    contract("C21", EXTRACT, **dict(dict(samples=80, fallback=500, objarrays=True, max_paths=3000, prove_ms=6000), **kw))(f)


B = "three rows, two times, five variables, labels of three lengths; values, times and coordinates unbounded"
extraction("extract_elements", False, budget=110, bounded=B)
extraction("extract_connections", True, budget=110, bounded=B)
T = "sampled: twelve characters per value and none in between"
extraction("extract_touching_elements", False, "", symbolic=False, fallback=250, bounded=T)
extraction("extract_touching_connections", True, "", symbolic=False, fallback=250, bounded=T)


@contract("C21", EXTRACT, symbolic=False, fallback=250, bounded="sampled: eight kinds of unusable input")
def extract_rejects(D):
    connection = D.bool("connection")
    r, o, width, out, mesh, keys, times, values, xyz, names = scene(D, connection)
    base = D.scratch()
    os.makedirs(base, exist_ok=True)
    p = lambda x: os.path.join(base, x)  # noqa: E731
    why = r.choice(["no output", "no mesh", "other mesh", "not a mesh", "not an output", "format of connections", "another format", "no such table"])
    fmt = r.choice(["csv", "tecplot", "petrasim"]) if not connection else "csv"
    if why == "format of connections":
        if not connection:
            return
        fmt = r.choice(["tecplot", "petrasim"])
    if why == "other mesh":
        key = keys[r.randrange(len(keys))]
        key = key if isinstance(key, str) else r.choice(key)
        lines = mesh.split("\n")
        mesh = "\n".join(x for i, x in enumerate(lines) if not (x.startswith(key) and i < lines.index("CONNE")))
    if why == "not a mesh":
        mesh = "\n".join(mesh.split("\n")[mesh.split("\n").index("CONNE"):])
    if why == "no such table":
        if not connection:
            return
        x = out.split("\n")
        out = "\n".join(x[:next(i for i, l in enumerate(x) if "ELEM1" in l)] + x[-3:])
    if why == "not an output":
        out = "some text\n" + out
    if why == "another format":
        if connection:
            return
        O = D.T("_io.output._common").Output
        import numpy as np
        D.T("_io.output._helpers").write(p("OUT.out"), [O("element", "csv", t, np.array(keys), {k: np.array(v[k]) for k in names})
                                                       for t, v in zip(times, values)], file_format="csv")
    elif why != "no output":
        put(p("OUT.out"), out)
    if why != "no mesh":
        put(p("MESH"), mesh)
    target = p("RESULT" + EXT[fmt])
    if r.random() < 0.5:
        put(target, BEFORE)
    old = {x: content(p(x)) for x in os.listdir(base)}
    argv = [p("OUT.out"), p("MESH"), "-f", fmt, "-o", target] + (["-c"] if connection else []) + (["-s"] if r.random() < 0.3 else [])
    with Inside(base):
        D.raises("unusable input is rejected", (ValueError, KeyError), lambda: D.T("_cli._extract").extract(argv))
    new = {x: content(p(x)) for x in os.listdir(base)}
    D.prove("nothing is written for unusable input", new == old, "%s: %r for %r" % (why, sorted(new), sorted(old)))
