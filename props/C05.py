"""C05: elements, coordinates, connections and initial conditions."""
from pyvc.domain import contract
from props.inputlib import (P3, P4, P9, P13, entry, io, label, maybe_eq, only, opts, real, reals, roundtrip, same_keys,
                            trim)
from props.tough_layout import LAYOUT, columns

W = "toughio._io.input.tough._write."
R = "toughio._io.input.tough._read."
BASE = [W + "write", W + "write_buffer", R + "read", R + "read_buffer", "toughio._common.get_label_length",
        "toughio._io.input.tough._helpers.write_record", "toughio._io.input.tough._helpers.read_record"]
ELEME = BASE + [W + "_write_eleme", R + "_read_eleme"]
COORD = ELEME + [W + "_write_coord", R + "_read_coord"]
CONNE = BASE + [W + "_write_conne", R + "_read_conne"]
INCON = BASE + [W + "_write_incon", R + "_read_incon"]


def _int(D, n, width, blank=False):
    """An integer that fits its column (leaving a blank when the label length is inferred)."""
    d = min(width, 5) - (1 if blank else 0)
    return D.int(n, -(10 ** (d - 1) - 1), 10 ** d - 1)


def _labels(D, n, ln, parts=1):
    out = ["".join(label(D, "l%d.%d" % (i, j), ln) for j in range(parts)) for i in range(n)]
    D.distinct(out)
    return out


def _order(D, labels, key, p, which=None):
    """An explicit order list, or the order of the dictionary."""
    n = len(labels)
    perms = {2: [None, [1, 0]], 3: [None, [2, 0, 1], [1, 0, 2]]}[n]
    perm = D.choice("order", perms) if which is None else perms[which]
    if perm is None:
        return list(labels)
    want = [labels[i] for i in perm]
    kind = list if D.symbolic else D.choice("kind", [list, tuple, D.np.array])
    p[key] = kind(want)
    return want


def _how(D, block):
    return D.choice("block", [None, block])


def _given(D):
    return D.choice("length given", [True, False])


def _element(D, i, ln, given, every=True):
    c = columns(LAYOUT["ELEME"][ln])
    p = "e%d." % i
    e = {}
    if every:
        e["nseq"] = D.opt(p + "nseq", _int(D, p + "nseq", c[1][3], not given))
        e["nadd"] = D.opt(p + "nadd", _int(D, p + "nadd", c[2][3]))
    k = D.choice(p + "material", ["text", "int", "none"] if every else ["text"])
    if k == "text":
        e["material"] = D.text(p + "rock", 5, letters=(0,))
    elif k == "int":
        e["material"] = D.int(p + "rock", 1, 99999)
    e["volume"] = D.opt(p + "volume", real(D, p + "volume"))
    if every:
        for n in ("heat_exchange_area", "permeability_modifier"):
            e[n] = D.opt(p + n, real(D, p + n))
        k = D.choice(p + "center", ["values", "none", "absent"])
        if k != "absent":
            e["center"] = reals(D, p + "center", 3) if k == "values" else None
    return e


def _same_element(D, name, got, want, center=P3):
    for k in ("nseq", "nadd", "material"):
        maybe_eq(D, "%s: %s" % (name, k), entry(got, k), want.get(k), None)
    for k in ("volume", "heat_exchange_area", "permeability_modifier"):
        maybe_eq(D, "%s: %s" % (name, k), entry(got, k), want.get(k), P4)
    maybe_eq(D, "%s: center" % name, entry(got, "center"), want.get("center"), center)
    only(D, name, got, {"nseq", "nadd", "material", "volume", "heat_exchange_area", "permeability_modifier",
                        "center"})


@contract("C05", ELEME, budget=200, samples=400, fallback=3000, bounded="two or three elements; values unbounded")
def elements(D):
    ln = D.choice("length", [5, 6, 7, 8, 9])
    given = _given(D)
    n = 2 if D.symbolic else D.choice("n", [2, 3])
    labels = _labels(D, n, ln)
    els = {l: _element(D, i, ln, given, i == 0 or not D.symbolic) for i, l in enumerate(labels)}
    want = {l: dict(e) for l, e in els.items()}
    p = {"elements": els}
    order = _order(D, labels, "elements_order", p)
    block = ("mesh" if ln % 2 else None) if D.symbolic else _how(D, "mesh")
    back = roundtrip(D, p, block, **({"label_length": ln} if given else {}))
    same_keys(D, "elements", back["elements"], order)
    D.same("elements_order", back["elements_order"], order)
    D.prove("coordinates stay unset", not back["coordinates"])
    for i, l in enumerate(labels):
        _same_element(D, "element %d" % i, back["elements"][l], want[l])


@contract("C05", COORD, budget=100, samples=300, fallback=2000, bounded="three elements; values unbounded")
def coordinates(D):
    ln = D.choice("length", [5, 9] if D.symbolic else [5, 6, 7, 8, 9])
    labels = _labels(D, 3, ln)
    els = {l: {"center": reals(D, "c%d" % i, 3), "volume": real(D, "v%d" % i)} for i, l in enumerate(labels)}
    want = {l: dict(e) for l, e in els.items()}
    p = {"elements": els, "coordinates": True}
    order = _order(D, labels, "elements_order", p)
    back = roundtrip(D, p, _how(D, "mesh"))
    same_keys(D, "elements", back["elements"], order)
    D.prove("coordinates", back["coordinates"] is True)
    for i, l in enumerate(labels):
        _same_element(D, "element %d" % i, back["elements"][l], want[l], P13)


CONN_REALS = ("interface_area", "gravity_cosine_angle", "radiant_emittance_factor")


def _connection(D, i, ln, given, every=True):
    c = columns(LAYOUT["CONNE"][ln])
    p = "c%d." % i
    e = {}
    if every:
        e["nseq"] = D.opt(p + "nseq", _int(D, p + "nseq", c[1][3]))
        k = D.choice(p + "nadd", ["values", "none", "absent"])
        if k == "values":
            e["nadd"] = [D.opt(p + "nadd%d" % j, _int(D, p + "nadd%d" % j, c[2 + j][3])) for j in range(2)]
        elif k == "none":
            e["nadd"] = None
        k = D.choice(p + "distances", ["values", "none", "absent"] if k == "values" or not D.symbolic else ["values"])
        if k != "absent":
            e["nodal_distances"] = opts(D, p + "d", 2) if k == "values" else None
        for n in CONN_REALS[1:]:
            e[n] = D.opt(p + n, real(D, p + n))
    e["permeability_direction"] = D.opt(p + "isot", D.int(p + "isot", -9, 9))
    e["interface_area"] = D.opt(p + "interface_area", real(D, p + "interface_area"))
    return e


def _same_connection(D, name, got, want):
    for k in ("nseq", "nadd", "permeability_direction"):
        maybe_eq(D, "%s: %s" % (name, k), entry(got, k), want.get(k), None)
    maybe_eq(D, "%s: nodal_distances" % name, entry(got, "nodal_distances"), want.get("nodal_distances"), P4)
    maybe_eq(D, "%s: interface_area" % name, entry(got, "interface_area"), want.get("interface_area"), P4)
    for k in CONN_REALS[1:]:
        maybe_eq(D, "%s: %s" % (name, k), entry(got, k), want.get(k), P3)
    only(D, name, got, {"nseq", "nadd", "permeability_direction", "nodal_distances"} | set(CONN_REALS))


@contract("C05", CONNE, budget=200, samples=400, fallback=3000, bounded="two or three connections; values unbounded")
def connections(D):
    ln = D.choice("length", [5, 6, 7, 8, 9])
    given = _given(D)
    n = 2 if D.symbolic else D.choice("n", [2, 3])
    labels = _labels(D, n, ln, 2)
    cons = {l: _connection(D, i, ln, given, i == 0 or not D.symbolic) for i, l in enumerate(labels)}
    want = {l: dict(e) for l, e in cons.items()}
    p = {"connections": cons}
    order = _order(D, labels, "connections_order", p)
    block = ("mesh" if ln % 2 else None) if D.symbolic else _how(D, "mesh")
    p["elements"] = {labels[0][:ln]: {"volume": 1.0}}
    back = roundtrip(D, p, block, **({"label_length": ln} if given else {}))
    same_keys(D, "connections", back["connections"], order)
    D.same("connections_order", back["connections_order"], order)
    for i, l in enumerate(labels):
        _same_connection(D, "connection %d" % i, back["connections"][l], want[l])


def _list(D, name, n, unset_end):
    """Optional values; symbolically the end of the list is set (or None as a whole)."""
    if not D.symbolic:
        return opts(D, name, n)
    out = opts(D, name, n - 1) + [real(D, "%s[%d]" % (name, n - 1))]
    return out[:-1] + [None] if unset_end and n > 1 and D.choice(name + ".end", [False, True]) else out


@contract("C05", INCON, budget=200, samples=500, fallback=3000,
          bounded="two or three entries with at most eight values; values unbounded")
def initial_conditions(D):
    if D.symbolic:
        ln, given = D.choice("length", [(5, False), (5, True), (6, False), (7, False), (8, True), (9, False)])
    else:
        ln = D.choice("length", [5, 6, 7, 8, 9])
        given = _given(D)
    n = 2 if D.symbolic else D.choice("n", [2, 3])
    labels = _labels(D, n, ln)
    inc, want = {}, {}
    for i, l in enumerate(labels):
        p = "i%d." % i
        e = {"porosity": D.opt(p + "porosity", real(D, p + "porosity"))}
        if D.symbolic:
            ku, kv = D.choice(p + "shape", [(5, 4), ("absent", 6), (2, 1), ("none", "absent")] if i == 0 else
                              [(1, 5), ("absent", 3)])
        else:
            ku = D.choice(p + "userx", [5, 1, 2, 3, 4, "none", "absent"])
            kv = D.choice(p + "values", [1, 2, 3, 4, 5, 6, 8, "none", "absent"])
        if ku != "absent":
            e["userx"] = None if ku == "none" else _list(D, p + "userx", ku, i == 1)
        if kv != "absent":
            e["values"] = None if kv == "none" else _list(D, p + "values", kv, i == 0)
        inc[l] = e
        want[l] = {k: e.get(k) for k in ("porosity", "userx", "values")}
        for k in ("userx", "values"):
            want[l][k] = trim(D, want[l][k]) if want[l][k] else []
    p = {"initial_conditions": inc}
    order = _order(D, labels, "initial_conditions_order", p, int(kv == 3) if D.symbolic else None)
    block = ("incon" if ln % 2 else None) if D.symbolic else _how(D, "incon")
    back = roundtrip(D, p, block, **({"label_length": ln} if given else {}))
    same_keys(D, "initial_conditions", back["initial_conditions"], order)
    D.same("initial_conditions_order", back["initial_conditions_order"], order)
    for i, l in enumerate(labels):
        got = back["initial_conditions"][l]
        maybe_eq(D, "entry %d: porosity" % i, entry(got, "porosity"), want[l]["porosity"], P9)
        for k, prec in (("userx", P3), ("values", P13)):
            g = D.force(entry(got, k))
            g = [] if g is None else g
            w = want[l][k]
            D.prove("entry %d: number of %s" % (i, k), len(g) == len(w), "got %r, expected %r" % (g, w))
            for a, b in zip(g, w):
                D.prove("entry %d: %s in order" % (i, k), D.eqx(a, b, prec), "got %r, expected %r" % (g, w))
        only(D, "entry %d" % i, got, {"porosity", "userx", "values"})


@contract("C05", BASE + [W + "_write_eleme", W + "_write_conne", W + "_write_incon"], budget=60, samples=100,
          fallback=1000, bounded="two elements, one connection, two initial conditions")
def whole_mesh(D):
    """All the blocks in one file: nothing moves from one block into another."""
    ln = D.choice("length", [5, 7] if D.symbolic else [5, 6, 7, 8, 9])
    a, b = _labels(D, 2, ln)
    v = reals(D, "v", 2)
    area, cos = real(D, "area"), real(D, "cos")
    x = [reals(D, "x%d" % i, 5) for i in range(2)]
    p = {
        "elements": {a: {"volume": v[0], "material": "ROCK1"}, b: {"volume": v[1], "material": "ROCK2"}},
        "connections": {a + b: {"interface_area": area, "gravity_cosine_angle": cos}},
        "initial_conditions": {a: {"values": list(x[0])}, b: {"values": list(x[1])}},
    }
    if D.choice("coordinates", [False, True]):
        p["coordinates"] = True
        for k in (a, b):
            p["elements"][k]["center"] = reals(D, "c", 3)
    back = roundtrip(D, p)
    same_keys(D, "elements", back["elements"], [a, b])
    same_keys(D, "connections", back["connections"], [a + b])
    same_keys(D, "initial_conditions", back["initial_conditions"], [a, b])
    for i, l in enumerate((a, b)):
        D.prove("volume", D.eqx(entry(back["elements"][l], "volume"), v[i], P4))
        D.same("initial conditions", entry(back["initial_conditions"][l], "values"), x[i], P13)
    D.prove("area", D.eqx(entry(back["connections"][a + b], "interface_area"), area, P4))
    D.prove("cosine", D.eqx(entry(back["connections"][a + b], "gravity_cosine_angle"), cos, P3))


@contract("C05", [R + "read"], symbolic=False, fallback=20, bounded="label lengths that no file has")
def unusable_length(D):
    path = D.file("MESH")
    with open(path, "w") as f:
        f.write("ELEME\nAAA 1          ROCK1 1.000E+00\n\n")
    read = D.T("_io.input").read
    for bad in (4, 10, 0, -5, "5", 5.0, [5]):
        D.raises("a label has five to nine characters", (TypeError, ValueError), lambda: read(path, file_format="tough", label_length=bad))
    for ln in (None, 5, 9):
        D.prove("a length that files have", len(read(path, file_format="tough", label_length=ln)["elements"]) == 1)
