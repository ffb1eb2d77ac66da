"""C04: generators."""
from pyvc.domain import contract
from props.inputlib import (P3, P7, entry, io, label, maybe_eq, name5, only, real, reals, roundtrip, same_keys)
from props.tough_layout import LAYOUT, columns

W = "toughio._io.input.tough._write."
R = "toughio._io.input.tough._read."
F = [W + "write", W + "write_buffer", W + "_write_gener", R + "read", R + "read_buffer", R + "_read_gener",
     "toughio._io.input.tough._helpers.write_record", "toughio._io.input.tough._helpers.read_record",
     "toughio._common.get_label_length"]

INTS = ("nseq", "nadd", "nads")
SCALARS = INTS + ("name", "layer_thickness")
TABLES = ("times", "rates", "specific_enthalpy")


def _widths(ln):
    c = columns(LAYOUT["GENER"][ln])
    return {"nseq": c[2][3], "nadd": c[3][3], "nads": c[4][3]}


def _name(D, n):
    """A generator name: no leading digit, so that the label before it ends where it should."""
    return D.text(n, 5, letters=(0,))


def _scalars(D, p, ln, keys=SCALARS, optional=SCALARS):
    g = {}
    w = _widths(ln)
    for k in keys:
        n = "%s.%s" % (p, k)
        if k in INTS:
            d = min(w[k], 5)
            v = D.int(n, -(10 ** (d - 1) - 1), 10 ** d - 1)
        elif k == "name":
            v = _name(D, n)
        else:
            v = real(D, n)
        g[k] = D.opt(n, v) if k in optional else v
    return g


def _table(D, p, n, enth):
    t = {"times": reals(D, p + ".t", n), "rates": reals(D, p + ".r", n)}
    if enth:
        t["specific_enthalpy"] = reals(D, p + ".h", n)
    return t


def _same(D, name, k, got, want):
    """A table, a scalar or nothing."""
    if k in TABLES and isinstance(want, list):
        ok = isinstance(got, list) and len(got) == len(want)
        D.prove("%s: all entries of %s" % (name, k), ok, "got %r, expected %r" % (got, want))
        if ok:
            for a, b in zip(got, want):
                D.prove("%s: %s in order" % (name, k), D.eqx(a, b, P7), "got %r, expected %r" % (got, want))
        return
    prec = P3 if k in TABLES or k == "layer_thickness" else None
    maybe_eq(D, "%s: %s" % (name, k), got, want, prec)


def _check(D, name, got, want):
    for k in ("type",) + SCALARS + TABLES:
        _same(D, name, k, entry(got, k), want.get(k))
    only(D, name, got, {"type"} | set(SCALARS) | set(TABLES))


def _back(D, labels, gens, ln, how=None, given=None):
    """Written whole or as a GENER file; length given or inferred."""
    p = {"generators": dict(zip(labels, gens))}
    how = how or D.choice("how", ["all", "gener"])
    given = D.choice("length given", [True, False]) if given is None else given
    kw = {"label_length": ln} if given else {}
    return roundtrip(D, p, None if how == "all" else "gener", **kw)["generators"]


@contract("C04", F, budget=250, samples=300, fallback=2500, bounded="two generators; values unbounded")
def constant_rates(D):
    ln = D.choice("length", [5, 6, 7, 8, 9])
    labels = [label(D, "l%d" % i, ln) for i in range(2)]
    D.distinct(labels)
    gens = []
    for i in range(2):
        if i == 0 or not D.symbolic:
            g = _scalars(D, "g%d" % i, ln)
        else:
            g = _scalars(D, "g%d" % i, ln, ("nseq",))
        g["type"] = D.text("type%d" % i, D.choice("tl%d" % i, [4, 3]) if i == 0 else 4)
        for k in ("rates", "specific_enthalpy"):
            g[k] = D.opt("%s%d" % (k, i), real(D, "%s%d" % (k, i)))
        gens.append(g)
    want = [dict(g) for g in gens]
    back = _back(D, labels, gens, ln)
    same_keys(D, "generators", back, labels)
    for i, l in enumerate(labels):
        D.prove("generator %d keeps its element" % i, dict.__contains__(back, l))
        _check(D, "generator %d" % i, back[l], want[i])


@contract("C04", F, budget=250, samples=300, fallback=2500,
          bounded="tables of 2 to 9 entries; values unbounded")
def tables(D):
    ln = D.choice("length", [5, 8] if D.symbolic else [5, 6, 7, 8, 9])
    labels = [label(D, "l%d" % i, ln) for i in range(2)]
    D.distinct(labels)
    n = D.choice("n", [2, 4, 5, 9] if D.symbolic else list(range(2, 24)))
    enth = D.choice("enthalpy", [True, False])
    arr = ("tuple" if n == 4 else "list") if D.symbolic else D.choice("kind", ["list", "tuple", "array"])
    g = _table(D, "g", n, enth)
    want = [dict(g, **{}), None]
    g = {k: tuple(v) if arr == "tuple" else D.np.array(v) if arr == "array" else list(v) for k, v in g.items()}
    if D.choice("scalars", [False, True]):
        s = _scalars(D, "g", ln)
        g.update(s)
        want[0].update(s)
    g["type"] = want[0]["type"] = D.text("type0", 4)
    # a constant generator follows the table
    h = {"type": D.text("type1", 4), "rates": real(D, "rate"), "specific_enthalpy": D.opt("h", real(D, "h"))}
    want[1] = dict(h)
    first = D.choice("first", [0, 1])
    gens = [g, h] if first == 0 else [h, g]
    want = want if first == 0 else want[::-1]
    back = _back(D, labels, gens, ln, ("all" if n in (2, 9) else "gener") if D.symbolic else None)
    same_keys(D, "generators", back, labels)
    for i, l in enumerate(labels):
        _check(D, "generator %d" % i, back[l], want[i])


@contract("C04", F, budget=250, samples=400, fallback=3000,
          bounded="two to four generators on one element, tables of 2 to 5 entries")
def several_on_one_element(D):
    first = D.choice("first", [0, 1])
    ln = (7 if first else 5) if D.symbolic else D.choice("length", [5, 6, 7, 8, 9])
    labels = [label(D, "l%d" % i, ln) for i in range(2)]
    D.distinct(labels)
    m = D.choice("m", [2, 3] if D.symbolic else [2, 3, 4])
    if D.symbolic:
        shapes = D.choice("shapes", [("const",) * m, ("table",) * m, ("table+h", "const", "table")[:m],
                                     ("const", "table+h", "none")[:m]])
    else:
        shapes = [D.choice("shape%d" % i, ["const", "none", "table", "table+h"]) for i in range(m)]
    comps = []
    every = SCALARS + ("rates", "specific_enthalpy")
    optional = (D.choice("optional", every),) if D.symbolic else every
    for i in range(m):
        p = "c%d" % i
        c = {"type": D.text(p + ".type", 4)}
        c.update(_scalars(D, p, ln, SCALARS if i == 1 or not D.symbolic else ("name", "nseq"), optional))
        if shapes[i] == "const":
            for k in ("rates", "specific_enthalpy"):
                v = real(D, p + "." + k)
                c[k] = D.opt(p + "." + k, v) if k in optional else v
        elif shapes[i].startswith("table"):
            c.update(_table(D, p, D.choice(p + ".n", [2, 5] if not D.symbolic else [5 if i == 0 else 2]),
                            shapes[i] == "table+h"))
        comps.append(c)
    seq = (list if m == 2 else tuple) if D.symbolic else D.choice("kind", [list, tuple])
    g = {}
    for k in ("type",) + SCALARS + TABLES:
        v = [c.get(k) for c in comps]
        if k in comps[0] or any(k in c for c in comps):
            g[k] = seq(v)
    other = {"type": D.text("other.type", 4), "rates": real(D, "other.rate")}
    want_other = dict(other)
    gens = [g, other] if first == 0 else [other, g]
    back = _back(D, labels, gens, ln, ("all" if first else "gener") if D.symbolic else None,
                 m == 2 if D.symbolic else None)
    same_keys(D, "generators", back, labels)
    got = back[labels[first]]
    _check(D, "other generator", back[labels[1 - first]], want_other)
    for k in ("type",) + SCALARS + TABLES:
        v = entry(got, k)
        v = D.force(v)
        if v is None:
            for c in comps:
                maybe_eq(D, "%s stays absent" % k, None, c.get(k), None)
            continue
        D.prove("%s: one value per generator" % k, isinstance(v, list) and len(v) == m, "got %r" % (v,))
        for i, c in enumerate(comps):
            _same(D, "generator %d" % i, k, v[i], c.get(k))
    only(D, "several generators", got, {"type"} | set(SCALARS) | set(TABLES))


@contract("C04", F, budget=60, samples=300, fallback=1500, bounded="tables of at most six entries")
def inconsistent_are_rejected(D):
    l = label(D, "l", 5)
    n = D.choice("n", [2, 3, 5])
    bad = D.choice("bad", ["rates shorter", "rates longer", "enthalpy shorter", "enthalpy longer", "rates without times",
                           "enthalpy without times", "rates scalar time", "fewer components", "more components",
                           "scalar in components", "text in components", "nested"])
    g = dict(_table(D, "g", n, True), type="MASS")
    if bad == "rates shorter":
        g["rates"] = g["rates"][:-1]
    elif bad == "rates longer":
        g["rates"] = g["rates"] + [real(D, "x")]
    elif bad == "enthalpy shorter":
        g["specific_enthalpy"] = g["specific_enthalpy"][:-1]
    elif bad == "enthalpy longer":
        g["specific_enthalpy"] = g["specific_enthalpy"] + [real(D, "x")]
    elif bad == "rates without times":
        g = {"type": "MASS", "rates": g["rates"]}
    elif bad == "enthalpy without times":
        g = {"type": "MASS", "rates": real(D, "x"), "specific_enthalpy": g["specific_enthalpy"]}
    elif bad == "rates scalar time":
        g["times"] = real(D, "x")
        del g["specific_enthalpy"]
    elif bad in ("fewer components", "more components"):
        k = D.choice("key", ["rates", "name", "nseq", "layer_thickness", "specific_enthalpy", "times"])
        m = n - 1 if bad == "fewer components" else n + 1
        v = "abc" if k == "name" else 2 if k == "nseq" else real(D, "x")
        g = {"type": ["MASS"] * n, "rates": reals(D, "r", n)}
        g[k] = [v] * m
    elif bad in ("scalar in components", "text in components"):
        k = D.choice("key", ["rates", "nseq", "layer_thickness", "specific_enthalpy", "times"])
        g = {"type": ["MASS"] * n, "rates": reals(D, "r", n)}
        g[k] = 2 if k == "nseq" else real(D, "x")
        if bad == "text in components":
            g = {"type": ["MASS"] * n, "rates": reals(D, "r", n), "name": "abc"}
    elif bad == "nested":
        g = {"type": "MASS", "rates": [reals(D, "r", 2), reals(D, "q", 2)]}
    f = D.file("input")
    with open(f) as h:
        before = h.read()
    D.raises("inconsistent generator (%s) is rejected" % bad, (TypeError, ValueError),
             lambda: io(D).write(f, {"generators": {l: g}}, file_format="tough"))
    with open(f) as h:
        D.prove("nothing is written", h.read() == before)
