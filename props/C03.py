"""C03: run options."""
import numpy as np

from pyvc.domain import also, contract
import props.C02  # noqa: F401
from props.inputlib import (P3, P4, entry, io, keys_of, label, maybe_eq, name5, only, opts, real, reals, roundtrip)

W = "toughio._io.input.tough._write."
R = "toughio._io.input.tough._read."
BASE = [W + "write", W + "write_buffer", R + "read", R + "read_buffer"]

PARAM_REALS = ["temperature_dependence_gas", "effective_strength_vapor", "t_ini", "t_max", "t_step_max",
               "t_reduce_factor", "gravity", "mesh_scale_factor", "eps1", "eps2", "w_upstream", "w_newton",
               "derivative_factor"]
PARAM_INTS = {"n_iteration": 2, "verbosity": 2, "n_cycle": 4, "n_second": 4, "n_cycle_print": 4}


@contract("C03", BASE + [W + "_write_param", R + "_read_param"], budget=200, samples=200, fallback=2000)
def options(D):
    opt = {}
    for k, w in PARAM_INTS.items():
        opt[k] = D.opt(k, D.int(k, -(10 ** (w - 1) - 1), 10 ** w - 1))
    for k in PARAM_REALS:
        opt[k] = D.opt(k, real(D, k))
    want = dict(opt)
    back = roundtrip(D, {"options": opt})
    for k in PARAM_INTS:
        maybe_eq(D, k, entry(back["options"], k), want[k], None)
    for k in PARAM_REALS:
        maybe_eq(D, k, entry(back["options"], k), want[k], P4)
    only(D, "options", back["options"], set(want))


@contract("C03", BASE + [W + "_write_param", R + "_read_param"], budget=60, samples=300, fallback=2000,
          bounded="at most 17 time steps")
def time_steps(D):
    n = D.choice("n", [None, 0, 1, 7, 8, 9, 16, 17] if D.symbolic else [None] + list(range(0, 40)))
    opt = {}
    if n == 0:
        opt["t_steps"] = real(D, "dt")
        want = [opt["t_steps"]]
    elif n:
        opt["t_steps"] = reals(D, "dt", n)
        want = list(opt["t_steps"])
    else:
        want = None
    only_k = D.choice("other", [None, "t_max"])
    if only_k:
        opt[only_k] = real(D, "other")
    other = dict(opt)
    back = roundtrip(D, {"options": opt})["options"]
    got = entry(back, "t_steps")
    if want is None:
        D.prove("time steps stay unset", got is None, "got %r" % (got,))
    else:
        got = got if isinstance(got, list) else [got]
        D.prove("number of time steps", len(got) == len(want), "got %r" % (got,))
        for i, (g, w) in enumerate(zip(got, want)):
            D.prove("time step in order", D.eqx(g, w, P4), "step %d: got %r, expected %r" % (i, g, w))
    only(D, "options", back, set(other))
    if only_k:
        maybe_eq(D, only_k, entry(back, only_k), other[only_k], P4)


def _digits(D, name, n):
    return {k: D.opt("%s%d" % (name, k), D.int("%s%d" % (name, k), 0, 9)) for k in range(1, n + 1)}


def _absent_some(D, d, name):
    """Leave out a key altogether (the rest is given as a value or None)."""
    k = D.choice(name, [None, 1, len(d) // 2, len(d)])
    if k is not None:
        d = {i: v for i, v in d.items() if i != k}
    return d


def _same_digits(D, name, got, want, n):
    for k in range(1, n + 1):
        maybe_eq(D, "%s(%d)" % (name, k), entry(got, k), want.get(k), None)
    only(D, name, got, set(range(1, n + 1)))


@contract("C03", BASE + [W + "_write_param", R + "_read_param"], budget=100, samples=200, fallback=1500)
def mop(D):
    d = _absent_some(D, _digits(D, "mop", 24), "absent")
    want = dict(d)
    unknown = D.choice("unknown", [None, 0, 25])
    if unknown is not None:
        d[unknown] = 7
    f = D.file("input")
    io(D).write(f, {"extra_options": d}, file_format="tough")
    with open(f) as fh:
        lines = fh.read().split("\n")
    i = [k for k, l in enumerate(lines) if l.startswith("PARAM")][0]
    rec = lines[i + 1]
    for k in range(1, 25):
        g = D.field(rec[16 + k - 1:16 + k], "int")
        maybe_eq(D, "MOP(%d) is the %d-th digit" % (k, k), g, want.get(k), None)
    back = io(D).read(f, file_format="tough")
    _same_digits(D, "MOP", back["extra_options"], want, 24)


@contract("C03", BASE + [W + "_write_momop", R + "_read_momop"], budget=100, samples=200, fallback=1500)
def momop(D):
    d = _absent_some(D, _digits(D, "momop", 40), "absent")
    want = dict(d)
    unknown = D.choice("unknown", [None, 0, 41])
    if unknown is not None:
        d[unknown] = 7
    f = D.file("input")
    io(D).write(f, {"more_options": d}, file_format="tough")
    with open(f) as fh:
        lines = fh.read().split("\n")
    i = [k for k, l in enumerate(lines) if l.startswith("MOMOP")][0]
    for k in range(1, 41):
        g = D.field(lines[i + 1][k - 1:k], "int")
        maybe_eq(D, "MOMOP(%d) is the %d-th digit" % (k, k), g, want.get(k), None)
    back = io(D).read(f, file_format="tough")
    _same_digits(D, "MOMOP", back["more_options"], want, 40)


@contract("C03", BASE + [W + "_write_selec", R + "_read_selec"], budget=100, samples=300, fallback=2000,
          bounded="at most three records of floats")
def selections(D):
    ints = {k: D.opt("ie%d" % k, D.int("ie%d" % k, -9999, 99999)) for k in range(2, 17)}
    ints = _absent_some(D, ints, "absent")
    want = dict(ints)
    kind = D.choice("floats", ["absent", "none", 1, 8, (1, 1), (8, 8), (3, 8, 1)])
    sel = {"integers": ints}
    rows = None
    if kind == "none":
        sel["floats"] = None
    elif isinstance(kind, int):
        sel["floats"] = reals(D, "fe", kind)
        rows = [list(sel["floats"])]
    elif isinstance(kind, tuple):
        sel["floats"] = [reals(D, "fe%d" % i, n) for i, n in enumerate(kind)]
        rows = [list(r) for r in sel["floats"]]
        if not D.symbolic:
            form = D.choice("form of a row", [list, tuple, np.array])
            sel["floats"] = D.choice("form of rows", [list, tuple])(form(r) for r in sel["floats"])
    if rows is not None:
        given = D.choice("ie1", ["absent", None, 1, 2, 3, 0, 7])
        if given != "absent":
            sel["integers"] = dict(ints)
            sel["integers"][1] = given
    if D.choice("without integers", [False, True]):
        del sel["integers"]
        want = {}
    D.assume(bool(sel))
    back = roundtrip(D, {"selections": sel})["selections"]
    gi = entry(back, "integers")
    gi = {} if gi is None else gi
    for k in range(2, 17):
        maybe_eq(D, "IE(%d)" % k, entry(gi, k), want.get(k), None)
    maybe_eq(D, "IE(1) counts the float records", entry(gi, 1), len(rows) if rows else None, None)
    only(D, "integers", gi, set(range(1, 17)))
    gf = entry(back, "floats")
    if rows is None:
        D.prove("floats stay absent", gf is None or gf == [], "got %r" % (gf,))
        return
    gf = gf if isinstance(gf[0], list) else [gf]
    D.prove("number of float records", len(gf) == len(rows))
    for g, w in zip(gf, rows):
        D.prove("number of floats", len(g) == len(w))
        for a, b in zip(g, w):
            D.prove("float in order", D.eqx(a, b, P3), "got %r, expected %r" % (a, b))


@contract("C03", BASE + [W + "_write_solvr", R + "_read_solvr"], budget=60, samples=300, fallback=2000)
def solver(D):
    vals = {"method": D.int("method", 0, 9), "z_precond": "Z" + D.choice_text("z", "01234"),
            "o_precond": "O" + D.choice_text("o", "01234"), "rel_iter_max": real(D, "rel_iter_max"),
            "eps": real(D, "eps")}
    missing = D.choice("missing", [None] + list(vals))
    given = {k: v for k, v in vals.items() if k != missing}
    want = dict({"method": 3, "z_precond": "Z0", "o_precond": "O0", "rel_iter_max": 0.1, "eps": 1e-6})
    want.update(given)
    back = roundtrip(D, {"solver": given})["solver"]
    for k, w in want.items():
        maybe_eq(D, k, entry(back, k), w, P4 if k in ("rel_iter_max", "eps") else None)
    only(D, "solver", back, set(want))


EOS = {"eos1": (1, 2), "eos2": (2, 2), "eos3": (2, 2), "eos4": (2, 2), "eos5": (2, 2), "eos7": (3, 2), "eos8": (3, 3),
       "eos9": (1, 1), "eoswasg": (3, 3), "eco2n": (3, 3), "eco2n_v2": (3, 3), "eco2m": (3, 4)}


@contract("C03", BASE + [W + "_write_multi", R + "_read_multi"], budget=60, samples=300, fallback=1500)
def multi(D):
    eos = D.choice("eos", ["", None] + sorted(EOS))
    p = {"isothermal": D.choice("isothermal", [False, True])}
    if eos is not None:
        p["eos"] = eos
    nk, nph = EOS[eos] if eos else (None, None)
    given = D.choice("given", ["none", "n_component", "n_phase", "both"])
    if given in ("n_component", "both"):
        nk = p["n_component"] = D.int("n_component", 1, 9999)
    if given in ("n_phase", "both"):
        nph = p["n_phase"] = D.int("n_phase", 1, 99999)
    mass = D.choice("mass", [False, True])
    if mass:
        p["n_component_mass"] = D.int("n_component_mass", 1, 99999)
    rows = D.choice("diffusion", [0, 2])
    if rows:
        p["diffusion"] = [reals(D, "d%d" % i, 3) for i in range(rows)]
    if not eos and given != "both":
        D.assume(not mass)
        back = roundtrip(D, dict(p, isothermal=False))
        D.prove("no counts without an equation of state", "n_component" not in back and "n_phase" not in back)
        return
    w = dict(p)
    f = D.file("input")
    io(D).write(f, p, file_format="tough")
    with open(f) as fh:
        lines = fh.read().split("\n")
    i = [k for k, l in enumerate(lines) if l.startswith("MULTI")][0]
    neq = D.field(lines[i + 1][5:10], "int")
    D.prove("number of equations", D.eqx(neq, nk if w["isothermal"] else nk + 1), "got %r" % (neq,))
    D.prove("number of secondary parameters", D.eqx(D.field(lines[i + 1][15:20], "int"), 8 if rows else 6))
    back = io(D).read(f, file_format="tough")
    D.prove("n_component", D.eqx(back["n_component"], nk))
    D.prove("n_phase", D.eqx(back["n_phase"], nph))
    D.prove("isothermal", D.eqx(back["isothermal"], w["isothermal"]))
    maybe_eq(D, "n_component_mass", entry(back, "n_component_mass"), w.get("n_component_mass"), None)


@contract("C03", BASE + [W + "_write_start", W + "_write_nover"], budget=30, samples=50, fallback=200)
def flags_and_title(D):
    p = {"start": D.choice("start", [True, False]), "nover": D.choice("nover", [True, False])}
    kind = D.choice("title", ["", "one", "list", "twice the same"])
    t = ["%s title %d" % (D.text("t%d" % i, 5), i) for i in range(1 if kind != "list" else 3)]
    if kind == "twice the same":
        t = 2 * t
    for x in t:
        D.assume(D.not_(D.eqx(x[:5], "ROCKS")))
    for b in ("ELEME", "INCON", "GENER"):
        D.assume(D.not_(D.eqx(t[0][:5], b)))
    if kind == "one":
        p["title"] = t[0]
    elif kind:
        p["title"] = list(t)
    want = dict(p)
    back = roundtrip(D, p)
    for k in ("start", "nover"):
        D.prove(k, D.eqx(bool(entry(back, k)), want[k]))
    got = back["title"]
    got = got if isinstance(got, list) else [got]
    D.same("title", got, t if kind else [""])


PARTS = {"gener": (["generators"], "GENER"), "mesh": (["elements", "elements_order", "coordinates", "connections", "connections_order"], "ELEME"),
         "incon": (["initial_conditions", "initial_conditions_order"], "INCON"), "all": (None, "ROCKS")}


@contract("C03", BASE, budget=30, samples=60, fallback=60, symbolic=False)
def blocks_alone(D):
    """Files of blocks alone, as written by a block selection: no title, no other option; nothing is read after ENDCY."""
    labels = ["A%d%d%02d" % (D.int("a%d" % i, 0, 9), i, D.int("b%d" % i, 0, 99)) for i in range(3)]
    p = {"title": ["title %d" % i for i in range(D.choice("titles", [1, 3]))],
         "rocks": {"sand1": {"density": real(D, "density")}, "clay2": {"porosity": real(D, "porosity")}},
         "start": D.choice("start", [True, False]), "times": reals(D, "t", 9),
         "generators": {labels[0]: {"type": "MASS", "rates": real(D, "rate")}},
         "elements": {l: {"material": "sand1", "volume": real(D, "v" + l)} for l in labels},
         "connections": {labels[0] + labels[1]: {"permeability_direction": 2, "interface_area": real(D, "area")}},
         "initial_conditions": {labels[1]: {"values": reals(D, "x", 2)}}}
    whole = D.file("whole")
    io(D).write(whole, p, file_format="tough")
    want = io(D).read(whole, file_format="tough")
    D.prove("title", want["title"] == (p["title"] if len(p["title"]) > 1 else p["title"][0]), "got %r" % (want["title"],))
    block = D.choice("part", sorted(PARTS))
    names, first = PARTS[block]
    f = D.file("part")
    if block == "all":
        lines = open(whole).read().split("\n")[len(p["title"]):]
        with open(f, "w") as h:
            h.write("\n".join(lines))
        names = [k for k in want if k != "title"]
    else:
        io(D).write(f, p, file_format="tough", block=block)
    D.prove("the file starts with the block", open(f).read().startswith(first))
    kw = {"file_format": "tough"} if D.choice("format given", [True, False]) else {}
    back = io(D).read(f, **kw)
    D.prove("no title", "title" not in back, "got %r" % (back.get("title"),))
    D.prove("exactly the blocks of the file", set(back) == set(names) & set(want), "got %r" % (sorted(back),))
    for k in names:
        if k in want:
            D.prove("%s as in the complete file" % k, k in back and repr(back[k]) == repr(want[k]), "got %r" % (back.get(k),))
    if block == "all":
        with open(f, "a") as h:
            h.write("\n" + D.choice("after ENDCY", ["NOVER\n", "some notes\n\nTIMES\n", "ROCKS----1----*\nother     1.0\n\n"]))
        more = io(D).read(f, **kw)
        D.prove("nothing is read after ENDCY", repr(more) == repr(back), "got %r" % (more,))


@contract("C03", BASE + [W + "_write_times", R + "_read_times"], budget=60, samples=300, fallback=2000,
          bounded="at most 17 times")
def times(D):
    n = D.choice("n", [None, 1, 7, 8, 9, 16, 17] if D.symbolic else [None] + list(range(1, 40)))
    t = real(D, "t") if n is None else reals(D, "t", n)
    want = [t] if n is None else list(t)
    back = roundtrip(D, {"times": t})["times"]
    back = back if isinstance(back, list) else [back]
    D.prove("number of times", len(back) == len(want), "got %r" % (back,))
    for g, w in zip(back, want):
        D.prove("time in order", D.eqx(g, w, P4), "got %r, expected %r" % (g, w))


@contract("C03", BASE + [W + "_write_foft", W + "_write_coft", W + "_write_goft", R + "_read_oft"], budget=60,
          samples=300, fallback=2000, bounded="at most three entries")
def histories(D):
    key, n = D.choice("block", [("element_history", 1), ("connection_history", 2), ("generator_history", 1)])
    ln = D.choice("length", [5, 6, 7, 8, 9])
    k = D.choice("n", [1, 2, 3])
    want = ["".join(label(D, "l%d.%d" % (i, j), ln) for j in range(n)) for i in range(k)]
    back = roundtrip(D, {key: list(want)})
    D.same(key, back[key], want)
    for o in ("element_history", "connection_history", "generator_history"):
        if o != key:
            D.prove("no other history", o not in back)


@contract("C03", BASE + [W + "_write_diffu", R + "_read_diffu"], budget=60, samples=300, fallback=2000,
          bounded="at most three components and eight phases")
def diffusion(D):
    shape = D.choice("shape", [(1, 1), (2, 3), (3, 8), (1, 8)])
    rows = [reals(D, "d%d" % i, shape[1]) for i in range(shape[0])]
    want = [list(r) for r in rows]
    p = {"diffusion": rows}
    after = D.choice("next block", ["none", "output", "elements"])
    if after == "output":
        p["output"] = {"format": "csv", "variables": {"pressure": None}}
    elif after == "elements":
        p["elements"] = {label(D, "l", 5): {"volume": real(D, "v")}}
    back = roundtrip(D, p)
    D.same("diffusion", back["diffusion"], want, P3)
    if after == "output":
        D.prove("next block", "variables" in back["output"])
    elif after == "elements":
        D.prove("next block", len(back["elements"]) == 1)


@contract("C03", BASE + [W + "_write_outpu", R + "_read_outpu"], budget=60, samples=300, fallback=2000,
          bounded="at most three variables with at most three lines each")
def output(D):
    fmt = D.choice("format", [None, "csv", "TECPLOT"])
    shapes = [None, 0, 1, 2, (1, 1), (2, 2), (2, 1, 2)]
    nv = D.choice("n", [0, 1, 2, 3])
    names = ["pressure", "mass fraction gas", "x"]
    var = {}
    want = {}

    def i(n):
        return D.int(n, -9999, 99999)
    for k in range(nv):
        sh = D.choice("shape%d" % k, shapes if k == 0 or not D.symbolic else [2, (2, 1)] if k == 1 else [0])
        n = names[k]
        if sh is None:
            var[n], want[n] = None, [[]]
        elif sh == 0:
            var[n] = i(n)
            want[n] = [[var[n]]]
        elif isinstance(sh, int):
            var[n] = [i("%s%d" % (n, j)) for j in range(sh)]
            want[n] = [list(var[n])]
        else:
            var[n] = [[i("%s%d.%d" % (n, a, b)) for b in range(c)] for a, c in enumerate(sh)]
            want[n] = [list(r) for r in var[n]]
    D.assume(bool(fmt or nv))
    p = {"output": {}}
    if fmt or D.choice("explicit", [False, True]):
        p["output"]["format"] = fmt
    if nv or D.choice("explicit variables", [False, True]):
        p["output"]["variables"] = var
    nxt = D.choice("next block", ["none", "elements"])
    if nxt == "elements":
        p["elements"] = {label(D, "l", 5): {"volume": real(D, "v")}}
    back = roundtrip(D, p)
    got = back["output"]
    gf = entry(got, "format")
    D.prove("format", (gf or "").upper() == (fmt or "").upper(), "got %r" % (gf,))
    gv = entry(got, "variables") or {}
    D.prove("variables in order", list(gv) == list(want), "got %r" % (gv,))
    for n in want:
        g = gv.get(n)
        rows = [[]] if g is None else [[g]] if not isinstance(g, list) else (
            [list(r) if isinstance(r, list) else [r] for r in g] if any(isinstance(r, list) for r in g) else [g])
        D.same("variable %s" % n, rows, want[n])
    if nxt == "elements":
        D.prove("next block", "elements" in back and len(back["elements"]) == 1)


# the default initial conditions are records of PARAM
also("C03", "C02", "default_initial_conditions")
