"""C06: validation, completeness and frame condition of the input-file writer."""
import copy
import logging
import os

import numpy

from pyvc.domain import contract
from props.inputlib import io, label, opts, real, reals

W = "toughio._io.input.tough._write."
H = "toughio._io.input.tough._helpers."
BASE = ["toughio._io.input._helpers.write", W + "write", W + "write_buffer", H + "check_parameters", H + "block",
        H + "write_record"]
OLD = "previous content\nof the target\n"

# ------------------------------------------------------------------ reference tables (restated)

_KINDS = dict(
    int="n_component n_phase n_component_mass porosity_model version id n_iteration n_cycle n_second n_cycle_print "
        "verbosity method nseq nadd permeability_direction",
    bool="isothermal start nover coordinates creep",
    str="eos z_precond o_precond format",
    dict="flac rocks options extra_options more_options selections solver generators output elements connections "
         "initial_conditions default relative_permeability capillarity permeability_model equivalent_pore_pressure "
         "integers variables",
    array="rocks_order element_history connection_history generator_history diffusion elements_order "
          "connections_order initial_conditions_order initial_condition parameters floats center nodal_distances "
          "userx values",
    text_or_array="title name type",
    number_or_array="times permeability t_steps nads rates specific_enthalpy layer_thickness",
    text_or_int="material",
)
# the same key has another type in some sections
_SPECIAL = {("generators", "nseq"): "number_or_array", ("generators", "nadd"): "number_or_array",
            ("connections", "nadd"): "array"}
_OF = {k: t for t, ks in _KINDS.items() for k in ks.split()}

_SECTIONS = {
    "": "title eos n_component n_phase n_component_mass flac isothermal start nover rocks rocks_order options "
        "extra_options more_options selections solver generators times element_history connection_history "
        "generator_history diffusion output elements elements_order coordinates connections connections_order "
        "initial_conditions initial_conditions_order default",
    "rocks": "density porosity permeability conductivity specific_heat compressibility expansivity conductivity_dry "
             "tortuosity klinkenberg_parameter distribution_coefficient_3 distribution_coefficient_4 "
             "initial_condition relative_permeability capillarity permeability_model equivalent_pore_pressure",
    "flac": "creep porosity_model version",
    "model": "id parameters",
    "options": "n_iteration n_cycle n_second n_cycle_print verbosity temperature_dependence_gas "
               "effective_strength_vapor t_ini t_max t_steps t_step_max t_reduce_factor gravity mesh_scale_factor "
               "eps1 eps2 w_upstream w_newton derivative_factor",
    "selections": "integers floats",
    "solver": "method z_precond o_precond rel_iter_max eps",
    "generators": "name nseq nadd nads type times rates specific_enthalpy layer_thickness",
    "output": "format variables",
    "elements": "nseq nadd material volume heat_exchange_area permeability_modifier center",
    "connections": "nseq nadd permeability_direction nodal_distances interface_area gravity_cosine_angle "
                   "radiant_emittance_factor",
    "initial_conditions": "porosity userx values",
}
_BLOCK = {"generators": "gener", "elements": "mesh", "connections": "mesh", "initial_conditions": "incon"}


def kind(section, key):
    return _SPECIAL.get((section, key)) or _OF.get(key, "number")


WRONG = {
    "int": ["text", 1.5, [1], {}, numpy.float64(2.0)],
    "number": ["text", [1.0], (1.0,), {}, numpy.array([1.0])],
    "bool": ["text", 1, 0.0, [True], numpy.bool_(True)],
    "str": [1, 1.0, ["eos1"], {}, True],
    "dict": ["text", 1, 1.0, [1], (1,), numpy.array([1.0])],
    "array": ["text", 1, 1.0, {}, True],
    "text_or_array": [1, 1.0, {}, True],
    "number_or_array": ["text", {}],
    "text_or_int": [1.0, [1], {}],
}

# (where the section sits in the parameters, section)
_PLACES = [((), "")] + [((s, "<label>"), s) for s in ("rocks", "generators", "elements", "connections",
                                                      "initial_conditions")]
_PLACES += [(("default",), "rocks")]
_PLACES += [((s,), s) for s in ("flac", "options", "selections", "solver", "output")]
_PLACES += [(("extra_options",), "mop"), (("more_options",), "momop")]
_MODELS = ("relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure")
_PLACES += [(("rocks", "<label>", m), "model") for m in _MODELS] + [(("default", m), "model") for m in _MODELS]
_SECTIONS["mop"] = [i + 1 for i in range(24)]
_SECTIONS["momop"] = [i + 1 for i in range(40)]

WHERE = []
for path_, section_ in _PLACES:
    ks = _SECTIONS[section_]
    for k_ in (ks.split() if isinstance(ks, str) else ks):
        WHERE.append((path_, section_, k_, "int" if isinstance(k_, int) else kind(section_, k_)))

CHUNKS = 4


def base(D):
    """A complete parameter set with every section."""
    x = reals(D, "x", 6)
    model = {"id": 2, "parameters": [x[0], 0.5]}
    return {
        "title": "A title",
        "eos": "eos3",
        "flac": {"creep": False, "porosity_model": 1, "version": 6},
        "rocks": {"ROCK1": {"density": x[1], "porosity": 0.1, "permeability": [1e-12, 1e-12, 1e-13],
                            "relative_permeability": dict(model), "capillarity": dict(model),
                            "permeability_model": dict(model), "equivalent_pore_pressure": dict(model),
                            "initial_condition": [1e5, 20.0]},
                  "ROCK2": {"density": 2600.0, "tortuosity": 0.5}},
        "default": {"specific_heat": 1000.0, "initial_condition": [x[2], 0.5],
                    "relative_permeability": dict(model), "capillarity": dict(model),
                    "permeability_model": dict(model), "equivalent_pore_pressure": dict(model)},
        "options": {"n_cycle": 100, "t_max": 1e6, "t_steps": [1.0, 2.0]},
        "extra_options": {1: 3, 16: 4},
        "more_options": {1: 2, 4: 5},
        "selections": {"integers": {3: 2, 7: 1}, "floats": [0.5, 1.0]},
        "solver": {"method": 3, "z_precond": "Z1", "o_precond": "O0", "rel_iter_max": 0.1, "eps": 1e-6},
        "generators": {"GEN 1": {"type": "COM1", "rates": x[3], "specific_enthalpy": 4.2e5}},
        "times": [1.0, 2.0],
        "element_history": ["AAA 0"],
        "connection_history": ["AAA 0AAA 1"],
        "generator_history": ["AAA 0"],
        "diffusion": [[1e-5, 1e-6], [1e-5, 1e-6]],
        "output": {"format": "csv", "variables": {"pressure": None, "mass": [1, 2]}},
        "start": True,
        "nover": True,
        "elements": {"AAA 0": {"volume": x[4], "material": "ROCK1", "center": [0.0, 1.0, 2.0]},
                     "AAA 1": {"volume": 2.0, "material": "ROCK2", "center": [0.0, 1.0, 3.0]}},
        "coordinates": True,
        "connections": {"AAA 0AAA 1": {"interface_area": x[5], "nodal_distances": [1.0, 2.0]}},
        "initial_conditions": {"AAA 0": {"values": [1e5, 20.0], "porosity": 0.1}},
    }


FIRST = {"rocks": "ROCK1", "generators": "GEN 1", "elements": "AAA 0", "connections": "AAA 0AAA 1",
         "initial_conditions": "AAA 0"}


def put(p, path, key, v):
    d = p
    for i, s in enumerate(path):
        d = d[FIRST[path[0]] if s == "<label>" else s]
    d[key] = v


LAST = {"rocks": "ROCK2", "generators": "GEN 2", "elements": "AAA 1", "connections": "AAA 1AAA 0",
        "initial_conditions": "AAA 1"}


def put_last(p, path, key, v):
    """The same in the last entry, after keys that are not known."""
    d = p
    if path[:1] == ("rocks",):
        p["rocks"] = dict([("ROCK0", {})] + list(dict.items(p["rocks"])))
    for i, s in enumerate(path):
        if s == "<label>":
            s = LAST[path[0]]
            d.setdefault(s, {})
        elif s not in d:
            d[s] = {"id": 1, "parameters": [1.0]}
        d = d[s]
    for x in (p, d):
        old = [(k, y) for k, y in dict.items(x) if x is not d or k != key]
        x.clear()
        x["unknown"] = 1
        x.update(old)
    d[key] = v


def text_of(f):
    with open(f, newline="") as h:
        return h.read()


def lines_of(f):
    return text_of(f).split("\n")


def target(D, name="target"):
    f = D.file(name)
    with open(f, "w") as h:
        h.write(OLD)
    return f


def untouched(D, f):
    D.prove("the existing target file is untouched", text_of(f) == OLD, "%r" % text_of(f)[:200])


def write(D, f, p, **kw):
    io(D).write(f, p, file_format="tough", **kw)


def same_file(D, name, a, b):
    a, b = lines_of(a) if isinstance(a, str) else a, lines_of(b) if isinstance(b, str) else b
    D.prove("%s: number of lines" % name, len(a) == len(b), "%d lines instead of %d" % (len(a), len(b)))
    for x, y in zip(a, b):
        D.prove("%s: every line" % name, x is y or D.eqx(x, y), "%r instead of %r" % (x, y))


# ------------------------------------------------------------------ validation

def _wrong_types(D, part):
    path, section, key, kd = D.choice("where", WHERE[part::CHUNKS])
    bad = D.choice("value", WRONG[kd])
    p = base(D)
    if D.choice("company", ["alone", "after an unknown key, in the last entry"]) == "alone":
        put(p, path, key, bad)
    else:
        put_last(p, path, key, bad)
    f = target(D)
    block = D.choice("block", ["all", _BLOCK[section]]) if section in _BLOCK else "all"
    # tables that are walked through before they are checked are refused, whatever the error
    exc = Exception if key in ("rocks", "default") or path == ("default",) else TypeError
    D.raises("wrong type refused: %s%s" % ("/".join(path) + "/" if path else "", key), exc,
             lambda: write(D, f, p, block=block))
    untouched(D, f)


@contract("C06", BASE, budget=60, samples=400, fallback=2000, bounded="every key of every section", max_paths=4000)
def wrong_type_1(D):
    _wrong_types(D, 0)


@contract("C06", BASE, budget=60, samples=400, fallback=2000, bounded="every key of every section", max_paths=4000)
def wrong_type_2(D):
    _wrong_types(D, 1)


@contract("C06", BASE, budget=60, samples=400, fallback=2000, bounded="every key of every section", max_paths=4000)
def wrong_type_3(D):
    _wrong_types(D, 2)


@contract("C06", BASE, budget=60, samples=400, fallback=2000, bounded="every key of every section", max_paths=4000)
def wrong_type_4(D):
    _wrong_types(D, 3)


GOOD_INT = [2, numpy.int64(2), numpy.int32(2)]
GOOD_NUM = GOOD_INT + [2.5, numpy.float64(2.5), numpy.float32(2.5)]


@contract("C06", BASE, budget=60, samples=300, fallback=2000, bounded="every scalar key of every section",
          max_paths=4000)
def right_type(D):
    """Every supported scalar type is accepted and gives the file of the plain number."""
    where = [w for w in WHERE if w[3] in ("int", "number") and not (w[1] == "options" and w[2] == "verbosity")]
    path, section, key, kd = D.choice("where", where)
    p = base(D)
    q = copy.deepcopy(p)
    if D.symbolic:
        v = D.choice("value", [numpy.int32(2)] if kd == "int" else [numpy.int64(2), numpy.float32(2.5)])
    else:
        v = D.choice("value", (GOOD_INT if kd == "int" else GOOD_NUM)[1:])
    put(p, path, key, v)
    put(q, path, key, v.item() if isinstance(v, numpy.generic) else v)
    f, g = target(D, "f"), target(D, "g")
    block = _BLOCK.get(section, "all")
    write(D, f, p, block=block)
    write(D, g, q, block=block)
    same_file(D, "numpy scalars are numbers", f, g)
    D.prove("written", text_of(f) != OLD)


@contract("C06", BASE, budget=30, samples=60, fallback=300)
def unset(D):
    """None is accepted wherever a number may be given."""
    where = [w for w in WHERE if w[3] in ("number", "int") and w[1] not in ("flac", "solver", "")]
    path, section, key, kd = D.choice("where", where)
    p = base(D)
    put(p, path, key, None)
    f = target(D)
    write(D, f, p, block=_BLOCK.get(section, "all"))
    D.prove("written", text_of(f) != OLD)


@contract("C06", BASE, budget=30, samples=100, fallback=500)
def refused(D):
    """Unknown equation of state, block or format, and inconsistent data."""
    p = base(D)
    f = target(D)
    g = p["generators"]["GEN 1"]
    kw = {}
    exc = (TypeError, ValueError)
    k = D.choice("what", ["eos", "block", "format", "filename", "parameters", "permeability", "selections",
                          "gener length", "gener scalar", "table", "table type", "rate table", "gener 2d",
                          "floats 2d"])
    name = f
    if k == "eos":
        p["eos"] = D.choice("eos", ["eos0", "EOS3", "unknown"])
        kw["block"] = D.choice("block", ["all", "gener", "mesh", "incon"])
        exc = ValueError
    elif k == "block":
        kw["block"] = D.choice("block", ["", "ALL", "MESH", "rocks", "none"])
        exc = ValueError
    elif k == "format":
        kw["file_format"] = D.choice("fmt", ["TOUGH", "txt", ""])
        if kw["file_format"] == "":
            kw["file_format"] = "x"
        exc = ValueError
    elif k == "filename":
        name = D.choice("name", [None, 1, ["x"], b"x"])
        exc = TypeError
    elif k == "parameters":
        p = D.choice("p", [None, [], "text", 1])
        exc = TypeError
    elif k == "permeability":
        p["rocks"]["ROCK1"]["permeability"] = D.choice("k", [[1.0, 2.0], [1.0], [1.0, 2.0, 3.0, 4.0]])
    elif k == "selections":
        p["selections"]["floats"] = [1.0] * 9
    elif k == "floats 2d":
        p["selections"]["floats"] = [[1.0] * 3, [1.0] * 9]
    elif k == "gener length":
        g["type"] = ["COM1", "COM2"]
        n = D.choice("n", [1, 3])
        for key in ("rates", "specific_enthalpy", "nseq", "name", "layer_thickness"):
            g[key] = ["a"] * 2 if key == "name" else [1.0] * 2
        key = D.choice("key", ["rates", "specific_enthalpy", "nseq", "name", "layer_thickness"])
        g[key] = ["a"] * n if key == "name" else [1.0] * n
    elif k == "gener scalar":
        g["type"] = ["COM1", "COM2"]
        g["rates"] = [1.0, 2.0]
        g["specific_enthalpy"] = None
        key = D.choice("key", ["rates", "specific_enthalpy", "nseq", "layer_thickness"])
        g[key] = 1.0
    elif k == "table":
        n = D.choice("n", [1, 2, 3, 4])
        g["times"] = [1.0 * i for i in range(n)]
        g["specific_enthalpy"] = None
        g["rates"] = [1.0] * (n + 1 if n > 1 else D.choice("m", [1, 2]))
    elif k == "table type":
        g["times"] = [1.0, 2.0]
        g["specific_enthalpy"] = None
        g["rates"] = 1.0
    elif k == "rate table":
        key = D.choice("key", ["rates", "specific_enthalpy"])
        g[key] = D.choice("v", [[1.0, 2.0], (1.0,), numpy.array([1.0, 2.0])])
    elif k == "gener 2d":
        g[D.choice("key", ["rates", "nseq", "times"])] = [[1.0, 2.0], [3.0, 4.0]]
    kw.setdefault("file_format", "tough")
    D.raises("refused: %s" % k, exc, lambda: io(D).write(name, p, **kw))
    untouched(D, f)


class _Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.out = []

    def emit(self, r):
        self.out.append((r.levelno, r.getMessage()))


def logged(thunk):
    h = _Log()
    root = logging.getLogger()
    old, dis = root.level, logging.root.manager.disable
    root.addHandler(h)
    logging.disable(logging.NOTSET)
    try:
        thunk()
    finally:
        root.removeHandler(h)
        root.setLevel(old)
        logging.disable(dis)
    return h.out


UNKNOWN = ["Density", "foo", 99]


@contract("C06", BASE, budget=40, samples=150, fallback=800)
def unknown_keys(D):
    """Unknown keys are skipped with a warning: the file is the one without them."""
    places = [x for x in _PLACES if x[1] != "model" or x[0][-1] in _MODELS]
    path, section = D.choice("where", places)
    key = D.choice("key", UNKNOWN)
    p = base(D)
    q = copy.deepcopy(p)
    put(p, path, key, D.choice("value", [1.0, "text", [1], None]) if not D.symbolic else 7)
    f, g = target(D, "f"), target(D, "g")
    a = logged(lambda: write(D, f, p))
    b = logged(lambda: write(D, g, q))
    same_file(D, "unknown keys are skipped", f, g)
    D.prove("a warning names the unknown key",
            any(l == logging.WARNING and str(key) in m for l, m in a), "%r" % a)
    D.prove("no warning without unknown keys", not b, "%r" % b)


# ------------------------------------------------------------------ frame condition

def freeze(x):
    if isinstance(x, dict):
        return ("dict", x, [(k, freeze(v)) for k, v in dict.items(x)])
    if isinstance(x, (list, tuple)):
        return ("seq", x, [freeze(v) for v in x])
    if isinstance(x, numpy.ndarray):
        return ("array", x, x.copy())
    return ("leaf", x, None)


def changed(x, fz, path=""):
    """Where x differs from what it was, or None."""
    k, o, c = fz
    if x is not o and not (k == "leaf" and type(x) is type(o) and x == o):
        return path + " (another object)"
    if k == "dict":
        if list(dict.keys(x)) != [a for a, _ in c]:
            return path + " (keys)"
        for (a, z), v in zip(c, dict.values(x)):
            r = changed(v, z, "%s[%r]" % (path, a))
            if r:
                return r
    elif k == "seq":
        if len(x) != len(c):
            return path + " (length)"
        for i, (z, v) in enumerate(zip(c, x)):
            r = changed(v, z, "%s[%d]" % (path, i))
            if r:
                return r
    elif k == "array":
        if x.shape != c.shape or x.dtype != c.dtype or not all(
                u is v or u == v for u, v in zip(x.reshape(-1), c.reshape(-1))):
            return path + " (values)"
    return None


STATE = ["_io.input.tough._common", "_common", "_io.input.tough._helpers"]


def module_state(D):
    out = {}
    for m in STATE:
        mod = D.T(m)
        for n, v in vars(mod).items():
            if isinstance(v, (dict, list)) and not n.startswith("__"):
                out[m + "." + n] = v
    return out


def full(D, s="", plain=False):
    """Every section, with shared and array-valued data."""
    x = opts(D, "v" + s, 6) if not D.symbolic else reals(D, "v" + s, 6)
    arr = numpy.array([1.0, 2.0, 3.0])
    shared = [x[0], 2.0]
    conv = D.choice("container", [list, tuple, numpy.array]) if not plain else numpy.array
    p = base(D)
    p["title"] = conv(["first", "second"])
    p["rocks_order"] = conv(["ROCK2"])
    p["rocks"]["ROCK1"]["permeability"] = arr
    p["rocks"]["ROCK2"]["relative_permeability"] = {"id": 1, "parameters": shared}
    p["rocks"]["ROCK2"]["capillarity"] = {"id": 1, "parameters": shared}
    p["rocks"]["ROCK2"]["initial_condition"] = conv([1.0, 2.0, 3.0, 4.0, 5.0])
    p["default"]["capillarity"]["parameters"] = shared
    p["default"]["initial_condition"] = conv([1.0, 2.0, 3.0, 4.0, 5.0, 6.0])
    p["options"]["t_steps"] = D.choice("t_steps", [1.0, [1.0, 2.0], arr]) if not D.symbolic else arr
    p["selections"] = {"integers": {2: 3}, "floats": [shared, [x[1]]]}
    p["generators"]["GEN 2"] = {"type": conv(["COM1", "COM2"]), "rates": conv([1.0, 2.0]), "nseq": [1, 2]}
    p["generators"]["GEN 3"] = {"type": "MASS", "times": arr, "rates": [1.0, 2.0, 3.0],
                                "specific_enthalpy": conv([1.0, 2.0, 3.0])}
    p["times"] = D.choice("times", [3.0, shared]) if not D.symbolic else shared
    p["diffusion"] = conv([[1e-5, 1e-6], [1e-5, 1e-6]])
    p["output"]["variables"]["mass"] = [[1, 2], [3, 4]]
    p["elements"]["AAA 0"]["center"] = arr
    p["elements_order"] = conv(["AAA 1", "AAA 0"])
    p["connections"]["AAA 0AAA 1"].update(nadd=conv([1, 2]), nodal_distances=conv([1.0, 2.0]))
    p["connections_order"] = conv(["AAA 0AAA 1"])
    p["initial_conditions"]["AAA 0"].update(values=conv([1.0, 2.0, 3.0, 4.0, 5.0]), userx=conv([1.0, 2.0]))
    p["initial_conditions_order"] = conv(["AAA 0"])
    if not plain and D.choice("minimal", [False, True]):
        for k in D.choice("drop", [("default", "selections", "extra_options"), ("options", "solver", "flac"),
                                   ("more_options", "output", "generators", "eos")]):
            p.pop(k)
    return p


BLOCKS = ["all", "gener", "mesh", "incon"]


@contract("C06", BASE, budget=60, samples=150, fallback=1000)
def frame(D):
    """The caller's data and the library's defaults are unchanged and repeated writes are identical."""
    p = full(D)
    block = D.choice("block", BLOCKS)
    st = module_state(D)
    fp, fs = freeze(p), freeze(st)
    f, g = target(D, "f"), target(D, "g")
    write(D, f, p, block=block)
    r = changed(p, fp)
    D.prove("the caller's parameters are unchanged", r is None, r)
    r = changed(st, fs)
    D.prove("the library's defaults are unchanged", r is None, r)
    write(D, g, p, block=block)
    same_file(D, "repeated writes are identical", g, f)


@contract("C06", BASE, budget=60, samples=100, fallback=600)
def history(D):
    """Writing, reading and changing results of other calls leave no trace in a write."""
    p = full(D, plain=D.symbolic)
    q = base(D)
    small = {"title": "small", "rocks": {"ROCK9": {}}}
    who = D.choice("who", ["small", "base", "full"])
    r = {"small": small, "base": q, "full": p}[who]
    f, g, h = target(D, "f"), target(D, "g"), target(D, "h")
    write(D, f, r)
    before = lines_of(f)
    o = D.choice("other", [x for x in ("small", "base", "full") if x != who])
    other = {"small": small, "base": q, "full": p}[o]
    k = D.choice("between", ["write", "failed write", "read"])
    if k == "write":
        write(D, g, other)
    elif k == "failed write":
        bad = dict(other)
        bad["initial_conditions"] = {"AAA 0": {"values": "text"}}
        try:
            write(D, g, bad)
        except TypeError:
            pass
    else:
        write(D, g, other)
        back = io(D).read(g, file_format="tough")
        spoil(back)
    write(D, h, r)
    same_file(D, "a write does not depend on what came before", lines_of(h), before)


def spoil(x, depth=0):
    """Overwrite everything a caller may overwrite in a result."""
    if isinstance(x, dict):
        for k in list(dict.keys(x)):
            v = dict.__getitem__(x, k)
            if isinstance(v, (dict, list)):
                spoil(v, depth + 1)
            elif not isinstance(v, (tuple, numpy.ndarray)):
                dict.__setitem__(x, k, -77)
        dict.__setitem__(x, "spoiled", -77)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                spoil(v, depth + 1)
            else:
                x[i] = -77
        x.append(-77)


@contract("C06", BASE + ["toughio._io.input._helpers.read"], budget=60, samples=100, fallback=600)
def read_is_fresh(D):
    """Two reads of a file are equal and share nothing with each other or with the defaults."""
    p = D.choice("what", [base, full, lambda D: {"title": "small", "rocks": {"ROCK9": {}}}])(D)
    f = target(D)
    write(D, f, p)
    st = module_state(D)
    fs = freeze(st)
    a = io(D).read(f, file_format="tough")
    keep = copy.deepcopy(a)
    spoil(a)
    b = io(D).read(f, file_format="tough")
    D.same("a read does not depend on what came before", b, keep)
    r = changed(st, fs)
    D.prove("the library's defaults are unchanged", r is None, r)


# ------------------------------------------------------------------ block selection

ORDER = ["ROCKS", "RPCAP", "FLAC", "MULTI", "SOLVR", "START", "PARAM", "SELEC", "INDOM", "MOMOP", "TIMES", "FOFT",
         "COFT", "GOFT", "GENER", "DIFFU", "OUTPU", "ELEME", "COORD", "CONNE", "INCON", "NOVER", "ENDCY"]
TOGGLE = {"RPCAP": None, "FLAC": "flac", "MULTI": "eos", "SOLVR": "solver", "START": "start", "SELEC": "selections",
          "INDOM": None, "MOMOP": "more_options", "TIMES": "times", "FOFT": "element_history",
          "COFT": "connection_history", "GOFT": "generator_history", "GENER": "generators", "DIFFU": "diffusion",
          "OUTPU": "output", "ELEME": "elements", "COORD": "coordinates", "CONNE": "connections",
          "INCON": "initial_conditions", "NOVER": "nover"}
ALWAYS = {"ROCKS", "PARAM", "ENDCY"}
NAMED = {"all": set(ORDER), "gener": {"GENER"}, "mesh": {"ELEME", "COORD", "CONNE"}, "incon": {"INCON"}}


def select(D, p, on):
    for b, key in TOGGLE.items():
        if b in on:
            continue
        if b == "RPCAP":
            p["default"].pop("relative_permeability")
            p["default"].pop("capillarity")
        elif b == "INDOM":
            for r in p["rocks"].values():
                r.pop("initial_condition", None)
        elif b in ("START", "NOVER"):
            p[key] = False
        else:
            p.pop(key)


def headers(lines):
    out = []
    for l in lines:
        h = l[:5].rstrip() if isinstance(l, str) else ""
        if h in ORDER and l[5:].startswith("----1----*"):
            out.append(h)
    return out


@contract("C06", BASE, budget=120, samples=200, fallback=1500, bounded="one parameter set with any sections left out")
def selection(D):
    """Exactly the named blocks, each once, in order, and with the same content in every selection."""
    opt = sorted(TOGGLE)
    if D.symbolic:
        mode, b = D.choice("sections", [(m, b) for b in opt for m in ("only", "without")] + [("every", None)])
        on = {"only": {b}, "without": set(opt) - {b}, "every": set(opt)}[mode]
    else:
        on = {b for b in opt if D.choice("has " + b, [False, True])}
    if "COORD" in on and "ELEME" not in on:
        on.add("ELEME")
    p = base(D)
    nt = D.choice("titles", [1, 3]) if not D.symbolic else 2
    p["title"] = ["title %d" % i for i in range(nt)]
    select(D, p, on)
    alls = target(D, "all")
    write(D, alls, p)
    la = lines_of(alls)
    want = [b for b in ORDER if b in on or b in ALWAYS]
    D.prove("blocks in the documented order, each once", headers(la) == want, "%r instead of %r" % (headers(la), want))
    D.prove("title lines first", [l.rstrip() for l in la[:nt]] == p["title"], "%r" % la[:4])
    D.prove("first block after the title", la[nt].startswith("ROCKS"), "%r" % la[:5])
    tail = [l for l in la if l.strip()]
    D.prove("ENDCY last", tail[-1].startswith("ENDCY"), "%r" % tail[-1])
    for block in BLOCKS[1:]:
        f = target(D, block)
        write(D, f, p, block=block)
        lf = lines_of(f)
        D.prove("%s: ends with a newline" % block, lf[-1] == "")
        lf = lf[:-1]
        names = [b for b in want if b in NAMED[block]]
        D.prove("%s: exactly the named blocks" % block, headers(lf) == names, "%r" % headers(lf))
        D.prove("%s: nothing before the first block" % block, not lf or headers(lf[:1]) == names[:1], "%r" % lf[:2])
        # the part of the complete file
        part, cur = [], None
        for l in la:
            h = headers([l])
            cur = h[0] if h else cur
            if cur in NAMED[block]:
                part.append(l)
        same_file(D, "%s: as in the complete file" % block, lf, part)
