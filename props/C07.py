"""C07: JSON input files are lossless."""
import numpy

from pyvc.domain import contract
from props.C06 import OLD, changed, freeze, target, text_of
from props.inputlib import io, label, opts, real, reals

J = "toughio._io.input.json._json."
FUN = [J + "write", J + "read", "toughio._io.input._helpers.write", "toughio._io.input._helpers.read"]


def plain(x):
    """What JSON is documented to give back."""
    if isinstance(x, numpy.generic):
        return x.item()
    if isinstance(x, numpy.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    return x


def leaf_kind(x):
    for t in (bool, int, float, str):
        if isinstance(x, t):
            return t.__name__
    return type(x).__name__


def equal(D, name, got, want, ordered=False):
    if isinstance(want, dict):
        ok = isinstance(got, dict)
        D.prove("%s: a dictionary" % name, ok, "%r" % (got,))
        if not ok:
            return
        g, w = list(got), list(want)
        D.prove("%s: same number of keys" % name, len(g) == len(w), "%r instead of %r" % (g, w))
        if ordered:
            for a, b in zip(g, w):
                D.prove("%s: same order" % name, D.eqx(a, b), "%r instead of %r" % (g, w))
        for k in w:
            inside = any(a is k or a == k for a in g)
            D.prove("%s: same keys" % name, inside, "%r instead of %r" % (g, w))
            if inside:
                D.prove("%s: type of the key" % name, all(type(a) is type(k) for a in g if a == k), "%r" % (g,))
                equal(D, "%s.%s" % (name, k if isinstance(k, str) and k.isascii() and k.islower() else "*"), got[k],
                      want[k], k in ("rocks", "elements", "connections", "initial_conditions"))
        return
    if isinstance(want, list):
        D.prove("%s: a list of the same length" % name, isinstance(got, list) and len(got) == len(want),
                "%r instead of %r" % (got, want))
        if isinstance(got, list):
            for a, b in zip(got, want):
                equal(D, name + "[]", a, b)
        return
    if not D.symbolic:
        D.prove("%s: same type" % name, leaf_kind(got) == leaf_kind(want), "%r instead of %r" % (got, want))
    D.prove("%s: same value" % name, got is want or D.eqx(got, want, None, 0.0), "%r instead of %r" % (got, want))


def _scalar(D, name, wrap=True):
    """A number or None, as a Python or numpy scalar."""
    v = D.opt(name, real(D, name))
    if D.symbolic or v is None:
        return v
    return D.choice(name + ".type", [float, numpy.float64, numpy.float32])(v)


def _integer(D, name, lo=-99999, hi=99999):
    v = D.int(name, lo, hi)
    if D.symbolic:
        return v
    return D.choice(name + ".type", [int, numpy.int64, numpy.int32])(v)


def _flag(D, name):
    v = D.bool(name)
    if D.symbolic:
        return v
    return D.choice(name + ".type", [bool, numpy.bool_])(v)


def _seq(D, name, conv, n=3):
    if conv is numpy.array:
        return D.np.array(reals(D, name, n))
    v = opts(D, name, n)
    if not D.symbolic:
        v = [x if x is None else t(x) for x, t in zip(v, D.choice(name + ".types", [[float] * n, [numpy.float64] * n, ([numpy.float32, float] * n)[:n]]))]
    return conv(v)


def parameters(D):
    conv = D.choice("container", [list, tuple, numpy.array])
    conv2 = list if conv is tuple else tuple
    keys = int if D.symbolic else D.choice("keys", [int, numpy.int64, numpy.int32])
    ln = 5 if D.symbolic else D.choice("ln", [5, 7])
    a, b = label(D, "la", ln), label(D, "lb", ln)
    r, q = D.text("ra", 5), D.text("rb", 5)
    D.distinct([a, b])
    D.distinct([r, q])

    def model(n):
        return {"id": _integer(D, n + ".id", 0, 99), "parameters": _seq(D, n + ".p", conv)}
    p = {
        "title": D.choice("title", ["text", ["text", "é\t\\\"quoted\""], numpy.array(["a", "b"])]),
        "isothermal": _flag(D, "isothermal"),
        "start": _flag(D, "start"),
        "n_component": _integer(D, "n_component"),
        "rocks": {
            r: {"density": _scalar(D, "rho"), "permeability": _seq(D, "k", conv), "relative_permeability": model("kr"),
                "initial_condition": _seq(D, "ic", conv, 6)},
            q: {"porosity": _scalar(D, "phi"), "permeability": _scalar(D, "k2"), "capillarity": model("pc"),
                "equivalent_pore_pressure": model("epp")},
        },
        "rocks_order": conv([q, r]),
        "flac": {"creep": _flag(D, "creep"), "version": _integer(D, "version")},
        "default": {"density": _scalar(D, "d"), "capillarity": model("dpc"), "permeability_model": model("pm")},
        "options": {"n_cycle": _integer(D, "n_cycle"), "t_max": _scalar(D, "t_max"), "t_steps": _seq(D, "dt", conv)},
        "extra_options": {keys(k): D.opt("mop%d" % k, _integer(D, "mop%d" % k)) for k in (24, 1, 10, 2)},
        "more_options": {keys(k): D.opt("momop%d" % k, _integer(D, "momop%d" % k)) for k in (40, 3, 21)},
        "selections": {"integers": {keys(k): _integer(D, "ie%d" % k) for k in (16, 2, 11)},
                       "floats": conv2([_seq(D, "fe", conv2), _seq(D, "fe2", conv2)])},
        "solver": {"method": _integer(D, "method"), "eps": _scalar(D, "eps")},
        "generators": {
            b: {"type": conv2(["COM1", "COM2"]), "rates": _seq(D, "rates", conv, 2)},
            a: {"type": "MASS", "times": _seq(D, "times", conv), "name": "W 1", "layer_thickness": _scalar(D, "h")},
        },
        "times": _seq(D, "out", conv),
        "element_history": conv([a, b]),
        "connection_history": conv([a + b]),
        "diffusion": conv2([_seq(D, "fd", conv2), _seq(D, "fd2", conv2)]),
        "output": {"format": "csv", "variables": {"pressure": None, "mass": [[_integer(D, "om"), 2], [3, None]]}},
        "elements": {b: {"volume": _scalar(D, "v"), "material": r, "center": _seq(D, "x", conv)},
                     a: {"nseq": _integer(D, "nseq"), "material": _integer(D, "mat"), "center": None}},
        "elements_order": conv([a, b]),
        "coordinates": _flag(D, "coordinates"),
        "connections": {b + a: {"nadd": conv([1, 2]), "nodal_distances": _seq(D, "nd", conv, 2)}, a + b: {}},
        "initial_conditions": {b: {"values": _seq(D, "iv", conv, 4)}, a: {"porosity": _scalar(D, "ip")}},
    }
    if D.symbolic:
        drop = D.choice("drop", [(), ("selections.integers", "rocks_order"), ("selections", "extra_options"),
                                 ("selections.floats", "more_options", "elements"),
                                 ("none:selections", "none:extra_options", "none:more_options"),
                                 ("none:integers", "none:flac", "empty:extra_options")])
    else:
        keys = [k for k in p]
        drop = [D.choice("drop%d" % i, ["", "selections.integers", "selections.floats", "none:selections",
                                        "none:integers", "none:extra_options", "none:more_options",
                                        "empty:extra_options", "empty:selections"] + keys) for i in range(4)]
    for k in drop:
        what, _, k = k.rpartition(":")
        if k.startswith("selections.") or k == "integers":
            s = p.get("selections")
            if s:
                if what:
                    s["integers"] = None
                else:
                    s.pop(k.split(".")[1], None)
        elif what:
            p[k] = None if what == "none" else {}
        else:
            p.pop(k, None)
    return p


@contract("C07", FUN, budget=60, samples=300, fallback=3000,
          bounded="two entries per table; values and labels unbounded")
def roundtrip(D):
    p = parameters(D)
    if not p:
        return
    want, fz = plain(p), freeze(p)
    ext = D.choice("name", ["x.json", "x.in"])
    f = D.file(ext)
    if ext == "x.json":
        io(D).write(f, p)
        back = io(D).read(f)
    else:
        io(D).write(f, p, file_format="json")
        back = io(D).read(f, file_format="json")
    r = changed(p, fz)
    D.prove("the caller's parameters are unchanged", r is None, r)
    equal(D, "", back, want, False)
    # writing what was read gives the same again
    g = D.file("again.json")
    io(D).write(g, back)
    equal(D, "second trip", io(D).read(g), want, False)


@contract("C07", FUN, budget=20, samples=100, fallback=500)
def refused(D):
    """A parameter that JSON cannot hold is refused and an existing file stays as it is."""
    bad = D.choice("bad", [{1, 2}, b"bytes", 1j, object(), numpy.array([1j]), len])
    p = {"title": "t", "times": [real(D, "t")], "default": {"density": real(D, "d")}} if D.symbolic else parameters(D)
    p["rocks"] = {"ROCK1": {"density": 1.0}}
    where = D.choice("where", ["top", "rock", "list"])
    if where == "top":
        p["n_phase"] = bad
    elif where == "rock":
        p["rocks"]["ROCK1"]["density"] = bad
    else:
        p["times"] = [1.0, bad]
    f = target(D, "x.json")
    D.raises("refused", (TypeError, ValueError), lambda: io(D).write(f, p))
    D.prove("the existing target file is untouched", text_of(f) == OLD, "%r" % text_of(f)[:200])
