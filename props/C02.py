"""C02: materials."""
from pyvc.domain import contract
from props.inputlib import (P3, P4, P13, ROCK_REALS, entry, maybe_eq, name5, not_a_number, only, opts, real, reals,
                            roundtrip, same_keys, trim)

W = "toughio._io.input.tough._write."
R = "toughio._io.input.tough._read."
ROCKS = [W + "write", W + "write_buffer", W + "_write_rocks", R + "read_buffer", R + "_read_rocks",
         "toughio._io.input.tough._helpers.write_record", "toughio._io.input.tough._helpers.read_record"]


def _permeability(D, n, kinds=("scalar", "list")):
    k = D.choice(n + ".kind", list(kinds))
    return real(D, n) if k == "scalar" else reals(D, n, 3)


def _same_perm(D, name, got, want, prec=P4):
    """A scalar means the same value in the three directions."""
    g = got if isinstance(got, (list, tuple)) else [got] * 3
    w = want if isinstance(want, (list, tuple)) else [want] * 3
    maybe_eq(D, name, list(g), list(w), prec)


def _same_rock(D, name, got, want, allowed):
    for k in ROCK_REALS:
        maybe_eq(D, "%s %s" % (name, k), entry(got, k), want.get(k), P4)
    _same_perm(D, "%s permeability" % name, entry(got, "permeability"), want.get("permeability"))
    only(D, name, got, set(ROCK_REALS) | {"permeability"} | set(allowed))


def _names(D, n):
    names = [name5(D, "rock%d" % i, D.choice("len%d" % i, [5, 3]) if i == 0 else 5) for i in range(n)]
    D.distinct(names)
    return names


@contract("C02", ROCKS, budget=200, samples=150, fallback=1200, bounded="two rocks; values unbounded")
def rock_properties(D):
    names = _names(D, 2)
    rocks = {}
    second = D.choice("also in the second rock", ["density", "tortuosity"])
    for i, n in enumerate(names):
        ks = ROCK_REALS if i == 0 or not D.symbolic else [second]
        rocks[n] = {k: D.opt("%s%d" % (k, i), real(D, "%s%d" % (k, i))) for k in ks}
        rocks[n]["permeability"] = _permeability(D, "permeability%d" % i, ["scalar"] if i else ["list"])
    want = {n: dict(v) for n, v in rocks.items()}
    back = roundtrip(D, {"rocks": rocks})
    same_keys(D, "rocks", back["rocks"], names)
    for i, n in enumerate(names):
        D.prove("rock keeps its name", dict.__contains__(back["rocks"], n))
        _same_rock(D, "rock %d" % i, back["rocks"][n], want[n], ())


@contract("C02", ROCKS, budget=200, samples=300, fallback=2000, bounded="two rocks; values unbounded")
def rock_defaults(D):
    """What is not set for a rock comes from 'default', or stays absent."""
    names = _names(D, 2)
    key = D.choice("key", ROCK_REALS + ["permeability"])
    mode = D.choice("mode", ["rock", "default", "both", "none"])
    v = real(D, "v")
    d = real(D, "d")
    other = "compressibility" if key == "density" else "density"
    o = real(D, "o")
    rocks = {n: {} for n in names}
    default = {}
    rocks[names[1]][other] = o
    if mode in ("rock", "both"):
        rocks[names[0]][key] = v
    if mode in ("default", "both"):
        default[key] = d
    want = []
    for n in names:
        w = dict(default)
        w.update(rocks[n])
        want.append(w)
    back = roundtrip(D, {"rocks": rocks, "default": default})
    same_keys(D, "rocks", back["rocks"], names)
    for i, n in enumerate(names):
        _same_rock(D, "rock %d" % i, back["rocks"][n], want[i], ())


@contract("C02", ROCKS, budget=60, samples=200, fallback=1500, bounded="at most three rocks")
def rock_order(D):
    names = [name5(D, "rock%d" % i) for i in range(3)]
    D.distinct(names)
    rocks = {n: {"density": real(D, "density%d" % i)} for i, n in enumerate(names)}
    perm = D.choice("order", [None, [2, 0, 1], [1, 2, 0], [2], [1, 0]])
    params = {"rocks": rocks}
    want = list(names)
    if perm is not None:
        kind = D.choice("kind", [list, tuple])
        params["rocks_order"] = kind(names[i] for i in perm)
        want = [names[i] for i in perm] + [n for i, n in enumerate(names) if i not in perm]
    back = roundtrip(D, params)
    same_keys(D, "rocks", back["rocks"], want)
    D.same("rocks_order", back["rocks_order"], want)
    for i, n in enumerate(names):
        D.prove("rock keeps its density", D.eqx(entry(back["rocks"][n], "density"), rocks[n]["density"], P4))


def _model(D, n, lens, idmax=99999):
    ln = D.choice(n + ".n", lens)
    return {"id": D.int(n + ".id", 0, idmax), "parameters": reals(D, n, ln)}


def _same_model(D, name, got, want):
    if want is None:
        D.prove("%s stays absent" % name, D.eqx(None, got), "got %r" % (got,))
        return
    ok = isinstance(got, dict)
    D.prove("%s is present" % name, ok, "got %r" % (got,))
    if not ok:
        return
    D.prove("%s id" % name, D.eqx(entry(got, "id"), want["id"]), "got %r, expected %r" % (got, want))
    p = entry(got, "parameters")
    D.prove("%s number of parameters" % name, isinstance(p, list) and len(p) == len(want["parameters"]),
            "got %r" % (p,))
    for i, (g, w) in enumerate(zip(p, want["parameters"])):
        D.prove("%s parameter %d" % (name, i), D.eqx(g, w, P3), "got %r, expected %r" % (g, w))


RPCAP = ROCKS + [W + "_write_rpcap", R + "_read_rpcap"]


@contract("C02", RPCAP, budget=200, samples=300, fallback=2000, bounded="two rocks, models of 0, 1, 4 or 7 parameters")
def rock_models(D):
    names = _names(D, 2)
    rocks = {}
    for i, n in enumerate(names):
        rocks[n] = {"density": D.opt("density%d" % i, real(D, "density%d" % i)),
                    "tortuosity": D.opt("tortuosity%d" % i, real(D, "tortuosity%d" % i)) if i == 0 else None}
        kinds = ["both", "kr", "pc", "none"] if i == 0 else ["both", "none"]
        k = D.choice("models%d" % i, kinds)
        if k in ("both", "kr"):
            rocks[n]["relative_permeability"] = _model(D, "kr%d" % i, [0, 1, 7] if i == 0 else [4])
        if k in ("both", "pc"):
            rocks[n]["capillarity"] = _model(D, "pc%d" % i, [1, 7] if i == 0 else [0])
    want = {n: dict(v) for n, v in rocks.items()}
    back = roundtrip(D, {"rocks": rocks})
    same_keys(D, "rocks", back["rocks"], names)
    for i, n in enumerate(names):
        got = back["rocks"][n]
        _same_rock(D, "rock %d" % i, got, {k: want[n][k] for k in ("density", "tortuosity")},
                   ("relative_permeability", "capillarity"))
        for k in ("relative_permeability", "capillarity"):
            _same_model(D, "rock %d %s" % (i, k), entry(got, k), want[n].get(k))


@contract("C02", RPCAP, budget=60, samples=300, fallback=2000, bounded="models of 0, 1 or 7 parameters")
def default_models(D):
    default = {}
    k = D.choice("models", ["both", "kr", "pc"])
    if k in ("both", "kr"):
        default["relative_permeability"] = _model(D, "kr", [0, 1, 7])
    if k in ("both", "pc"):
        default["capillarity"] = _model(D, "pc", [0, 1, 7])
    n = name5(D, "rock")
    back = roundtrip(D, {"rocks": {n: {"density": real(D, "density")}}, "default": dict(default)})
    for k in ("relative_permeability", "capillarity"):
        _same_model(D, "default %s" % k, entry(back["default"], k), default.get(k))
        D.prove("rock has no model of its own", D.eqx(None, entry(back["rocks"][n], k)))


@contract("C02", ROCKS + [W + "_write_flac", R + "_read_flac"], budget=200, samples=300, fallback=2000,
          bounded="two rocks, models of 0, 2 or 7 parameters")
def flac_models(D):
    names = _names(D, 2)
    flac = {"creep": D.bool("creep"), "porosity_model": D.opt("porosity_model", D.int("porosity_model", -9999, 99999)),
            "version": D.opt("version", D.int("version", -9999, 99999))}
    rocks = {n: {"density": real(D, "density%d" % i)} for i, n in enumerate(names)}
    default = {}
    want = {n: {} for n in names}
    for key, builtin, idmax in (("permeability_model", 1, 999999), ("equivalent_pore_pressure", 3, 99999)):
        where = D.choice(key, ["rock", "default", "none", "other rock"])
        base = {"id": builtin, "parameters": []}
        if where == "default":
            base = default[key] = _model(D, key, [2], idmax)
        for i, n in enumerate(names):
            if where == "rock" or where == "other rock" and i == 1:
                rocks[n][key] = _model(D, key + str(i), [0, 7] if i == 0 else [2], idmax)
                want[n][key] = rocks[n][key]
            else:
                want[n][key] = base
    order = D.choice("order", [None, [1, 0]] if D.symbolic else [None, [1, 0], [1], [0]])
    params = {"rocks": rocks, "default": default, "flac": flac}
    if order:
        params["rocks_order"] = [names[i] for i in order]
    back = roundtrip(D, params)
    D.prove("creep", D.eqx(entry(back["flac"], "creep"), flac["creep"]))
    for k in ("porosity_model", "version"):
        D.prove(k, D.eqx(entry(back["flac"], k), flac[k]))
    for i, n in enumerate(names):
        for key in ("permeability_model", "equivalent_pore_pressure"):
            _same_model(D, "rock %d %s" % (i, key), entry(back["rocks"][n], key), want[n][key])


@contract("C02", ROCKS + [W + "_write_indom", R + "_read_indom"], budget=200, samples=400, fallback=3000,
          bounded="two rocks with at most eight initial conditions each")
def rock_initial_conditions(D):
    names = _names(D, 2)
    for n in names:
        not_a_number(D, n)
    rocks = {}
    want = []
    if D.symbolic:
        k0, k1, order = D.choice("case", [(6, 2, None), (3, 5, [1, 0]), (1, None, None), (None, 5, [1, 0])])
    else:
        k0, k1 = D.choice("n0", [None, 1, 2, 3, 4, 5, 6, 8]), D.choice("n1", [None, 1, 4, 5, 6, 8])
        order = D.choice("order", [None, [1, 0], [1], [0]])
    for i, n in enumerate(names):
        rocks[n] = {"density": real(D, "density%d" % i)}
        k = (k0, k1)[i]
        if k is not None:
            rocks[n]["initial_condition"] = opts(D, "x%d" % i, k)
            want.append(trim(D, rocks[n]["initial_condition"]))
        else:
            want.append([])
    params = {"rocks": rocks, "start": True}
    if order:
        params["rocks_order"] = [names[i] for i in order]
    back = roundtrip(D, params)
    for i, n in enumerate(names):
        got = entry(back["rocks"][n], "initial_condition")
        if not want[i]:
            D.prove("stays absent", D.eqx(None, got), "got %r" % (got,))
            continue
        ok = isinstance(got, list) and len(got) == len(want[i])
        D.prove("all initial conditions of rock %d" % i, ok, "got %r, expected %r" % (got, want[i]))
        if ok:
            for g, w in zip(got, want[i]):
                D.prove("initial condition of rock %d" % i, D.eqx(g, w, P13), "got %r, expected %r" % (got, want[i]))


@contract("C02", [W + "_write_param", R + "_read_param"], budget=60, samples=400, fallback=3000,
          bounded="at most eight initial conditions")
def default_initial_conditions(D):
    k = D.choice("n", [None, 1, 4, 5, 8])
    default = {}
    want = []
    if k is not None:
        default["initial_condition"] = opts(D, "x", k)
        want = trim(D, default["initial_condition"])
    n = name5(D, "rock")
    back = roundtrip(D, {"rocks": {n: {"density": real(D, "density")}}, "default": default})
    got = entry(back["default"], "initial_condition")
    if not want:
        D.prove("stays absent", D.eqx(None, got), "got %r" % (got,))
        return
    ok = isinstance(got, list) and len(got) == len(want)
    D.prove("all default initial conditions", ok, "got %r, expected %r" % (got, want))
    if ok:
        for g, w in zip(got, want):
            D.prove("default initial condition", D.eqx(g, w, P13), "got %r, expected %r" % (got, want))
