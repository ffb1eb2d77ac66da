"""C19: relative permeability models."""
import numpy as np

from pyvc.domain import contract

RP = "toughio.relative_permeability."


def _params(D, model, pre=""):
    r = lambda name, *a, **kw: D.real(pre + name, *a, **kw)  # noqa: E731
    if model == "Corey" or model == "Grant":
        slr, sgr = r("slr", 0, 1, hi_open=True), r("sgr", 0, 1, hi_open=True)
        D.assume(D.lt(slr + sgr, 1))
        return [slr, sgr]
    if model == "FattKlikoff":
        return [r("slr", 0, 1, hi_open=True)]
    if model == "Linear":
        p = [r(n, 0, 1) for n in ("slmin", "sgmin", "slmax", "sgmax")]
        D.assume(D.lt(p[0], p[2]))
        D.assume(D.lt(p[1], p[3]))
        return p
    if model == "Pickens":
        return [r("x", 0, 50, lo_open=True)]
    if model == "vanGenuchtenMualem":
        m = r("m", 0.05 if not D.symbolic else 0, 1, lo_open=True, hi_open=True)
        slr, sls, sgr = r("slr", 0, 1, hi_open=True), r("sls", 0, 1), r("sgr", 0, 1, hi_open=True, edge=(0.0,))
        D.assume(D.lt(slr, sls))
        D.assume(D.lt(slr + sgr, 1))
        return [m, slr, sls, sgr]
    if model == "Verma":
        slr, sls = r("slr", 0, 1), r("sls", 0, 1)
        D.assume(D.lt(slr, sls))
        a, b, c = r("a", -3, 3, edge=(1.259,)), r("b", -3, 3, edge=(-1.7615,)), r("c", -3, 3, edge=(0.5089,))
        D.assume(D.le(b, 0, 0))
        D.assume(D.le(b + 2 * c, 0, 0))
        return [slr, sls, a, b, c]
    raise AssertionError(model)


IDS = {
    "Linear": (1, "Linear", ["slmin", "sgmin", "slmax", "sgmax"]),
    "Pickens": (2, "Pickens", ["x"]),
    "Corey": (3, "Corey", ["slr", "sgr"]),
    "Grant": (4, "Grant", ["slr", "sgr"]),
    "FattKlikoff": (6, "Fatt-Klikoff", ["slr"]),
    "vanGenuchtenMualem": (7, "van Genuchten-Mualem", ["m", "slr", "sls", "sgr"]),
    "Verma": (8, "Verma", ["slr", "sls", "a", "b", "c"]),
}

FILES = {"Linear": "_linear", "Pickens": "_pickens", "Corey": "_corey", "Grant": "_grant",
         "FattKlikoff": "_fatt_klikoff", "vanGenuchtenMualem": "_van_genuchten_mualem", "Verma": "_verma"}


def _clip(D, x):
    return D.mini(D.maxi(x, 0.0), 1.0)


def _spec(D, model, p, s):
    """Documented (kl, kg); s, p real terms."""
    if model == "Linear":
        slmin, sgmin, slmax, sgmax = p
        return (_clip(D, (s - slmin) / (slmax - slmin)), _clip(D, (1 - s - sgmin) / (sgmax - sgmin)))
    if model == "Pickens":
        return D.pow(s, p[0]), 1.0
    if model == "FattKlikoff":
        S = D.maxi((s - p[0]) / (1 - p[0]), 0.0)
        return S * S * S, (1 - S) * (1 - S) * (1 - S)
    if model in ("Corey", "Grant"):
        slr, sgr = p
        S = _clip(D, (s - slr) / (1 - slr - sgr))
        kl = S * S * S * S
        return kl, ((1 - S * S) * (1 - S) * (1 - S) if model == "Corey" else 1 - kl)
    if model == "Verma":
        slr, sls, a, b, c = p
        S = _clip(D, (s - slr) / (sls - slr))
        return S * S * S, _clip(D, a + b * S + c * S * S)
    m, slr, sls, sgr = p
    if D.truth(D.le(sls, s, 0)):
        return 1.0, 0.0
    if D.truth(D.le(s, slr, 0)):
        kl = 0.0
    else:
        S = (s - slr) / (sls - slr)
        q = 1 - D.pow(1 - D.pow(S, 1 / m), m)
        kl = D.sqrt(S) * q * q
    if D.truth(D.le(sgr, 0, 0)):
        return kl, 1 - kl
    S = _clip(D, (s - slr) / (1 - slr - sgr))
    return kl, (1 - S * S) * (1 - S) * (1 - S)


def _make(D, model):
    cls = getattr(D.T("relative_permeability"), model)
    p = _params(D, model)
    return cls(*p), p


def _gen(model):
    fns = [RP + FILES[model] + "." + model + "._eval", RP + "_base.BaseRelativePermeability.__call__"]

    def formula(D):
        m, p = _make(D, model)
        s = D.real("sl", 0, 1)
        kl, kg = m(s)
        el, eg = _spec(D, model, p, s)
        D.prove("kl is a real number", D.isreal(kl))
        D.prove("kg is a real number", D.isreal(kg))
        # floats: the two sides may differ by rounding only
        D.close("kl follows the formula", kl, el, 1e-7, 1e-7)
        D.close("kg follows the formula", kg, eg, 1e-7, 1e-7)

    def physical(D):
        m, p = _make(D, model)
        s1, s2 = D.real("s1", 0, 1), D.real("s2", 0, 1)
        D.assume(D.le(s1, s2, 0))
        k1, g1 = m(s1)
        tol = 1e-9
        D.prove("0 <= kl", D.le(0.0, k1 + (0 if D.symbolic else tol)))
        D.prove("kl <= 1", D.le(k1, 1.0))
        D.prove("0 <= kg", D.le(0.0, g1 + (0 if D.symbolic else tol)))
        D.prove("kg <= 1", D.le(g1, 1.0))
        k2, g2 = m(s2)
        D.prove("kl never decreases", D.le(k1, k2 + (0 if D.symbolic else tol)))
        D.prove("kg never increases", D.le(g2, g1 + (0 if D.symbolic else tol)))

    formula.__name__ = "%s_formula" % model
    physical.__name__ = "%s_physical" % model
    contract("C19", fns, budget=60, fallback=3000, samples=300)(formula)
    contract("C19", fns, budget=100, fallback=3000, samples=300)(physical)


for _m in IDS:
    _gen(_m)


@contract("C19", [RP + "_base.BaseRelativePermeability.__call__"], samples=100, fallback=1000,
          bounded="arrays of at most 3 saturations")
def array_is_elementwise(D):
    model = D.choice("model", sorted(IDS))
    m, p = _make(D, model)
    n = D.choice("n", [1, 2, 3])
    s = [D.real("s%d" % i, 0, 1) for i in range(n)]
    kind = D.choice("kind", ["list", "array", "integers"])
    if kind == "integers":
        s = D.choice("integers", [[0, 1, 0], [1, 1, 0], [0, 0, 1]])[:n]
    out = m(s if kind == "list" else D.np.array(s))
    D.prove("two rows", len(out) == 2)
    D.prove("one column per saturation", D.np.shape(out) == (2, n))
    for i in range(n):
        kl, kg = m(s[i])
        D.close("kl[%d]" % i, out[0][i], kl)
        D.close("kg[%d]" % i, out[1][i], kg)


@contract("C19", [RP + "_base.BaseRelativePermeability.__call__"], samples=100, fallback=1000,
          bounded="arrays of at most 3 saturations")
def saturation_outside_is_rejected(D):
    model = D.choice("model", sorted(IDS))
    m, p = _make(D, model)
    bad = D.real("bad", -10, 10, edge=(-1e-9, 1 + 1e-9, 2.0, -1.0))
    D.assume(D.or_(D.lt(bad, 0), D.lt(1, bad)))
    kind = D.choice("kind", ["scalar", "first", "last"])
    if kind == "scalar":
        D.raises("rejected", ValueError, lambda: m(bad))
    else:
        s = [D.real("s%d" % i, 0, 1) for i in range(2)]
        s = [bad] + s if kind == "first" else s + [bad]
        D.raises("rejected", ValueError, lambda: m(D.np.array(s)))


@contract("C19", [RP + "_base.BaseRelativePermeability.id", RP + "_base.BaseRelativePermeability.name"],
          samples=50, fallback=500)
def identity(D):
    model = D.choice("model", sorted(IDS))
    m, p = _make(D, model)
    i, name, names = IDS[model]
    D.prove("id", m.id == i, "%s has id %r, TOUGH's is %r" % (model, m.id, i))
    D.prove("name", m.name == name)
    got = m.parameters
    D.prove("number of parameters", len(got) == len(p))
    for k in range(len(p)):
        D.close("parameter %d is %s" % (k + 1, names[k]), got[k], p[k])
    if model == "Verma":
        # the coefficients published for steam are those of a model made without any
        D.prove("published coefficients", [float(x) for x in type(m)().parameters] == [0.2, 0.895, 1.259, -1.7615, 0.5089])
    # keyword construction fixes the documented order
    m2 = type(m)(**dict(zip(names, p)))
    for k in range(len(p)):
        D.close("keyword %s" % names[k], m2.parameters[k], p[k])
    # assigning the list sets exactly that list, on this model only
    q = [D.real("q%d" % k, 0, 1) for k in range(len(p))]
    m2.parameters = q
    for k in range(len(p)):
        D.close("assigned %d" % k, m2.parameters[k], q[k])
        D.close("other model unchanged %d" % k, m.parameters[k], p[k])
    others = [getattr(D.T("relative_permeability"), o)._id for o in IDS if o != model]
    D.prove("id is distinct", m.id not in others)


@contract("C19", [RP + "_corey.Corey.__init__", RP + "_grant.Grant.__init__", RP + "_linear.Linear.__init__",
                  RP + "_fatt_klikoff.FattKlikoff.__init__"], samples=100, fallback=1000)
def inadmissible_parameters_rejected(D):
    model = D.choice("model", ["Corey", "Grant", "Linear", "FattKlikoff", "wrong count"])
    R = D.T("relative_permeability")
    a, b, c, d = [D.real(n, -2, 3, edge=(0.0, 1.0, 0.5)) for n in "abcd"]
    if model in ("Corey", "Grant"):
        D.assume(D.le(1, a + b, 0))
        D.raises("slr + sgr >= 1", ValueError, lambda: getattr(R, model)(a, b))
    elif model == "Linear":
        D.assume(D.or_(D.le(c, a, 0), D.le(d, b, 0)))
        D.raises("empty range", ValueError, lambda: R.Linear(a, b, c, d))
    elif model == "FattKlikoff":
        D.assume(D.le(1, a, 0))
        D.raises("slr >= 1", ValueError, lambda: R.FattKlikoff(a))
    else:
        which = D.choice("which", sorted(IDS))
        p = _params(D, which)
        m = getattr(R, which)(*p)

        def assign():
            m.parameters = list(p) + [0.5]
        D.raises("parameter count", ValueError, assign)


@contract("C19", [RP + "_base.BaseRelativePermeability.__call__"], symbolic=False, fallback=150, bounded="sampled: two sets of parameters of every model")
def other_parameters(D):
    """A model given other parameters is the model made with them, whatever it was asked before."""
    model = D.choice("model", sorted(IDS))
    cls = getattr(D.T("relative_permeability"), model)
    p, q = _params(D, model), _params(D, model, "other ")
    s = [D.real("sl %d" % i, 0, 1) for i in range(3)]
    m = cls(*p)
    other = cls(*p)
    for x in s:
        m(x)
    m(s)
    m.parameters = list(q)
    want = [cls(*q)(x) for x in s]
    D.prove("the parameters given last decide", [m(x) for x in s] == want, "%r instead of %r" % ([m(x) for x in s], want))
    D.prove("of arrays too", np.array_equal(np.asarray(m(np.array(s))), np.asarray(cls(*q)(np.array(s)))))
    D.prove("of this model only", [other(x) for x in s] == [cls(*p)(x) for x in s])
