"""C20: capillarity models."""
import numpy as np

from pyvc.domain import contract

CP = "toughio.capillarity."

IDS = {
    "Linear": (1, "Linear", ["pmax", "smin", "smax"], "_linear"),
    "Pickens": (2, "Pickens", ["p0", "slr", "sl0", "x"], "_pickens"),
    "TRUST": (3, "TRUST", ["p0", "slr", "eta", "pe", "pmax"], "_trust"),
    "Milly": (4, "Milly", ["slr"], "_milly"),
    "vanGenuchten": (7, "van Genuchten", ["m", "slr", "alpha", "pmax", "sls"], "_van_genuchten"),
}


def _params(D, model, pre=""):
    r = lambda name, *a, **kw: D.real(pre + name, *a, **kw)  # noqa: E731
    lo = 0.05 if not D.symbolic else 0
    if model == "Linear":
        p = [r("pmax", 0, 1e9), r("smin", 0, 1), r("smax", 0, 1)]
        D.assume(D.lt(p[1], p[2]))
        return p
    if model == "Pickens":
        x = r("x", -20, 20, nonzero=True)
        if not D.symbolic:
            D.assume(abs(x) > 0.05)
        return [r("p0", 0, 1e9), r("slr", 0, 0.99, lo_open=True), r("sl0", 1, 5), x]
    if model == "TRUST":
        return [r("p0", 0, 1e9), r("slr", 0, 1), r("eta", lo, 20, lo_open=True), r("pe", 0, 1e9), r("pmax", 0, 1e9)]
    if model == "Milly":
        return [r("slr", 0, 0.99, lo_open=True)]
    m = r("m", lo, 1, lo_open=True, hi_open=True)
    slr, alpha = r("slr", 0, 1, hi_open=True), r("alpha", 1e-12, 1e3, edge=(1e-4,))
    pmax, sls = r("pmax", 0, 1e9), r("sls", 0, 1, edge=(1.0,))
    D.assume(D.lt(slr, sls))
    return [m, slr, alpha, pmax, sls]


def _near_one(D, s, p):
    """Linear transition to zero above 0.999."""
    return D.ite(D.lt(0.999, s), p * (1 - s) / 0.001, p)


def _spec(D, model, p, s):
    if model == "Linear":
        pmax, smin, smax = p
        S = D.mini(D.maxi((smax - s) / (smax - smin), 0.0), 1.0)
        return -pmax * S
    if model == "Pickens":
        p0, slr, sl0, x = p
        s = D.mini(D.maxi(s, 1.001 * slr), 0.999 * sl0)
        A = (1 + s / sl0) * (sl0 - slr) / (sl0 + slr)
        B = 1 - s / sl0
        arg = A / B * (1 + D.sqrt(1 - B ** 2 / A ** 2))
        return -p0 * D.pow(D.np.log(arg), 1 / x)
    if model == "TRUST":
        p0, slr, eta, pe, pmax = p
        if D.truth(D.le(s, slr, 0)):
            v = -pmax
        else:
            v = D.maxi(-pe - p0 * D.pow((1 - s) / (s - slr), 1 / eta), -pmax)
        return _near_one(D, s, v)
    if model == "Milly":
        (slr,) = p
        d = D.maxi(s, 1.001 * slr) - slr
        if D.truth(D.le(0.371, d, 0)):
            return -97.783
        return -97.783 * D.pow(10, 2.26 * D.pow(0.371 / d - 1, 0.25) - 2)
    m, slr, alpha, pmax, sls = p
    if D.truth(D.or_(D.le(1, s, 0), D.le(sls, s, 0))):
        return 0.0
    if D.truth(D.le(s, slr, 0)):
        v = -pmax
    else:
        S = (s - slr) / (sls - slr)
        v = D.maxi(-1 / alpha * D.pow(D.pow(S, -1 / m) - 1, 1 - m), -pmax)
    return _near_one(D, s, v)


def _make(D, model):
    cls = getattr(D.T("capillarity"), model)
    p = _params(D, model)
    return cls(*p), p


def _pmax(model, p):
    return {"Linear": 0, "TRUST": 4, "vanGenuchten": 3}.get(model)


def _gen(model):
    fns = [CP + IDS[model][3] + "." + model + "._eval", CP + "_base.BaseCapillarity.__call__"]

    def formula(D):
        m, p = _make(D, model)
        s = D.real("sl", 0, 1, edge=(0.9995, 0.999))
        pc = m(s)
        D.prove("pcap is a real number", D.isreal(pc))
        D.close("pcap follows the formula", pc, _spec(D, model, p, s), 1e-6, 1e-6)

    def physical(D):
        m, p = _make(D, model)
        s1, s2 = D.real("s1", 0, 1, edge=(0.9995,)), D.real("s2", 0, 1, edge=(0.9995,))
        D.assume(D.le(s1, s2, 0))
        p1 = m(s1)
        D.prove("pcap <= 0", D.le(p1, 0.0))
        k = _pmax(model, p)
        if k is not None:
            D.prove("pcap >= -pmax", D.le(-p[k], p1))
        if model == "Milly":
            return
        p2 = m(s2)
        if model == "Pickens":
            if D.truth(D.lt(0, p[3])):
                p1, p2 = p2, p1
        tol = 0 if D.symbolic else 1e-7 * abs(p1)
        D.prove("pcap is monotone in saturation", D.le(p1, p2 + tol))

    formula.__name__ = "%s_formula" % model
    physical.__name__ = "%s_physical" % model
    contract("C20", fns, budget=60, fallback=3000, samples=300)(formula)
    contract("C20", fns, budget=100, fallback=3000, samples=300)(physical)


for _m in IDS:
    _gen(_m)


@contract("C20", [CP + "_linear.Linear._eval", CP + "_trust.TRUST._eval", CP + "_van_genuchten.vanGenuchten._eval"],
          samples=200, fallback=2000)
def end_points(D):
    model = D.choice("model", ["Linear", "TRUST", "vanGenuchten"])
    m, p = _make(D, model)
    pmax = p[_pmax(model, p)]
    D.close("zero at full saturation", m(1.0), 0.0)
    low = {"Linear": 1, "TRUST": 1, "vanGenuchten": 1}[model]
    s = D.real("s", 0, 1)
    D.assume(D.le(s, p[low], 0))
    D.assume(D.le(s, 0.999, 0))
    D.close("maximum pressure below the residual saturation", m(s), -pmax)


@contract("C20", [CP + "_trust.TRUST._eval", CP + "_van_genuchten.vanGenuchten._eval"], samples=200, fallback=2000)
def magnitudes(D):
    """Signs of the maximum pressure and of 1/P0 given the other way round change nothing."""
    model = D.choice("model", ["TRUST", "vanGenuchten"])
    cls, p = getattr(D.T("capillarity"), model), _params(D, model)
    q = list(p)
    if model == "TRUST":
        q[4] = -p[4]
        m = cls(*q)
    else:
        how = D.choice("negative", ["alpha", "pmax", "both"])
        m = cls(*p)
        q[2] = -p[2] if how != "pmax" else p[2]
        q[3] = -p[3] if how != "alpha" else p[3]
        m.parameters = q
    s = D.real("sl", 0, 1, edge=(0.9995, 0.999))
    D.close("pcap follows the formula", m(s), _spec(D, model, p, s), 1e-6, 1e-6)


@contract("C20", [CP + "_milly.Milly._eval"], samples=50, fallback=500)
def milly_without_residual(D):
    m = D.T("capillarity").Milly(0.0)
    s = D.real("sl", 0, 1, edge=(0.0,))
    pc = m(s)
    D.prove("pcap is a real number", D.isreal(pc))
    D.prove("pcap <= 0", D.le(pc, 0.0))


@contract("C20", [CP + "_base.BaseCapillarity.__call__"], samples=100, fallback=1000,
          bounded="arrays of at most 3 saturations", budget=90)
def array_is_elementwise(D):
    model = D.choice("model", sorted(IDS))
    m, p = _make(D, model)
    n = D.choice("n", [1, 2, 3]) if model in ("Linear", "Milly", "TRUST") else D.choice("n", [1, 2])
    s = [D.real("s%d" % i, 0, 1) for i in range(n)]
    kind = D.choice("kind", ["list", "array", "integers"])
    if kind == "integers":
        s = D.choice("integers", [[0, 1, 0], [1, 1, 0], [0, 0, 1]])[:n]
    out = m(s if kind == "list" else D.np.array(s))
    D.prove("one value per saturation", D.np.shape(out) == (n,))
    for i in range(n):
        D.close("pcap[%d]" % i, out[i], m(s[i]))


@contract("C20", [CP + "_base.BaseCapillarity.__call__"], samples=100, fallback=1000,
          bounded="arrays of at most 3 saturations")
def saturation_outside_is_rejected(D):
    model = D.choice("model", sorted(IDS))
    m, p = _make(D, model)
    bad = D.real("bad", -10, 10, edge=(-1e-9, 1 + 1e-9, 2.0, -1.0))
    D.assume(D.or_(D.lt(bad, 0), D.lt(1, bad)))
    kind = D.choice("kind", ["scalar", "first", "last"])
    if kind == "scalar":
        D.raises("rejected", ValueError, lambda: m(bad))
    else:
        s = [D.real("s%d" % i, 0, 1) for i in range(2)]
        s = [bad] + s if kind == "first" else s + [bad]
        D.raises("rejected", ValueError, lambda: m(D.np.array(s)))


@contract("C20", [CP + "_base.BaseCapillarity.id", CP + "_base.BaseCapillarity.name"], samples=50, fallback=500)
def identity(D):
    model = D.choice("model", sorted(IDS))
    m, p = _make(D, model)
    i, name, names, _ = IDS[model]
    D.prove("id", m.id == i, "%s has id %r, TOUGH's is %r" % (model, m.id, i))
    D.prove("name", m.name == name)
    got = m.parameters
    D.prove("number of parameters", len(got) == len(p))
    for k in range(len(p)):
        D.close("parameter %d is %s" % (k + 1, names[k]), got[k], p[k])
    m2 = type(m)(**dict(zip(names, p)))
    for k in range(len(p)):
        D.close("keyword %s" % names[k], m2.parameters[k], p[k])
    q = [D.real("q%d" % k, 0, 1) for k in range(len(p))]
    m2.parameters = q
    for k in range(len(p)):
        D.close("assigned %d" % k, m2.parameters[k], q[k])
        D.close("other model unchanged %d" % k, m.parameters[k], p[k])
    others = [getattr(D.T("capillarity"), o)._id for o in IDS if o != model]
    D.prove("id is distinct", m.id not in others)


@contract("C20", [CP + f + ".__init__" for f in ("_linear.Linear", "_pickens.Pickens", "_trust.TRUST", "_milly.Milly",
                                                "_van_genuchten.vanGenuchten")], samples=200, fallback=1000)
def inadmissible_parameters_rejected(D):
    model = D.choice("model", ["Linear", "Pickens slr", "Pickens sl0", "Pickens x", "TRUST slr", "TRUST eta", "Milly",
                               "vanGenuchten", "wrong count"])
    C = D.T("capillarity")
    a, b, c, d, x = [D.real(n, -2, 3, edge=(0.0, 1.0, 0.5)) for n in "abcdx"]
    if model == "Linear":
        D.assume(D.le(c, b, 0))
        D.raises("empty range", ValueError, lambda: C.Linear(a, b, c))
    elif model == "Pickens slr":
        D.assume(D.or_(D.le(b, 0, 0), D.le(1, b, 0)))
        D.raises("slr", ValueError, lambda: C.Pickens(a, b, c, d))
    elif model == "Pickens sl0":
        D.assume(D.lt(c, 1))
        D.raises("sl0", ValueError, lambda: C.Pickens(a, b, c, d))
    elif model == "Pickens x":
        D.raises("x", ValueError, lambda: C.Pickens(a, b, c, 0.0))
    elif model == "TRUST slr":
        D.assume(D.lt(b, 0))
        D.raises("slr", ValueError, lambda: C.TRUST(a, b, c, d, x))
    elif model == "TRUST eta":
        D.raises("eta", ValueError, lambda: C.TRUST(a, b, 0.0, d, x))
    elif model == "Milly":
        D.assume(D.lt(a, 0))
        D.raises("slr", ValueError, lambda: C.Milly(a))
    elif model == "vanGenuchten":
        D.assume(D.lt(d, 0))
        D.raises("pmax", ValueError, lambda: C.vanGenuchten(a, b, c, d, x))
    else:
        which = D.choice("which", sorted(IDS))
        p = _params(D, which)
        m = getattr(C, which)(*p)

        def assign():
            m.parameters = list(p) + [0.5]
        D.raises("parameter count", ValueError, assign)


@contract("C20", [CP + "_base.BaseCapillarity.__call__"], symbolic=False, fallback=150, bounded="sampled: two sets of parameters of every model")
def other_parameters(D):
    """A model given other parameters is the model made with them, whatever it was asked before."""
    model = D.choice("model", sorted(IDS))
    cls = getattr(D.T("capillarity"), model)
    p, q = _params(D, model), _params(D, model, "other ")
    s = [D.real("sl %d" % i, 0, 1) for i in range(3)]
    m = cls(*p)
    other = cls(*p)
    for x in s:
        m(x)
    m(s)
    m.parameters = list(q)
    want = [cls(*q)(x) for x in s]
    D.prove("the parameters given last decide", [m(x) for x in s] == want, "%r instead of %r" % ([m(x) for x in s], want))
    D.prove("of arrays too", np.array_equal(np.asarray(m(np.array(s))), np.asarray(cls(*q)(np.array(s)))))
    D.prove("of this model only", [other(x) for x in s] == [cls(*p)(x) for x in s])
