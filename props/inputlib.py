"""Shared builders and comparators for the input-file contracts (C02 - C07)."""
from props.tough_layout import LAYOUT, columns, precs

P4, P3, P13, P7, P9 = (10, 4), (10, 3), (20, 13), (14, 7), (15, 9)

ROCK_REALS = ["density", "porosity", "conductivity", "specific_heat", "compressibility", "expansivity",
              "conductivity_dry", "tortuosity", "klinkenberg_parameter", "distribution_coefficient_3",
              "distribution_coefficient_4"]


def io(D):
    return D.T("_io.input._helpers")


def roundtrip(D, params, block=None, name="input", **kw):
    f = D.file(name)
    if block is None:
        io(D).write(f, params, file_format="tough")
    else:
        io(D).write(f, params, file_format="tough", block=block)
    if not D.symbolic and D.choice("blanks at the end of the lines", [False, False, True]):
        with open(f) as h:
            lines = h.read().split("\n")
        cut = D.choice("how", [False, True])
        with open(f, "w") as h:
            h.write("\n".join(x.rstrip(" ") if cut else x + 3 * " " for x in lines))
    return io(D).read(f, file_format="tough", **kw)


def real(D, name):
    return D.real(name, -1.7e308, 1.7e308, wide=True)


def reals(D, name, n):
    return [real(D, "%s[%d]" % (name, i)) for i in range(n)]


def opts(D, name, n):
    return [D.opt("%s[%d]" % (name, i), real(D, "%s[%d]" % (name, i))) for i in range(n)]


def name5(D, name, n=5):
    """A rock name or a 5-character text: first character a letter."""
    return D.text(name, n, letters=(0,))


def not_a_number(D, name):
    """INDOM tells names from values by trying to read a number: no name like NAN or INF."""
    for ch in "NI":
        D.assume(D.not_(D.eqx(name[0], ch)))


def label(D, name, n, strict=True):
    """A cell label of n characters: a letter, four characters, then digits.

    The fifth character is alphanumeric; characters after it are digits, as the library
    (and TOUGH) require in order to recognise the length of a label."""
    return D.text(name, n, letters=(0,), digits=tuple(range(5, n)))


def trim(D, lst):
    """The list without its trailing None (decided on the path)."""
    out = list(lst)
    while out and D.truth(D.eqx(None, out[-1])):
        out.pop()
    return out


def maybe_eq(D, name, got, want, prec):
    """None, a list of None only and an absent entry all mean: not set."""
    def empty(x):
        if x is None:
            return True
        if isinstance(x, (list, tuple)):
            r = True
            for v in x:
                r = D.and_(r, D.eqx(None, v))
            return r
        return D.eqx(None, x)
    if isinstance(want, (list, tuple)) or isinstance(got, (list, tuple)):
        if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)) and len(got) == len(want):
            for i, (g, w) in enumerate(zip(got, want)):
                D.prove("%s[%d]" % (name, i), D.eqx(g, w, prec), "got %r, expected %r" % (g, w))
            return
        D.prove(name, D.and_(empty(got), empty(want)), "got %r, expected %r" % (got, want))
        return
    D.prove(name, D.eqx(got, want, prec), "got %r, expected %r" % (got, want))


def entry(d, k):
    from pyvc.domain import _entry
    return _entry(d, k)


def keys_of(d):
    return list(dict.keys(d))


def same_keys(D, name, got, want):
    """Same keys in the same order."""
    g, w = keys_of(got), list(want)
    D.prove("%s: number" % name, len(g) == len(w), "%r instead of %r" % (g, w))
    for i, (a, b) in enumerate(zip(g, w)):
        D.prove("%s: order" % name, D.eqx(a, b), "%r instead of %r" % (a, b))


def only(D, name, got, allowed):
    """No option that was not given comes back."""
    for k in keys_of(got):
        if k not in allowed:
            v = entry(got, k)
            D.prove("%s: nothing else (%s)" % (name, k), D.eqx(None, v), "unexpected %r = %r" % (k, v))
