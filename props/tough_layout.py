"""Record layouts of TOUGH input files (TOUGH2/TOUGH3 user guides), restated for the contracts.

Type of a column: d integer, e/f real, s text, S text that keeps its blanks.
"""


def _n(k, t):
    return ",".join(k * [t])


LAYOUT = {
    "ROCKS": {1: "5s,5d," + _n(7, "10.4e"), 2: _n(7, "10.4e")},
    "RPCAP": "5d,5s," + _n(7, "10.3e"),
    "FLAC": {1: _n(16, "5d"), 2: "10d," + _n(7, "10.3e"), 3: "5d,5s," + _n(7, "10.3e")},
    "MULTI": _n(5, "5d"),
    "SELEC": {1: _n(16, "5d"), 2: _n(8, "10.3e")},
    "SOLVR": "1d,2s,2s,3s,2s,10.4e,10.4e",
    "PARAM": {
        1: "2d,2d,4d,4d,4d,24S,10s,10.4e,10.4e",
        2: "10.4e,10.4e,10.1f,10.4e,10s,10.4e,10.4e,10.4e",
        3: _n(8, "10.4e"),
        4: "10.4e,10.4e,10s,10.4e,10.4e,10.4e",
        5: _n(4, "20.13e"),
    },
    "INDOM": {0: _n(4, "20.13e"), 5: "5s"},
    "MOMOP": "40S",
    "TIMES": {1: "5d,5d,10.4e,10.4e", 2: _n(8, "10.4e")},
    "GENER": {
        0: _n(4, "14.7e"),
        5: "5s,5s,5d,5d,5d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
        6: "6s,5s,6d,4d,4d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
        7: "7s,5s,5d,4d,4d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
        8: "8s,5s,4d,4d,4d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
        9: "9s,5s,5d,3d,3d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
    },
    "DIFFU": _n(8, "10.3e"),
    "OUTPU": {1: "20s", 2: "15s", 3: "20s,5d,5d"},
    "ELEME": {
        5: "5s,5d,5d,5s,10.4e,10.4e,10.4e,10.3e,10.3e,10.3e",
        6: "6s,5d,4d,5s,10.4e,10.4e,10.4e,10.3e,10.3e,10.3e",
        7: "7s,4d,4d,5s,10.4e,10.4e,10.4e,10.3e,10.3e,10.3e",
        8: "8s,4d,3d,5s,10.4e,10.4e,10.4e,10.3e,10.3e,10.3e",
        9: "9s,3d,3d,5s,10.4e,10.4e,10.4e,10.3e,10.3e,10.3e",
    },
    "COORD": _n(3, "20.13e"),
    "CONNE": {
        5: "10s,5d,5d,5d,5d,10.4e,10.4e,10.4e,10.3e,10.3e",
        6: "12s,5d,4d,4d,5d,10.4e,10.4e,10.4e,10.3e,10.3e",
        7: "14s,5d,3d,3d,5d,10.4e,10.4e,10.4e,10.3e,10.3e",
        8: "16s,3d,3d,3d,5d,10.4e,10.4e,10.4e,10.3e,10.3e",
        9: "18s,3d,2d,2d,5d,10.4e,10.4e,10.4e,10.3e,10.3e",
    },
    "INCON": {
        0: _n(4, "20.13e"),
        5: "5s,5d,5d,15.9e,10.3e,10.3e,10.3e,10.3e,10.3e",
        6: "6s,5d,4d,15.9e,10.3e,10.3e,10.3e,10.3e,10.3e",
        7: "7s,4d,4d,15.9e,10.3e,10.3e,10.3e,10.3e,10.3e",
        8: "8s,4d,3d,15.9e,10.3e,10.3e,10.3e,10.3e,10.3e",
        9: "9s,3d,3d,15.9e,10.3e,10.3e,10.3e,10.3e,10.3e",
    },
}


def columns(fmt):
    """[(first column, end column, type, width, digits)]"""
    out, i = [], 0
    for t in fmt.split(","):
        w, _, p = t[:-1].partition(".")
        w = int(w)
        out.append((i, i + w, t[-1], w, int(p) if p else None))
        i += w
    return out


def fields(D, line, fmt):
    """The content of every column of a record, read independently of the code under contract."""
    out = []
    for a, b, t, w, p in columns(fmt):
        out.append(D.field(line[a:b], "real" if t in "ef" else "int" if t == "d" else "raw" if t == "S" else "text"))
    return out


def precs(fmt):
    return [(w, p) if t in "ef" else None for a, b, t, w, p in columns(fmt)]


def check_record(D, name, line, fmt, want):
    """Every column of the record holds exactly the wanted value (None: blank)."""
    got = fields(D, line, fmt)
    want = list(want) + [None] * (len(got) - len(want))
    for i, (g, x, pr) in enumerate(zip(got, want, precs(fmt))):
        D.prove("%s: column %d" % (name, i), D.eqx(g, x, pr), "column holds %r, expected %r" % (g, x))
    end = columns(fmt)[-1][1]
    D.prove("%s: nothing beyond the last column" % name, D.eqx(D.field(line[end:], "text"), None))


def values(D, fmt, prefix="x", text_len=None, alphabet=None):
    """One optional value for every column of a layout."""
    out = []
    for k, (a, b, t, w, p) in enumerate(columns(fmt)):
        n = "%s%d" % (prefix, k)
        if t in "ef":
            v = number(D, n, w, t)
        elif t == "d":
            v = integer(D, n, w)
        elif t == "S":
            v = "".join(D.choice_text("%s_%d" % (n, i), " 0123456789") for i in range(w))
            out.append(v)
            continue
        else:
            v = D.text(n, w if text_len is None else text_len(k, w))
        if t == "f":
            out.append(v)
            continue
        out.append(D.opt(n, v))
    return out


def number(D, name, w=10, t="e"):
    if t == "f":
        return float(D.choice(name, [-3, -1, 0, 12])) if D.symbolic else float(D.int(name, -999, 9999))
    return D.real(name, -1.7e308, 1.7e308, wide=True)


def integer(D, name, w):
    w = min(w, 6)
    return D.int(name, -(10 ** (w - 1) - 1), 10 ** w - 1)
