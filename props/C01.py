"""C01: fixed-width records."""
from pyvc.core import lift
from pyvc.domain import also, contract
import props.C03  # noqa: F401
import props.C04  # noqa: F401
from props import tough_layout as L
from props.tough_layout import LAYOUT, check_record, columns, precs, values

H = "_io.input.tough._helpers"
FN = ["toughio._io.input.tough._helpers." + f for f in ("write_record", "read_record", "str2float")]
FC = ["toughio._common.str2format", "toughio._common.format_value"]


def all_layouts():
    out = []
    for b in LAYOUT.values():
        for f in (b.values() if isinstance(b, dict) else [b]):
            if f not in out:
                out.append(f)
    return out


ALL = all_layouts()


@contract("C01", ["toughio._common.block_to_format"], samples=1, fallback=1)
def layouts(D):
    got = D.T("_common").block_to_format
    for k, v in LAYOUT.items():
        if isinstance(v, dict):
            for n, f in v.items():
                D.prove("layout of %s %s" % (k, n), got[k][n] == f, "%r" % (got[k][n],))
        else:
            D.prove("layout of %s" % k, got[k] == v, "%r" % (got[k],))
    for k, f in (("FOFT", 1), ("COFT", 2), ("GOFT", 1)):
        D.prove("layout of %s" % k, got[k][5] == "%ds" % (5 * f))


def _record(D, fmt):
    h, c = D.T(H), D.T("_common")
    vals = values(D, fmt, text_len=lambda k, w: D.choice("len%d" % k, [w, 1, w + 3]))
    out = h.write_record(vals, c.str2format(fmt))
    # a text longer than its column is cut, never pushed into the next column
    vals = [lift(lambda x: x[:w] if isinstance(x, str) else x, v) for v, (_, _, _, w, _) in zip(vals, columns(fmt))]
    D.prove("one line", len(out) == 1)
    line = out[0]
    D.prove("80 columns and a newline", len(line) == 81 and line[80] == "\n", "%d characters" % len(line))
    check_record(D, "write", line[:80], fmt, vals)
    back = h.read_record(line, fmt)
    D.prove("one value per column", len(back) == len(vals))
    for i, (g, x, p) in enumerate(zip(back, vals, precs(fmt))):
        D.prove("read back column %d" % i, D.eqx(g, x, p), "got %r, expected %r" % (g, x))


def _gen():
    for n, fmt in enumerate(ALL):
        def f(D, fmt=fmt):
            _record(D, fmt)
        f.__name__ = "record_%s" % "_".join(_short(fmt))
        contract("C01", FN + FC, budget=60, samples=60, fallback=600, sample_s=8)(f)


def _short(fmt):
    out = []
    for t in fmt.split(","):
        if out and out[-1][0] == t:
            out[-1][1] += 1
        else:
            out.append([t, 1])
    return ["%s%s" % ("%dx" % n if n > 1 else "", t.replace(".", "p")) for t, n in out]


_gen()


def _list(D, fmt):
    h, c = D.T(H), D.T("_common")
    cols = columns(fmt)
    k = len(cols)
    n = D.choice("n", [0, 1, k - 1, k, k + 1, 2 * k, 2 * k + 1] if D.symbolic else list(range(4 * k)))
    vals = []
    for i in range(n):
        a, b, t, w, p = cols[i % len(cols)]
        v = L.number(D, "v%d" % i, w, t) if t in "ef" else L.integer(D, "v%d" % i, w)
        vals.append(v)
    out = h.write_record(vals, c.str2format(fmt), multi=True)
    D.prove("number of records", len(out) == -(-n // len(cols)))
    back = []
    for k, line in enumerate(out):
        D.prove("80 columns and a newline", len(line) == 81 and line[80] == "\n")
        check_record(D, "record", line[:80], fmt, vals[k * len(cols):(k + 1) * len(cols)])
        back += h.read_record(line, fmt)
    back = h.prune_nones_list(back)
    D.prove("number of values read", len(back) == n)
    for g, x in zip(back, vals):
        D.prove("value in order", D.eqx(g, x, precs(fmt)[0]))


def _gen_lists():
    for fmt in [LAYOUT["TIMES"][2], LAYOUT["GENER"][0], LAYOUT["DIFFU"]]:
        def f(D, fmt=fmt):
            _list(D, fmt)
        f.__name__ = "continued_%s" % "_".join(_short(fmt))
        contract("C01", FN + FC, budget=90, samples=150, fallback=1500,
                 bounded="lists of at most two records and one value; values unbounded")(f)


_gen_lists()


@contract("C01", ["toughio._io.input.tough._helpers.prune_nones_list"], samples=100, fallback=1000,
          bounded="lists of at most 8 entries")
def trailing_nones(D):
    h = D.T(H)
    n = D.choice("n", list(range(9)))
    vals = [D.opt("v%d" % i, D.real("x%d" % i)) for i in range(n)]
    out = h.prune_nones_list(list(vals))
    k = len(out)
    D.prove("a prefix", k <= n)
    for i in range(k):
        D.prove("entry kept", D.eqx(out[i], vals[i]))
    for i in range(k, n):
        D.prove("dropped entries are None", D.eqx(None, vals[i]))
    if k:
        D.prove("last kept entry is a value", D.not_(D.eqx(None, vals[k - 1])))


@contract("C01", ["toughio._io.input.tough._helpers.str2float"], symbolic=False, fallback=2000,
          bounded="sampled Fortran numbers")
def fortran_numbers(D):
    """1.2345-101 means 1.2345e-101."""
    h = D.T(H)
    m = D.int("m", -99999, 99999)
    e = D.choice("e", [100, 123, 250, -100, -101, -199, -250])
    mant = "%.4f" % (m / 10000)
    D.close("three-digit exponent without e", h.str2float("%s%+d" % (mant, e)), float("%se%d" % (mant, e)))
    D.close("plain number", h.str2float("%se%d" % (mant, e)), float("%se%d" % (mant, e)))


@contract("C01", ["toughio._io.input.tough._helpers.str2float"], symbolic=False, fallback=2000,
          bounded="sampled numbers")
def numbers(D):
    """Every way a number can be written in a column."""
    h = D.T(H)
    m = D.choice("significand", ["0", "1", "10", "1.", "10.", "-10", "+3.", "0.1000", "-.5", "100.00", "-20.20", "9999999"])
    e = D.choice("exponent", ["", "e5", "E+05", "e-100", "+101", "-101", "-120"])
    if e[:1] in "+-" and e:
        D.close("three-digit exponent without e", h.str2float(m + e) / float(m + "e" + e) if float(m) else h.str2float(m + e),
                1.0 if float(m) else 0.0)
    else:
        D.prove("plain number", h.str2float(m + e) == float(m + e), m + e)


# lists continued over records
for _p, _n in (("C03", ("times", "time_steps", "diffusion", "histories")), ("C04", ("tables",))):
    also("C01", _p, *_n)
