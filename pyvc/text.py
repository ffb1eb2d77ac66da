"""Symbolic text: native `str` objects whose private-use characters are symbolic."""
import re
from fractions import Fraction

import z3

from .core import (MergeChar, PathCut, PUA_LO, SymChar, SymInt, SymReal, SymBool, TokChar, Token, Union,
                   Unsupported, _simp, eng, lift, make_union, mkbool, mkint, mkreal, rv)

NUM_ALPHABET = set("0123456789.e+- ")

_SPEC = re.compile(r"^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?(?:\.(\d+))?([a-zA-Z%])?$")


def pua(s):
    for ch in s:
        if ch >= "\U000F0000":
            return True
    return False


def has_merge(s):
    e = eng()
    for ch in s:
        if ch >= "\U000F0000" and isinstance(e.atom(ch), MergeChar):
            return True
    return False


# ------------------------------------------------------------------ numbers -> text

def _token(e, value, spec, length, kind):
    key = (kind, value.e.get_id(), spec, length)
    e.keep.append(value.e)
    tok = e.rt_memo.get(("tok",) + key)
    if tok is None or any(e.atom_safe(c) is None for c in tok.chars):
        tok = Token(value, spec, length, kind)
        tok.chars = "".join(e.new_atom(TokChar(tok, i)) for i in range(length))
        e.rt_memo[("tok",) + key] = tok
    return tok.chars


def _atom_safe(self, ch):
    k = ord(ch) - PUA_LO
    return self.atoms[k] if 0 <= k < len(self.atoms) else None


from .core import Engine  # noqa: E402

Engine.atom_safe = _atom_safe


def _pad(s, width, align, fill):
    fill = fill or " "
    if len(s) >= width:
        return s
    n = width - len(s)
    if align == "<":
        return s + fill * n
    if align == "^":
        return fill * (n // 2) + s + fill * (n - n // 2)
    return fill * n + s


def by_length(e, options, width):
    """options: list of (cond or None, length); decide the final length by splitting."""
    groups = {}
    for c, n in options:
        groups.setdefault(max(width, n), []).append(c)
    keys = sorted(groups)
    for k in keys[:-1]:
        c = _simp(z3.Or(*groups[k]))
        if e.truth(c):
            return k
    return keys[-1]


def format_num(x, spec):
    e = eng()
    m = _SPEC.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    fill, align, sign, alt, zero, width, prec, typ = m.groups()
    width = int(width) if width else 0
    align = align or ">"
    if zero and not fill:
        fill, align = "0", "="
    if sign and sign != "-":
        raise Unsupported("sign in format")
    if typ is None and prec is None:
        if isinstance(x, SymInt):
            typ = "d"
        else:
            return _pad(repr_token(x), width, align, fill)
    if typ is None and prec is not None and isinstance(x, SymReal):
        raise Unsupported("format .%s without type" % prec)
    if typ in ("d", "g", "i", "n") and isinstance(x, SymInt):
        if prec is not None:
            raise Unsupported("precision on integer")
        return format_int(e, x, typ, width, align, fill)
    if typ == "d":
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    if isinstance(x, SymInt):
        x = SymReal(_simp(z3.ToReal(x.e)))
    if typ in ("e", "E"):
        p = 6 if prec is None else int(prec)
        if width == 0 and p >= 14:  # free-format text: the length does not matter (as for repr)
            return _token(e, x, (typ, p), p + 8, "real")
        return format_e(e, x, p, typ, width, align, fill)
    if typ in ("g", "G") and width == 0:
        # free-format text of prec significant digits
        p = 6 if prec is None else int(prec)
        return _token(e, x, ("e", max(p, 1) - 1), p + 8, "real")
    if typ in ("f", "F", "g", "G"):
        raise Unsupported("format type %s of a symbolic real" % typ)
    raise ValueError("Unknown format code %r" % typ)


def _thresholds(p):
    """|x| from which, and below which, the exponent has three digits when printed with p digits."""
    m = 10 - Fraction(1, 2 * 10 ** p)
    return rv(m * 10 ** 99), rv(m * Fraction(1, 10 ** 100))


def format_e(e, x, p, typ, width, align, fill):
    base = p + 6 if p > 0 else 5
    v = x.e
    neg = _simp(v < 0)
    hi, lo = _thresholds(p)
    big = _simp(z3.Or(z3.If(v >= 0, v, -v) >= hi, z3.And(v != 0, z3.If(v >= 0, v, -v) < lo)))
    opts = []
    for n, nc in ((0, z3.Not(neg)), (1, neg)):
        for b, bc in ((0, z3.Not(big)), (1, big)):
            opts.append((_simp(z3.And(nc, bc)), base + n + b))
    opts = [(c, n) for c, n in opts if not z3.is_false(c)]
    if width >= base + 2:
        # one token; leading guaranteed pad only if the range is known
        if e.implied(z3.Not(big)):
            maxl = base + (0 if e.implied(z3.Not(neg)) else 1)
        else:
            maxl = base + 2
        s = _token(e, x, (typ, p), maxl, "real")
        return _pad(s, width, align, fill)
    opts = [(c, n) for c, n in opts if e.check_sat(c) != "unsat"]
    n = by_length(e, opts, width)
    # content may be shorter than n only by padding
    contents = sorted({max(k, 0) for c, k in opts if max(width, k) == n})
    maxl = contents[-1]
    s = _token(e, x, (typ, p), maxl, "real")
    return _pad(s, n, align, fill)


def digits_bound(e, x):
    v = x.e
    a = z3.If(v >= 0, v, -v)
    for d in range(1, 13):
        if e.implied(_simp(a < 10 ** d)):
            return d
    raise Unsupported("unbounded integer formatted")


def format_int(e, x, typ, width, align, fill):
    v = x.e
    d = digits_bound(e, x)
    if typ == "g" and d > 6:
        raise Unsupported("integer beyond 6 digits formatted with 'g'")
    nonneg = e.implied(_simp(v >= 0))
    if fill == "0":
        if nonneg and d <= width:
            return "".join(digit_char(e, x, k) for k in range(width - 1, -1, -1))
        raise Unsupported("zero fill")
    maxl = d + (0 if nonneg else 1)
    if width and maxl <= width:
        if maxl == 1:
            s = digit_char(e, x, 0)
        else:
            s = _token(e, x, ("d",), maxl, "int")
        return _pad(s, width, align, fill)
    # exact length matters
    a = z3.If(v >= 0, v, -v)
    opts = []
    for n in range(1, d + 1):
        lo = 0 if n == 1 else 10 ** (n - 1)
        c = z3.And(a >= lo, a < 10 ** n)
        if nonneg:
            opts.append((_simp(c), n))
        else:
            opts.append((_simp(z3.And(c, v >= 0)), n))
            opts.append((_simp(z3.And(c, v < 0)), n + 1))
    n = by_length(e, opts, width)
    if n == 1 and nonneg:
        return digit_char(e, x, 0)
    return _pad(_token(e, x, ("d",), n, "int"), width, align, fill)


def digit_char(e, x, k):
    v = x.e
    code = _simp(48 + (v / (10 ** k)) % 10) if k or not e.implied(_simp(v < 10)) else _simp(48 + v)
    return sym_char(e, code, ("digit", "nonspace"))


def sym_char(e, code, kinds=()):
    key = ("ch", code.get_id())
    e.keep.append(code)
    ch = e.rt_memo.get(key)
    if ch is None or e.atom_safe(ch) is None:
        ch = e.new_atom(SymChar(code, kinds))
        e.rt_memo[key] = ch
    return ch


def repr_token(x):
    """Shortest round-trip text of a number (str/repr of a Python float or int)."""
    e = eng()
    if isinstance(x, SymInt):
        return format_int(e, x, "d", 0, ">", None)
    return _token(e, x, ("r", 17), 24, "real")


def str_num(x):
    return repr_token(x)


# ------------------------------------------------------------------ structure

def merge_str(c, a, b):
    e = eng()
    out = []
    for x, y in zip(a, b):
        if x == y:
            out.append(x)
            continue
        key = ("mg", c.get_id(), x, y)
        e.keep.append(c)
        ch = e.rt_memo.get(key)
        if ch is None or e.atom_safe(ch) is None:
            ch = e.new_atom(MergeChar(c, x, y))
            e.rt_memo[key] = ch
        out.append(ch)
    return "".join(out)


def _resolve(e, s, cid, val):
    out = []
    for ch in s:
        while ch >= "\U000F0000":
            a = e.atom(ch)
            if isinstance(a, MergeChar) and a.cond.get_id() == cid:
                ch = a.a if val else a.b
            else:
                break
        out.append(ch)
    return "".join(out)


def first_merge(e, s):
    for ch in s:
        if ch >= "\U000F0000":
            a = e.atom(ch)
            if isinstance(a, MergeChar):
                return a.cond
    return None


def alts(s):
    """[(cond, merge-free string)] covering all resolutions of s feasible here."""
    e = eng()
    todo = [(None, s)]
    out = []
    while todo:
        c, t = todo.pop()
        m = first_merge(e, t)
        if m is None:
            out.append((z3.BoolVal(True) if c is None else c, t))
            continue
        for val in (True, False):
            mc = m if val else _simp(z3.Not(m))
            cc = mc if c is None else _simp(z3.And(c, mc))
            if z3.is_false(cc) or e.check_sat(cc) == "unsat":
                continue
            todo.append((cc, _resolve(e, t, m.get_id(), val)))
        if len(out) + len(todo) > 64:
            raise Unsupported("too many string alternatives")
    if not out:
        raise PathCut()
    return out


def lift_str(fn, s):
    """Apply pure fn to every merge-free alternative of s."""
    e = eng()
    if first_merge(e, s) is None:
        return fn(s)
    al = alts(s)
    if len(al) == 1:
        return fn(al[0][1])
    return lift(fn, Union(al))


def str_truth(s):
    return bool(s)


# ------------------------------------------------------------------ characters

def char_eq(e, x, y):
    """z3 Bool / bool: characters equal."""
    if x == y:
        return True
    px, py = x >= "\U000F0000", y >= "\U000F0000"
    if not px and not py:
        return False
    ax = e.atom(x) if px else None
    ay = e.atom(y) if py else None
    if isinstance(ax, MergeChar):
        return _ifb(ax.cond, char_eq(e, ax.a, y), char_eq(e, ax.b, y))
    if isinstance(ay, MergeChar):
        return _ifb(ay.cond, char_eq(e, x, ay.a), char_eq(e, x, ay.b))
    if isinstance(ax, SymChar) and isinstance(ay, SymChar):
        return _simp(ax.code == ay.code)
    if isinstance(ax, SymChar) and ay is None:
        return _simp(ax.code == ord(y))
    if isinstance(ay, SymChar) and ax is None:
        return _simp(ay.code == ord(x))
    # a token character against something else
    lit = y if isinstance(ax, TokChar) else x
    if lit < "\U000F0000":
        tok = ax if isinstance(ax, TokChar) else ay
        if lit not in NUM_ALPHABET:
            return False
        return tokchar_is(e, tok, lit)
    a = ax if isinstance(ax, SymChar) else ay
    if isinstance(a, SymChar):
        numeric = z3.Or(*[a.code == ord(c) for c in NUM_ALPHABET])
        if e.implied(_simp(z3.Not(numeric))):
            return False
    e.exact = False
    return z3.Bool(e.fresh_name("chareq"))


def tokchar_is(e, tc, lit):
    """Is this character of a number's text the literal?"""
    tok = tc.tok
    if tok.kind == "int" and lit in ".e+":
        return False
    if tok.kind == "int" and not tok.stripped:
        digit, sign, blank = _int_char(tc)
        if lit == "-":
            return sign
        if lit == " ":
            return blank
        v = tok.value.e
        k = tok.width - 1 - tc.idx
        return _simp(z3.And(digit, (z3.If(v >= 0, v, -v) / (10 ** k)) % 10 == int(lit)))
    if tok.kind == "real" and tok.spec[0] in "eE":
        d, sg, ex, dot, minus, blank = _real_char(tc)
        c = {".": dot, "e": ex if tok.spec[0] == "e" else z3.BoolVal(False), " ": blank}.get(lit)
        if c is not None:
            return c
        c = sg if lit == "+" else _simp(z3.Or(sg, minus)) if lit == "-" else d
        if z3.is_false(c) or (lit == "-" and z3.is_true(minus)):
            return c
        e.exact = False
        return _simp(z3.And(c, z3.Bool(e.fresh_name("tokchar"))))
    e.exact = False
    return z3.Bool(e.fresh_name("tokchar"))


def _int_char(tc):
    """Is this character of a right-aligned integer a digit, the sign, a blank."""
    v = tc.tok.value.e
    a = z3.If(v >= 0, v, -v)
    k = tc.tok.width - 1 - tc.idx
    digit = _simp(a >= 10 ** k) if k else z3.BoolVal(True)
    if k == 0:
        return digit, z3.BoolVal(False), z3.BoolVal(False)
    sign = _simp(z3.And(v < 0, a < 10 ** k, a >= 10 ** (k - 1) if k > 1 else z3.BoolVal(True)))
    return digit, sign, _simp(z3.And(z3.Not(digit), z3.Not(sign)))


def _real_char(tc):
    """Is this character of a right-aligned number in exponent format a digit, the exponent's
    sign, the letter e, the point, the minus sign, a blank."""
    v = tc.tok.value.e
    p = tc.tok.spec[1]
    hi, lo = _thresholds(p)
    a = z3.If(v >= 0, v, -v)
    big = _simp(z3.Or(a >= hi, z3.And(v != 0, a < lo)))
    k = tc.tok.width - 1 - tc.idx
    T, F = z3.BoolVal(True), z3.BoolVal(False)

    def at(o):
        lead = p + 3 if p else 2
        if o < 0:
            return (T, F, F, F, F, F)
        if o == 0:
            return (F, T, F, F, F, F)
        if o == 1:
            return (F, F, T, F, F, F)
        if p and o == p + 2:
            return (F, F, F, T, F, F)
        if o <= lead:
            return (T, F, F, F, F, F)
        if o == lead + 1:
            return (F, F, F, F, v < 0, v >= 0)
        return (F, F, F, F, F, T)
    return tuple(_simp(z3.If(big, x, y)) for x, y in zip(at(k - 3), at(k - 2)))


def _stripped(e, tok):
    """The same text without its padding."""
    if tok.stripped or tok.kind != "int":
        return tok
    key = ("stripped", id(tok))
    t = e.rt_memo.get(key)
    if t is None or any(e.atom_safe(c) is None for c in t.chars):
        t = Token(tok.value, tok.spec, tok.width, tok.kind)
        t.stripped = True
        t.chars = "".join(e.new_atom(TokChar(t, i)) for i in range(tok.width))
        e.rt_memo[key] = t
        e.keep.append(tok)
    return t


def _ifb(c, a, b):
    a = z3.BoolVal(a) if isinstance(a, bool) else a
    b = z3.BoolVal(b) if isinstance(b, bool) else b
    return _simp(z3.If(c, a, b))


def str_eq(a, b):
    if a == b:
        return True
    if len(a) != len(b):
        return False
    e = eng()
    parts = []
    for x, y in zip(a, b):
        r = char_eq(e, x, y)
        if r is False:
            return False
        if r is True:
            continue
        if z3.is_false(r):
            return False
        parts.append(r)
    return mkbool(z3.And(*parts)) if parts else True


def char_class(e, ch, pred_code, pred_py, tokval=None):
    """Condition that a character satisfies a class."""
    if ch < "\U000F0000":
        return pred_py(ch)
    a = e.atom(ch)
    if isinstance(a, MergeChar):
        return _ifb(a.cond, char_class(e, a.a, pred_code, pred_py, tokval),
                    char_class(e, a.b, pred_code, pred_py, tokval))
    if isinstance(a, SymChar):
        if pred_code is _digit_code and a.kinds and ("digit" in a.kinds or "letter" in a.kinds):
            return "digit" in a.kinds
        return _simp(pred_code(a.code))
    return tokval(a)


def _digit_code(c):
    return z3.And(c >= 48, c <= 57)


def _tok_digit(tc):
    e = eng()
    if tc.tok.kind == "int" and not tc.tok.stripped:
        return _int_char(tc)[0]
    if tc.tok.kind == "real" and tc.tok.spec[0] in "eE":
        return _real_char(tc)[0]
    e.exact = False
    return z3.Bool(e.fresh_name("tokdigit"))


def _whole_token(e, s):
    """The token if s is exactly one whole token, else None."""
    if not s or s[0] < "\U000F0000":
        return None
    a = e.atom(s[0])
    if isinstance(a, TokChar) and a.idx == 0 and len(s) == a.tok.width and s == a.tok.chars:
        return a.tok
    return None


def m_isdigit(s):
    e = eng()
    if not s:
        return False
    tok = _whole_token(e, s)
    if tok is not None and tok.kind == "real":
        return False
    if tok is not None:
        v = tok.value.e
        return mkbool(_simp(v >= 0 if tok.stripped or tok.width == 1 else v >= 10 ** (tok.width - 1)))
    parts = []
    for ch in s:
        r = char_class(e, ch, _digit_code, str.isdigit, _tok_digit)
        if r is False:
            return False
        if r is not True:
            parts.append(r)
    return mkbool(z3.And(*parts)) if parts else True


def m_class(pred_code, pred_py, numeric=False):
    def f(s):
        e = eng()
        if not s:
            return False

        def tokval(tc):
            e.exact = False
            return z3.Bool(e.fresh_name("tokclass"))
        parts = []
        for ch in s:
            r = char_class(e, ch, pred_code, pred_py, tokval)
            if r is False:
                return False
            if r is not True:
                parts.append(r)
        return mkbool(z3.And(*parts)) if parts else True
    return f


def _upper_c(c):
    return z3.And(c >= 65, c <= 90)


def _lower_c(c):
    return z3.And(c >= 97, c <= 122)


def _space_c(c):
    return z3.Or(c == 32, z3.And(c >= 9, c <= 13))


m_isalpha = m_class(lambda c: z3.Or(_upper_c(c), _lower_c(c)), str.isalpha)
m_isspace = m_class(_space_c, str.isspace)
m_isalnum = m_class(lambda c: z3.Or(_upper_c(c), _lower_c(c), _digit_code(c)), str.isalnum)


def _case(s, up):
    e = eng()
    out = []
    for ch in s:
        out.append(_case_ch(e, ch, up))
    return "".join(out)


def _case_ch(e, ch, up):
    if ch < "\U000F0000":
        r = ch.upper() if up else ch.lower()
        if len(r) != 1:
            raise Unsupported("case mapping changes length")
        return r
    a = e.atom(ch)
    if isinstance(a, MergeChar):
        return merge_str(a.cond, _case_ch(e, a.a, up), _case_ch(e, a.b, up))
    if isinstance(a, TokChar):
        if a.tok.kind == "int":
            return ch
        # exponent letter changes; value does not
        key = ("tokcase", a.tok.value.e.get_id(), a.tok.spec, a.tok.width, up)
        chars = e.rt_memo.get(key)
        if chars is None:
            spec = ("E" if up else "e",) + a.tok.spec[1:]
            chars = _token(e, a.tok.value, spec, a.tok.width, a.tok.kind)
            e.rt_memo[key] = chars
        return chars[a.idx]
    c = a.code
    code = _simp(z3.If(_lower_c(c), c - 32, c) if up else z3.If(_upper_c(c), c + 32, c))
    if code.get_id() == c.get_id():
        return ch
    return sym_char(e, code, a.kinds)


# ------------------------------------------------------------------ strip / split

def _strip_side(e, s, left, chars):
    """Strip one side; returns str, or raises _Merge(cond) when a merge atom decides."""
    while s:
        ch = s[0] if left else s[-1]
        if ch < "\U000F0000":
            if (ch.isspace() if chars is None else ch in chars):
                s = s[1:] if left else s[:-1]
                continue
            return s
        a = e.atom(ch)
        if isinstance(a, MergeChar):
            raise _MergeEdge(a.cond)
        if isinstance(a, TokChar):
            if chars is not None and set(chars) & NUM_ALPHABET:
                raise Unsupported("strip of numeric characters")
            if left and a.idx == 0 and s[:a.tok.width] == a.tok.chars:
                return _stripped(e, a.tok).chars + s[a.tok.width:]
            return s
        if chars is None:
            if "nonspace" in a.kinds:
                return s
            c = _simp(_space_c(a.code))
        else:
            c = _simp(z3.Or(*[a.code == ord(x) for x in chars]) if chars else z3.BoolVal(False))
        if e.truth(c):
            s = s[1:] if left else s[:-1]
            continue
        return s
    return s


class _MergeEdge(Exception):
    def __init__(self, cond):
        self.cond = cond


def _strip(left, right):
    def f(s, chars=None):
        e = eng()

        def one(t):
            if left:
                t = _strip_side(e, t, True, chars)
            if right:
                t = _strip_side(e, t, False, chars)
            return t
        out = []
        todo = [(None, s)]
        while todo:
            c, t = todo.pop()
            try:
                if c is None:
                    out.append((c, one(t)))
                else:
                    for c2, r in e.local(c, lambda t=t: one(t)):
                        out.append((c2, r))
                continue
            except _MergeEdge as ex:
                m = ex.cond
            for val in (True, False):
                mc = m if val else _simp(z3.Not(m))
                cc = mc if c is None else _simp(z3.And(c, mc))
                if z3.is_false(cc) or e.check_sat(cc) == "unsat":
                    continue
                todo.append((cc, _resolve(e, t, m.get_id(), val)))
            if len(out) + len(todo) > 200:
                raise Unsupported("too many alternatives in strip")
        if not out:
            raise PathCut()
        if len(out) == 1:
            return out[0][1]
        return make_union([(z3.BoolVal(True) if c is None else c, r) for c, r in out])
    return f


m_strip = _strip(True, True)
m_lstrip = _strip(True, False)
m_rstrip = _strip(False, True)


def m_startswith(s, prefix, *rest):
    if isinstance(prefix, tuple):
        from .core import mk_or
        return mk_or(*[m_startswith(s, p) for p in prefix])
    if rest:
        raise Unsupported("startswith with bounds")
    if len(prefix) > len(s):
        return False
    return str_eq(s[: len(prefix)], prefix)


def m_endswith(s, suffix):
    if isinstance(suffix, tuple):
        from .core import mk_or
        return mk_or(*[m_endswith(s, p) for p in suffix])
    if len(suffix) > len(s):
        return False
    return str_eq(s[len(s) - len(suffix):], suffix) if suffix else True


def _check_no_literal(e, s, lits, what):
    """Make sure symbolic characters cannot be one of the literal characters."""
    for ch in s:
        if ch < "\U000F0000":
            continue
        a = e.atom(ch)
        if isinstance(a, MergeChar):
            _check_no_literal(e, a.a + a.b, lits, what)
        elif isinstance(a, SymChar):
            if set(lits) <= set(" \t\n\r\x0b\x0c") and "nonspace" in a.kinds:
                continue
            c = _simp(z3.Or(*[a.code == ord(x) for x in lits]))
            if not e.implied(_simp(z3.Not(c))):
                raise Unsupported("%s on text that may contain the literal" % what)
        else:
            if set(lits) & (NUM_ALPHABET - {" "}):
                raise Unsupported("%s of numeric characters" % what)


class LazySplit:
    """s.split() of a text with undecided parts: split only when the pieces are needed."""

    def __init__(self, s):
        self.s = s
        self.v = None

    def force(self):
        if self.v is None:
            r = lift_str(lambda t: tuple(_split(t)), self.s)
            self.v = list(r.resolve()) if isinstance(r, Union) else list(r)
        return self.v

    def truth(self):
        from .core import truth_expr
        t = m_strip(self.s)
        return truth_expr(t) if isinstance(t, Union) else bool(t)

    def __bool__(self):
        return bool(self.truth())

    def __len__(self):
        return len(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __iter__(self):
        return iter(self.force())

    def __contains__(self, x):
        return x in self.force()


def m_split(s, sep=None, maxsplit=-1):
    if sep is None and maxsplit == -1 and any(ch >= "\U000F0000" for ch in s):
        return LazySplit(s)
    return _split(s, sep, maxsplit)


def _split(s, sep=None, maxsplit=-1):
    e = eng()
    if sep is None:
        if first_merge(e, s) is not None:
            r = lift_str(lambda t: tuple(_split(t)), s)
            if isinstance(r, tuple):
                return list(r)
            return lift(lambda t: list(t), r) if not isinstance(r, Union) else list(r.resolve())
        _check_no_literal(e, s, " \t\n\r\x0b\x0c", "split")
        # a token with possible leading padding must be preceded by a blank
        for i, ch in enumerate(s):
            if ch >= "\U000F0000":
                a = e.atom(ch)
                if isinstance(a, TokChar) and a.idx == 0 and i and not s[i - 1].isspace():
                    if s[i - 1] >= "\U000F0000":
                        b = e.atom(s[i - 1])
                        if not _may_pad(e, a.tok):
                            continue
                        if e.truth(z3.Bool(e.fresh_name("touch"))):
                            e.exact = False
                            continue
                        raise Unsupported("adjacent numbers split")
        return s.split(None, maxsplit)
    _check_no_literal(e, s, sep, "split")
    return s.split(sep, maxsplit)


def _may_pad(e, tok):
    return True


def _replace_symbolic(e, s, old, new):
    """Occurrences decided character by character: the same characters, or one that differs for sure."""
    out, k, n = [], 0, len(old)
    while k < len(s):
        part = s[k:k + n]
        if part == old:
            out.append(new)
            k += n
        elif len(part) == n and not any(char_eq(e, a, b) is False for a, b in zip(part, old)):
            raise Unsupported("replace with symbolic pattern")
        else:
            out.append(s[k])
            k += 1
    return "".join(out)


def m_replace(s, old, new, *rest):
    e = eng()
    if pua(old) and old and not rest:
        return _replace_symbolic(e, s, old, new)
    if pua(old) or pua(new):
        raise Unsupported("replace with symbolic pattern")
    if set(old) & NUM_ALPHABET - {" "} and any(
            isinstance(e.atom(ch), (TokChar,)) for ch in s if ch >= "\U000F0000"):
        raise Unsupported("replace in numeric text")
    _check_no_literal(e, s, old, "replace")
    return s.replace(old, new, *rest)


def m_find(s, sub, *rest):
    e = eng()
    if pua(sub):
        raise Unsupported("find of symbolic pattern")
    _check_no_literal(e, s, sub, "find")
    return s.find(sub, *rest)


def m_index(s, sub, *rest):
    e = eng()
    if not pua(sub):
        _check_no_literal(e, s, sub, "index")
    return s.index(sub, *rest)


def m_count(s, sub, *rest):
    e = eng()
    _check_no_literal(e, s, sub, "count")
    return s.count(sub, *rest)


STR_METHODS = {
    "strip": m_strip, "lstrip": m_lstrip, "rstrip": m_rstrip, "startswith": m_startswith,
    "endswith": m_endswith, "isdigit": m_isdigit, "isalpha": m_isalpha, "isspace": m_isspace,
    "isalnum": m_isalnum, "upper": lambda s: _case(s, True), "lower": lambda s: _case(s, False),
    "split": m_split, "replace": m_replace, "find": m_find, "index": m_index, "count": m_count,
}
# methods whose native behaviour is right on symbolic characters
STR_NATIVE = {"ljust", "rjust", "center", "zfill", "encode", "format", "splitlines", "__len__"}


def in_str(x, s):
    """x in s for strings."""
    e = eng()
    if len(x) == 1:
        parts = []
        for ch in s:
            r = char_eq(e, x, ch)
            if r is True:
                return True
            if r is not False:
                parts.append(r)
        return mkbool(z3.Or(*parts)) if parts else False
    if not pua(x):
        parts = []
        for i in range(len(s) - len(x) + 1):
            r = str_eq(s[i:i + len(x)], x)
            if r is True:
                return True
            if r is not False:
                parts.append(r.e)
        return mkbool(z3.Or(*parts)) if parts else False
    raise Unsupported("substring test with symbolic pattern")


# ------------------------------------------------------------------ text -> numbers

def parse_float(s):
    return lift_str(_parse_float1, s)


def parse_int(s):
    return lift_str(_parse_int1, s)


def _native_strip(s):
    return s.strip()


def _parse_float1(s):
    from . import reals
    e = eng()
    t = _native_strip(s)
    if not pua(t):
        return float(t)
    tok = _whole_token(e, t)
    if tok is not None:
        if tok.kind == "int":
            return mkreal(z3.ToReal(tok.value.e))
        return reals.rt(e, tok.value, tok.spec[1] if tok.spec[0] in "eE" else None)
    return _parse_general(e, t, False)


def _parse_int1(s):
    e = eng()
    t = _native_strip(s)
    if not pua(t):
        return int(t)
    tok = _whole_token(e, t)
    if tok is not None:
        if tok.kind == "int":
            return SymInt(tok.value.e)
        raise ValueError("invalid literal for int() with base 10")
    # symbolic characters
    if all(ch < "\U000F0000" or isinstance(e.atom(ch), SymChar) for ch in t):
        r = m_isdigit(t)
        if r is True or (r is not False and e.truth(r.e)):
            val = z3.IntVal(0)
            for ch in t:
                code = z3.IntVal(ord(ch)) if ch < "\U000F0000" else e.atom(ch).code
                val = val * 10 + (code - 48)
            return mkint(val)
        if t[0] in "+-" and len(t) > 1:
            v = _parse_int1(t[1:])
            return -v if t[0] == "-" else v
    return _parse_general(e, t, True)


# float grammar NFA:  states
#  0 start, 1 sign, 2 int digits, 3 dot after digits, 4 dot without digits, 5 frac digits,
#  6 e, 7 e sign, 8 exp digits ; accepting 2,3,5,8.  inf/nan words handled separately.
_DELTA = {
    0: [("d", 2), ("s", 1), (".", 4)],
    1: [("d", 2), (".", 4)],
    2: [("d", 2), (".", 3), ("e", 6), ("_", 9)],
    3: [("d", 5), ("e", 6)],
    4: [("d", 5)],
    5: [("d", 5), ("e", 6), ("_", 10)],
    6: [("d", 8), ("s", 7)],
    7: [("d", 8)],
    8: [("d", 8), ("_", 11)],
    9: [("d", 2)],
    10: [("d", 5)],
    11: [("d", 8)],
}
_ACC = {2, 3, 5, 8}


def _cls(e, ch, k):
    """Condition that character ch is in class k (d,s,.,e,_)."""
    def py(c):
        return {"d": c.isdigit(), "s": c in "+-", ".": c == ".", "e": c in "eE", "_": c == "_"}[k]

    def code(c):
        return {"d": _digit_code(c), "s": z3.Or(c == 43, c == 45), ".": c == 46,
                "e": z3.Or(c == 69, c == 101), "_": c == 95}[k]
    if ch < "\U000F0000":
        return z3.BoolVal(py(ch))
    a = e.atom(ch)
    if isinstance(a, SymChar):
        if "digit" in a.kinds:
            return z3.BoolVal(k == "d")
        if "letter" in a.kinds and k != "e":
            return z3.BoolVal(False)
        key = ("cls", a.code.get_id(), k)
        r = e.rt_memo.get(key)
        if r is None:
            e.keep.append(a.code)
            r = e.rt_memo[key] = _simp(code(a.code))
        return r
    if k == "_":
        return z3.BoolVal(False)
    if a.tok.kind == "int" and not a.tok.stripped:
        d, sg, _ = _int_char(a)
        return {"d": d, "s": sg}.get(k, z3.BoolVal(False))
    if a.tok.kind == "real" and a.tok.spec[0] in "eE":
        d, sg, ex, dot, minus, _ = _real_char(a)
        return {"d": d, "s": _simp(z3.Or(sg, minus)), ".": dot, "e": ex}[k]
    # token character: unknown (free)
    return None


def _parse_general(e, t, is_int):
    """Text made of symbolic characters / pieces of tokens: parses or not."""
    free = False
    cur = {0: z3.BoolVal(True)}
    for ch in t:
        nxt = {}
        for st, c in cur.items():
            for k, to in _DELTA[st]:
                if is_int and k in (".", "e"):
                    continue
                cc = _cls(e, ch, k)
                if cc is None:
                    free = True
                    v = c
                else:
                    v = _simp(z3.And(c, cc))
                if z3.is_false(v):
                    continue
                nxt[to] = _simp(z3.Or(nxt[to], v)) if to in nxt else v
        cur = nxt
        if not cur:
            break
    acc = [c for st, c in cur.items() if st in _ACC] if cur else []
    words = ("inf", "nan", "infinity")
    if not is_int:
        for w in words:
            for sg in ("", "+", "-"):
                if len(t) == len(w) + len(sg):
                    conds = []
                    ok = True
                    for ch, lit in zip(t, sg + w):
                        if ch < "\U000F0000":
                            if ch.lower() != lit:
                                ok = False
                                break
                        else:
                            a = e.atom(ch)
                            if not isinstance(a, SymChar):
                                ok = False
                                break
                            conds.append(z3.Or(a.code == ord(lit), a.code == ord(lit.upper())))
                    if ok:
                        acc.append(z3.And(*conds) if conds else z3.BoolVal(True))
    if not acc:
        raise ValueError("could not convert string to float")
    cond = _simp(z3.Or(*acc))
    if free:
        # pieces of formatted numbers: whether they parse is not modelled exactly
        flag = z3.Bool(e.fresh_name("parses"))
        e.exact = False
        cond = _simp(z3.And(cond, flag))
    if not e.truth(cond):
        raise ValueError("could not convert string to float")
    if is_int:
        return SymInt(z3.Int(e.fresh_name("parsedint")))
    return SymReal(z3.Real(e.fresh_name("parsed")))
