"""Real arithmetic: roots, powers, logarithms, printed precision, and solver back ends.

Transcendental functions are uninterpreted symbols constrained by facts that are theorems
of real analysis (sign, bounds, monotonicity, exponent laws); every instance is added for
the applications that occur on the path.
"""
import math
import os
import subprocess
import tempfile
from fractions import Fraction

import z3

from .core import (NeedFork, SymBool, SymInt, SymNum, SymReal, Union, Unsupported, _simp, eng, is_intlike,
                   lift, mkbool, mkint, mkreal, rv, to_real)

Z0 = z3.RealVal(0)
Z1 = z3.RealVal(1)


class NotReal:
    """Result of a negative base to a fractional power: complex in Python 3."""

    def _arith(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _arith
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = _arith

    def _cmp(self, o):
        raise TypeError("'<' not supported between instances of 'complex' and 'float'")

    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __hash__ = None

    def __abs__(self):
        raise Unsupported("abs of complex")


# ------------------------------------------------------------------ function symbols

# Symbols are named after the (kept-alive, hence unique) arguments: the same name always
# denotes the same application, on every path.


def sqrt(x):
    e = eng()
    if not isinstance(x, SymNum):
        return math.sqrt(x)
    v = to_real(x)
    v = _simp(v)
    if z3.is_rational_value(v) and v.numerator_as_long() >= 0:
        n, d = v.numerator_as_long(), v.denominator_as_long()
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return mkreal(rv(Fraction(math.isqrt(n), math.isqrt(d))))
    if not e.truth(v >= 0):
        return NotReal()
    key = ("sqrt", v.get_id())
    hit = e.rt_memo.get(key)
    if hit is not None:
        return SymReal(hit)
    e.keep.append(v)
    s = z3.Real("sqrt!%d" % v.get_id())
    e.axiom(s >= 0)
    e.axiom(z3.Implies(v >= 0, s * s == v))
    e.rt_memo[key] = s
    return SymReal(s)


def exp(x):
    return _fun("exp", x)


def log(x):
    e = eng()
    v = to_real(x)
    if isinstance(x, SymNum) and not e.truth(v > 0):
        raise Unsupported("log of non-positive")
    return _fun("log", x)


def _fun(name, x):
    e = eng()
    v = _simp(to_real(x))
    key = (name, v.get_id())
    hit = e.rt_memo.get(key)
    if hit is not None:
        return SymReal(hit)
    e.keep.append(v)
    s = z3.Real("%s!%d" % (name, v.get_id()))
    e.rt_memo[key] = s
    e.powtab.append((name, v, None, s))
    return SymReal(s)


def power(b, p):
    import numpy
    if isinstance(b, Union) or isinstance(p, Union):
        raise NeedFork()
    e = eng()
    if isinstance(p, (float, numpy.floating)) and float(p).is_integer():
        p = int(p)
    if isinstance(p, (int, numpy.integer)) and not isinstance(p, bool):
        n = int(p)
        if n >= 0:
            if n > 12:
                raise Unsupported("large power")
            r = 1 if n == 0 else b
            for _ in range(n - 1):
                r = r * b
            if n == 0:
                return 1.0 if isinstance(b, SymReal) else 1
            return r
        return 1.0 / power(b, -n)
    if not isinstance(b, SymNum) and not isinstance(p, SymNum):
        return b ** p
    be = _simp(to_real(b))
    if not e.truth(be > 0):
        if e.truth(be == 0):
            if isinstance(p, SymNum):
                pe = to_real(p)
                if e.truth(pe > 0):
                    return 0.0
                if e.truth(pe == 0):
                    return 1.0
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            if p > 0:
                return 0.0
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return NotReal()
    if isinstance(p, float) and p == 0.5:
        return sqrt(mkreal(be))
    pe = _simp(to_real(p))
    key = ("pow", be.get_id(), pe.get_id())
    hit = e.rt_memo.get(key)
    if hit is not None:
        return SymReal(hit)
    e.keep.extend((be, pe))
    s = z3.Real("pow!%d_%d" % (be.get_id(), pe.get_id()))
    e.rt_memo[key] = s
    e.powtab.append(("pow", be, pe, s))
    return SymReal(s)


def rt(e, value, prec):
    """float(format(x, '.<prec>e')): printed precision contract.

    Contract (trusted, correctly rounded decimal conversion): the result is within half a
    unit of the last printed digit (relative 0.5*10^-prec of the leading digit's decade),
    keeps the sign, maps zero to zero, and re-printing does not change it.
    """
    v = value.e
    if prec is None or prec >= 16:  # 17 significant digits identify a double
        return mkreal(v)
    key = ("rt", v.get_id(), prec)
    hit = e.rt_memo.get(key)
    if hit is not None:
        return SymReal(hit)
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return mkreal(rv(float(format(float(f), ".%de" % prec))))
    done = e.rt_memo.get(("rt by", v.get_id()))
    if done is not None and done <= prec <= 14:  # a decimal of fewer digits is printed, and read again, as it is
        return mkreal(v)
    e.keep.append(v)
    s = z3.Real("rt%d!%d" % (prec, v.get_id()))
    tol = z3.RealVal(1) / z3.RealVal(2 * 10 ** prec)
    av = z3.If(v >= 0, v, -v)
    e.axiom(z3.And(s - v <= tol * av, v - s <= tol * av, z3.Implies(v == 0, s == 0)))
    e.rt_memo[key] = s
    e.rt_memo[("rt", s.get_id(), prec)] = s
    e.rt_memo[("rt by", s.get_id())] = prec
    e.keep.append(s)
    e.rt_used = True
    return SymReal(s)


# ------------------------------------------------------------------ axioms

_AX = {}


def axioms(e):
    """Ground facts about the function symbols of this path (cached by table content)."""
    tab = e.powtab
    if not tab:
        return []
    key = tuple(t[3].get_id() for t in tab)
    hit = e.ax_cache.get(key) if hasattr(e, "ax_cache") else None
    if hit is not None:
        return hit
    out = []
    for i, (k, a, b, s) in enumerate(tab):
        if k == "pow":
            out += [s > 0]
            out += [z3.Implies(a > 0, f) for f in [
                    z3.Implies(a == 1, s == 1), z3.Implies(b == 0, s == 1),
                    z3.Implies(b == 1, s == a),
                    z3.Implies(z3.And(a < 1, b > 0), s < 1), z3.Implies(z3.And(a > 1, b > 0), s > 1),
                    z3.Implies(z3.And(a < 1, b < 0), s > 1), z3.Implies(z3.And(a > 1, b < 0), s < 1),
                    z3.Implies(z3.And(a < 1, b > 1), s < a), z3.Implies(z3.And(a < 1, b > 0, b < 1), s > a),
                    z3.Implies(z3.And(a > 1, b > 1), s > a), z3.Implies(z3.And(a > 1, b > 0, b < 1), s < a)]]
        elif k == "exp":
            out += [s > 0, z3.Implies(a == 0, s == 1), z3.Implies(a > 0, s > 1), z3.Implies(a < 0, s < 1)]
        elif k == "log":
            out += [z3.Implies(a == 1, s == 0), z3.Implies(a > 1, s > 0),
                    z3.Implies(z3.And(a > 0, a < 1), s < 0)]
    for i in range(len(tab)):
        for j in range(i):
            k1, a1, b1, s1 = tab[i]
            k2, a2, b2, s2 = tab[j]
            if k1 != k2:
                continue
            n0 = len(out)
            if k1 == "pow":
                same_e = _simp(b1 == b2)
                same_b = _simp(a1 == a2)
                if not z3.is_false(same_e):
                    out += [z3.Implies(z3.And(same_e, a1 == a2), s1 == s2),
                            z3.Implies(z3.And(same_e, b1 > 0, a1 < a2), s1 < s2),
                            z3.Implies(z3.And(same_e, b1 > 0, a1 > a2), s1 > s2),
                            z3.Implies(z3.And(same_e, b1 < 0, a1 < a2), s1 > s2),
                            z3.Implies(z3.And(same_e, b1 < 0, a1 > a2), s1 < s2)]
                if not z3.is_false(same_b) and not z3.is_true(same_e):
                    out += [z3.Implies(z3.And(same_b, a1 > 1, b1 < b2), s1 < s2),
                            z3.Implies(z3.And(same_b, a1 > 1, b1 > b2), s1 > s2),
                            z3.Implies(z3.And(same_b, a1 < 1, b1 < b2), s1 > s2),
                            z3.Implies(z3.And(same_b, a1 < 1, b1 > b2), s1 < s2),
                            z3.Implies(z3.And(same_b, b1 == -b2), s1 * s2 == 1)]
            else:
                out += [z3.Implies(a1 == a2, s1 == s2), z3.Implies(a1 < a2, s1 < s2),
                        z3.Implies(a1 > a2, s1 > s2)]
            if k1 in ("pow", "log"):
                out[n0:] = [z3.Implies(z3.And(a1 > 0, a2 > 0), f) for f in out[n0:]]
    out = [_simp(x) for x in out]
    out = [x for x in out if not z3.is_true(x)]
    if not hasattr(e, "ax_cache"):
        e.ax_cache = {}
    e.ax_cache[key] = out
    e.keep.extend(t[3] for t in tab)
    return out


# ------------------------------------------------------------------ rational identities

class _TooBig(Exception):
    pass


def _padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + k * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    if len(out) > 3000:
        raise _TooBig()
    return out


def _pmul(a, b):
    out = {}
    if len(a) * len(b) > 60000:
        raise _TooBig()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for x, n in m2:
                d[x] = d.get(x, 0) + n
            m = tuple(sorted(d.items()))
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


ONE = {(): Fraction(1)}


def _rat(x, atoms, memo):
    """(numerator, denominator) polynomials of a z3 arithmetic term."""
    i = x.get_id()
    if i in memo:
        return memo[i]
    r = None
    if z3.is_rational_value(x) or z3.is_int_value(x):
        f = Fraction(str(x.as_fraction())) if z3.is_rational_value(x) else Fraction(x.as_long())
        r = ({(): f} if f else {}, ONE)
    elif z3.is_add(x):
        n, d = {}, ONE
        for c in x.children():
            cn, cd = _rat(c, atoms, memo)
            if cd == d:
                n = _padd(n, cn)
            else:
                n, d = _padd(_pmul(n, cd), _pmul(cn, d)), _pmul(d, cd)
        r = (n, d)
    elif z3.is_mul(x):
        n, d = ONE, ONE
        for c in x.children():
            cn, cd = _rat(c, atoms, memo)
            n, d = _pmul(n, cn), _pmul(d, cd)
        r = (n, d)
    elif z3.is_sub(x):
        ch = x.children()
        n, d = _rat(ch[0], atoms, memo)
        for c in ch[1:]:
            cn, cd = _rat(c, atoms, memo)
            n, d = _padd(_pmul(n, cd), _pmul(cn, d), -1), _pmul(d, cd)
        r = (n, d)
    elif x.decl().kind() == z3.Z3_OP_UMINUS:
        n, d = _rat(x.arg(0), atoms, memo)
        r = ({m: -c for m, c in n.items()}, d)
    elif x.decl().kind() == z3.Z3_OP_DIV:
        n1, d1 = _rat(x.arg(0), atoms, memo)
        n2, d2 = _rat(x.arg(1), atoms, memo)
        if not n2:
            raise _TooBig()
        r = (_pmul(n1, d2), _pmul(d1, n2))
    elif x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) and \
            x.arg(1).denominator_as_long() == 1 and 0 < x.arg(1).numerator_as_long() < 9:
        n, d = _rat(x.arg(0), atoms, memo)
        rn, rd = n, d
        for _ in range(x.arg(1).numerator_as_long() - 1):
            rn, rd = _pmul(rn, n), _pmul(rd, d)
        r = (rn, rd)
    elif x.decl().kind() == z3.Z3_OP_TO_REAL:
        r = _rat(x.arg(0), atoms, memo)
    else:
        r = ({((i, 1),): Fraction(1)}, ONE)
        atoms[i] = x
    memo[i] = r
    return r


def poly_identity(e, subst=None):
    """e is an equality that holds as an identity of rational functions.

    Denominators on a path are non-zero (division splits on zero), so a rational
    identity is a valid equality."""
    if not (z3.is_eq(e) and z3.is_arith(e.arg(0))):
        return False
    try:
        atoms, memo = {}, {}
        n1, d1 = _rat(e.arg(0), atoms, memo)
        n2, d2 = _rat(e.arg(1), atoms, memo)
        diff = _padd(_pmul(n1, d2), _pmul(n2, d1), -1)
        return not diff
    except (_TooBig, RecursionError):
        return False


# ------------------------------------------------------------------ other back ends

def hard_solve(e, neg, axs):
    """z3's nlsat core, then cvc5, on the goal the default solver did not decide."""
    goal = list(e.pc) + [neg] + list(axs)
    has_int = False
    t = min(e.prove_timeout, max(500, int(1000 * (e.deadline - __import__("time").time()))))
    try:
        s = z3.TryFor(z3.Then("simplify", "solve-eqs", "elim-term-ite", "purify-arith", "simplify", "solve-eqs", "smt"), int(t * 0.6)).solver()
        s.add(*goal)
        r = str(s.check())
        if r == "unsat":
            return r, None
        if r == "sat":
            return r, s.model()
    except z3.Z3Exception:
        pass
    try:
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", int(t * 0.6))
        s.add(*goal)
        r = str(s.check())
        if r in ("unsat", "sat"):
            return r, (s.model() if r == "sat" else None)
    except z3.Z3Exception:
        pass
    r = cvc5_check(goal, t)
    if r == "unsat":
        e.backends["cvc5"] = e.backends.get("cvc5", 0) + 1
        return "unsat", None
    return "unknown", None


def cvc5_check(goal, timeout_ms):
    s = z3.Solver()
    s.add(*goal)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, p], capture_output=True, text=True,
                           timeout=timeout_ms / 1000.0 + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except (OSError, subprocess.SubprocessError):
        return "unknown"
    finally:
        os.unlink(p)
