"""Exact polynomial arithmetic for geometry: a decision procedure of its own.

Values are quotients of polynomials with rational coefficients over coordinates and square
roots.  A goal is discharged when it follows by linear reasoning over monomials from the
registered hypotheses (polynomials that are zero, polynomials that are positive); anything
else is undischarged, never refuted: a violation is only reported from a replayed input.
"""
from fractions import Fraction

import numpy

from .core import Unsupported, eng


class TooBig(Unsupported):
    pass


def _q(x):
    """Exact rational of a number, as int where possible."""
    if isinstance(x, (bool, numpy.bool_)):
        return int(x)
    if isinstance(x, (int, numpy.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else x
    f = Fraction(float(x))
    return int(f) if f.denominator == 1 else f


def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + k * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    if len(out) > 20000:
        raise TooBig("polynomial of %d terms" % len(out))
    return out


def _mmul(a, b):
    d = dict(a)
    for x, n in b:
        d[x] = d.get(x, 0) + n
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 400000:
        raise TooBig("product of polynomials of %d and %d terms" % (len(a), len(b)))
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


def scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


UNIT = {(): 1}


def exact_div(a, b):
    """a / b when b divides a, else None (long division on the largest monomials)."""
    if len(b) > len(a):
        return None
    out = {}
    lead = max(b, key=_order)
    lb = dict(lead)
    a = dict(a)
    while a:
        m = max(a, key=_order)
        d = dict(m)
        for v, n in lb.items():
            k = d.get(v, 0) - n
            if k < 0:
                return None
            if k:
                d[v] = k
            else:
                d.pop(v, None)
        q = tuple(sorted(d.items()))
        c = Fraction(a[m]) / Fraction(b[lead])
        c = int(c) if c.denominator == 1 else c
        out[q] = c
        a = padd(a, pmul({q: c}, b), -1)
    return out


def _order(m):
    """Graded lexicographic order of monomials, as a sort key."""
    return (sum(n for _, n in m), tuple((-v, n) for v, n in m))


class Ring:
    """Variables, hypotheses and goals of one run."""

    def __init__(self, D):
        self.D = D
        self.names = []
        self.roots = {}        # variable -> radicand polynomial
        self.known_roots = []  # (squared polynomial, root polynomial)
        self.zeros = []        # echelon: (leading monomial, monic polynomial)
        self.raw_zeros = []
        self.pos = []          # positive polynomials, normal form
        self.reg_pos = []
        self.factors = []      # positive polynomials cancelled from quotients
        self.tokens = []       # (value, the number it is printed as)

    # -- inputs and hypotheses ---------------------------------------------- #
    def var(self, name):
        self.names.append(name)
        return P(self, {((len(self.names) - 1, 1),): 1})

    def real(self, name):
        return self.var(name)

    def positive(self, name):
        v = self.var(name)
        self.assume_pos(v)
        return v

    def const(self, x):
        return P(self, {(): _q(x)} if x else {})

    def assume_zero(self, p):
        p = self._poly(p)
        self.raw_zeros.append(p)
        p = self.nf(p)
        if p:
            lead = max(p)
            p = scale(p, Fraction(1) / p[lead])
            self.zeros = [(m, padd(q, p, -q.get(lead, 0)) if lead in q else q) for m, q in self.zeros]
            self.zeros.append((lead, p))
            self.pos = [self.nf(q) for q in self.reg_pos]

    def assume_pos(self, p):
        p = self._poly(p)
        self.reg_pos.append(p)
        self.pos.append(self.nf(p))

    def root(self, p, name="root"):
        """sqrt of a polynomial known to be positive."""
        p = self._poly(p)
        v = len(self.names)
        self.names.append(name)
        self.roots[v] = p
        y = {((v, 1),): 1}
        self.known_roots.append((self.nf(p), y))
        self.reg_pos.append(y)
        self.pos.append(self.nf(y))
        return P(self, y)

    def scaled_root(self, y, *factors):
        """The product of positive factors and a known root is the root of its square, and positive."""
        p = self._poly(y)
        for m in (y,) + factors:
            if self.sign(self._poly(m)) != 1:
                raise Unsupported("factor %s not known to be positive" % (m,))
        for m in factors:
            p = pmul(self._poly(m), p)
            if self._poly(m) not in self.factors:
                self.factors.append(self._poly(m))
        self.known_roots.append((self.nf(pmul(p, p)), p))
        self.reg_pos.append(p)
        self.pos.append(self.nf(p))

    def _poly(self, p):
        if not isinstance(p, P):
            return {(): _q(p)} if p else {}
        if p.d != UNIT:
            raise Unsupported("polynomial expected")
        return p.n

    # -- normal forms -------------------------------------------------------- #
    def nf(self, p):
        """Squares of roots replaced, modulo the linear span of the zero polynomials."""
        again = True
        while again:
            again = False
            for m in list(p):
                for v, n in m:
                    if n >= 2 and v in self.roots:
                        c = p[m]
                        rest = tuple((x, k - 2 if x == v else k) for x, k in m if not (x == v and k == 2))
                        p = padd({k: w for k, w in p.items() if k != m}, pmul({rest: c}, self.roots[v]))
                        again = True
                        break
                if again:
                    break
        for lead, z in self.zeros:
            c = p.get(lead)
            if c:
                p = padd(p, z, -c)
        return p

    def sign(self, p):
        """1, 0, -1 or None (not known)."""
        p = self.nf(p)
        if not p:
            return 0
        if list(p) == [()]:
            return 1 if p[()] > 0 else -1
        m0 = next(iter(p))
        for q in self.pos:
            if m0 in q and len(q) == len(p):
                k = Fraction(p[m0]) / Fraction(q[m0])
                if all(q.get(m) is not None and c == k * q[m] for m, c in p.items()):
                    return 1 if k > 0 else -1
        # sums of positive polynomials and of positive monomials
        for s in (1, -1):
            if all(s * c > 0 and all(n % 2 == 0 or {((v, 1),): 1} in self.pos for v, n in m) for m, c in p.items()) \
                    and any(all({((v, 1),): 1} in self.pos for v, n in m) for m in p):
                return s
        return None

    def is_zero(self, p):
        return not self.nf(p)

    # -- goals ---------------------------------------------------------------- #
    def goal(self, name, ok, detail=""):
        e = self.D.e
        rec = e.ob(name)
        rec[0] += 1
        e.stats["vcs"] += 1
        e.tick()
        if ok:
            rec[1] += 1
            e.stats["discharged"] += 1
            e.backends["polynomial normal form"] = e.backends.get("polynomial normal form", 0) + 1
        else:
            rec[3] += 1
            e.undischarged.append((name, "not implied by the hypotheses: %s" % (detail,)))
        return ok

    def eq(self, name, a, b):
        try:
            d = self.lift(a) - self.lift(b)
            return self.goal(name, self.is_zero(d.n), "difference %s" % (d,))
        except (TypeError, ValueError) as ex:
            return self.goal(name, False, repr(ex))

    def gt(self, name, a, b):
        d = self.lift(a) - self.lift(b)
        s, t = self.sign(d.n), self.sign(d.d)
        return self.goal(name, s is not None and t is not None and s * t > 0, "sign of %s" % (d,))

    def positive_sum(self, name, x, terms):
        """x is the sum of terms each of which is positive by hypothesis."""
        t = self.const(0)
        for k in terms:
            t = t + k
        return self.goal(name, self.is_zero((self.lift(x) - t).n) and bool(terms)
                         and all(self.sign(self.lift(k).n) == 1 for k in terms), "positivity of %s" % (x,))

    def token(self, x):
        """The number under which a value is printed: equal values share it.

        Assumed: zero or a magnitude within [1e-90, 1e90]; wider numbers are the matter of the
        contracts on records."""
        import z3
        from .core import SymReal, rv
        for y, t in self.tokens:
            if self.is_zero((x - y).n):
                return t
        v = z3.Real("printed%d" % len(self.tokens))
        e = self.D.e
        a = z3.If(v >= 0, v, -v)
        e.axiom(z3.Or(v == 0, z3.And(a >= rv(Fraction(1, 10 ** 90)), a <= rv(10 ** 90))))
        s, t = self.sign(x.n), self.sign(x.d)
        if s is not None and t is not None:
            e.axiom(v > 0 if s * t > 0 else v < 0 if s * t < 0 else v == 0)
        out = SymReal(v)
        self.tokens.append((x, out))
        return out

    def printed(self, name, field, want, prec):
        """A column read from a text holds this value."""
        want = self.lift(want)
        n = self.nf(want.n)
        if not n or list(n) == [()] and want.d == UNIT:
            for y, t in self.tokens:
                if self.is_zero((want - y).n):
                    break
            else:
                return self.D.prove(name, self.D.eqx(field, float(n.get((), 0)), prec), "column holds %r" % (field,))
        for y, t in self.tokens:
            if self.is_zero((want - y).n):
                from .core import _b
                c = self.D.eqx(field, t, prec)
                return self.goal(name, c if isinstance(c, bool) else self.D.e.implied(_b(c)), "column holds %r" % (field,))
        return self.goal(name, False, "%s is not printed" % (want,))

    def lift(self, x):
        return x if isinstance(x, P) else self.const(x)

    def sqrt(self, x):
        return x.sqrt() if isinstance(x, P) else self.const(x).sqrt()


class P:
    """A quotient of polynomials."""

    __slots__ = ("r", "n", "d")
    __hash__ = None

    def __init__(self, r, n, d=UNIT):
        self.r, self.n, self.d = r, n, d

    def _l(self, o):
        if isinstance(o, P):
            return o
        if isinstance(o, (int, float, Fraction, numpy.integer, numpy.floating)) and not isinstance(o, bool):
            return self.r.const(o)
        return None

    def __add__(self, o):
        b = self._l(o)
        if b is None:
            return NotImplemented
        if self.d == b.d:
            return P(self.r, padd(self.n, b.n), self.d)
        return P(self.r, padd(pmul(self.n, b.d), pmul(b.n, self.d)), pmul(self.d, b.d))

    __radd__ = __add__

    def __neg__(self):
        return P(self.r, scale(self.n, -1), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else self + (-b)

    def __rsub__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else b + (-self)

    def __mul__(self, o):
        b = self._l(o)
        if b is None:
            return NotImplemented
        d = b.d if self.d == UNIT else self.d if b.d == UNIT else pmul(self.d, b.d)
        return P(self.r, pmul(self.n, b.n), d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._l(o)
        if b is None:
            return NotImplemented
        if list(b.n) == [()] and b.d == UNIT:
            return P(self.r, scale(self.n, Fraction(1) / b.n[()]), self.d)
        if not self.r.sign(b.n):
            raise Unsupported("division by %s, not known to be non-zero" % (b,))
        n, d = pmul(self.n, b.d), pmul(self.d, b.n)
        for f in self.r.factors:
            while n and d:
                x = exact_div(d, f)
                y = exact_div(n, f) if x is not None else None
                if y is None:
                    break
                n, d = y, x
        return P(self.r, n, d)

    def __rtruediv__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else b / self

    def __pow__(self, k):
        if isinstance(k, (float, numpy.floating)) and float(k) == 0.5:
            return self.sqrt()
        if float(k) != int(k) or not 0 <= k <= 4:
            raise Unsupported("power %r" % (k,))
        out = self.r.const(1)
        for _ in range(int(k)):
            out = out * self
        return out

    def __abs__(self):
        s, t = self.r.sign(self.n), self.r.sign(self.d)
        if s is None or t is None:
            raise Unsupported("sign of %s" % (self,))
        return self if s * t >= 0 else -self

    def sqrt(self):
        r = self.r
        if self.d != UNIT:
            return P(r, self.n).sqrt() / P(r, self.d).sqrt()
        p = r.nf(self.n)
        if not p:
            return r.const(0)
        m0 = next(iter(p))
        for q, root in r.known_roots:
            if m0 in q and len(q) == len(p):
                k = Fraction(p[m0]) / Fraction(q[m0])
                s = _isqrt(k)
                if s is not None and all(q.get(m) is not None and c == k * q[m] for m, c in p.items()):
                    return P(r, scale(root, s))
        # positivity of the radicand is a hypothesis of non-degenerate geometry: recorded
        r.assumed_radicands = getattr(r, "assumed_radicands", 0) + 1
        return r.root(P(r, self.n), "sqrt%d" % len(r.names))

    def conjugate(self):
        return self

    def _cmp(self, o, f):
        b = self._l(o)
        if b is None:
            return NotImplemented
        x = self - b
        s, t = self.r.sign(x.n), self.r.sign(x.d)
        if s is None or t is None:
            raise Unsupported("comparison %s" % (x,))
        return f(s * t)

    def __lt__(self, o):
        return self._cmp(o, lambda s: s < 0)

    def __le__(self, o):
        return self._cmp(o, lambda s: s <= 0)

    def __gt__(self, o):
        return self._cmp(o, lambda s: s > 0)

    def __ge__(self, o):
        return self._cmp(o, lambda s: s >= 0)

    def __eq__(self, o):
        return self._cmp(o, lambda s: s == 0)

    def __ne__(self, o):
        return self._cmp(o, lambda s: s != 0)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic coordinate")

    __int__ = __index__ = __complex__ = __float__

    def __format__(self, spec):
        from .text import format_num
        return format_num(self.r.token(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        def mono(m):
            return "*".join(self.r.names[v] + ("^%d" % n if n > 1 else "") for v, n in m)
        def poly(p):
            t = ["%s%s" % (c, "*" + mono(m) if m else "") for m, c in list(p.items())[:6]]
            return " + ".join(t) + (" + ..." if len(p) > 6 else "") or "0"
        return poly(self.n) if self.d == UNIT else "(%s)/(%s)" % (poly(self.n), poly(self.d))


def _isqrt(k):
    import math
    if k < 0:
        return None
    a, b = math.isqrt(k.numerator), math.isqrt(k.denominator)
    return Fraction(a, b) if a * a == k.numerator and b * b == k.denominator else None
