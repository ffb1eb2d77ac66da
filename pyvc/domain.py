"""The contract language: one specification, three interpretations.

A contract is a function of a domain object D.  `SymD` interprets inputs as symbols (the
deductive check), `ConcD` replays a concrete assignment or samples one (replay of
counterexamples; bounded stand-in where an obligation is not discharged)."""
import math
import os
import random
import shutil
import tempfile
from fractions import Fraction

import numpy
import z3

from . import core
from .containers import GDict
from .core import (Control, Failure, Maybe, PathCut, StopRun, Sym, SymBool, SymInt, SymNum, SymReal, Union,
                   Unsupported, _b, _simp, mk_and, mk_implies, mk_not, mk_or, mkbool, mkint, mkreal, to_real)


class Skip(Exception):
    """A sampled input outside the precondition."""


class Contract:
    def __init__(self, fn, functions, budget=40.0, samples=60, fallback=400, bounded=None, objarrays=False,
                 symbolic=True, max_paths=3000, sample_s=20.0, prove_ms=8000):
        self.fn = fn
        self.name = fn.__name__
        self.functions = functions
        self.budget = budget
        self.samples = samples
        self.fallback = fallback
        self.bounded = bounded
        self.objarrays = objarrays
        self.symbolic = symbolic
        self.max_paths = max_paths
        self.sample_s = sample_s
        self.prove_ms = prove_ms


REGISTRY = {}


def contract(prop, functions, **kw):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(Contract(fn, functions, **kw))
        return fn
    return deco


def also(prop, source, *names):
    """Contracts of another property that state this one too."""
    for c in REGISTRY[source]:
        if c.name in names:
            REGISTRY.setdefault(prop, []).append(c)


def stale(path):
    with open(path, "w") as h:
        h.write("left over\n1 2 3\n\n" * 40)
    return path


class Base:
    def scratch(self):
        """A scratch directory removed at the end of the path.

        One process uses one name again and again: what an earlier run left under it must not matter.
        """
        if self._dir is None:
            base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
            path = os.path.join(base, "pyvc_%d" % os.getpid())
            try:
                os.mkdir(path, 0o700)
                self._dir = path
            except OSError:
                self._dir = tempfile.mkdtemp(prefix="pyvc_", dir=base)
        return self._dir

    def file(self, name):
        """A file that already holds something else: writing replaces it."""
        return stale(os.path.join(self.scratch(), name))

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    # structural comparison ------------------------------------------------ #
    def same(self, name, got, want, prec=None, rel=1e-9, abs_=0.0, approx=False):
        """got equals want; None and absent entries of dictionaries coincide."""
        if isinstance(want, numpy.ndarray):
            want = want.tolist()
        if isinstance(got, numpy.ndarray):
            got = got.tolist()
        if isinstance(want, dict) and isinstance(got, dict):
            keys = list(dict.keys(want)) + [k for k in dict.keys(got) if not dict.__contains__(want, k)]
            for k in keys:
                self.same("%s.%s" % (name, _kname(self, k)), _entry(got, k), _entry(want, k), prec, rel, abs_)
            return
        if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)):
            self.prove("%s.len" % name, len(got) == len(want),
                       "%d entries, expected %d: %r / %r" % (len(got), len(want), got, want))
            for i in range(min(len(got), len(want))):
                self.same("%s[%d]" % (name, i), got[i], want[i], prec, rel, abs_)
            return
        self.prove(name, self.eqx(got, want, prec, rel, abs_), "got %r, expected %r" % (got, want))

    def eqx(self, a, b, prec=None, rel=1e-9, abs_=0.0):
        """Condition that a equals b."""
        if isinstance(a, numpy.ndarray):
            a = a.tolist()
        if isinstance(b, numpy.ndarray):
            b = b.tolist()
        if isinstance(a, Union):
            return mk_and(*[mk_implies(SymBool(c), self.eqx(v, b, prec, rel, abs_)) for c, v in a.alts])
        if isinstance(b, Union):
            return mk_and(*[mk_implies(SymBool(c), self.eqx(a, v, prec, rel, abs_)) for c, v in b.alts])
        if a is None or b is None:
            if isinstance(a, (dict,)) or isinstance(b, dict):
                return _empty(a) and _empty(b)
            return a is None and b is None
        if isinstance(a, str) or isinstance(b, str):
            if not (isinstance(a, str) and isinstance(b, str)):
                return False
            from .text import str_eq
            return str_eq(a, b) if core.ENG is not None else a == b
        if isinstance(a, dict) and isinstance(b, dict):
            ks = set(dict.keys(a)) | set(dict.keys(b))
            return mk_and(*[self.eqx(_entry(a, k), _entry(b, k), prec, rel, abs_) for k in ks]) if ks else True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return mk_and(*[self.eqx(x, y, prec, rel, abs_) for x, y in zip(a, b)]) if a else True
        if isinstance(a, (bool, SymBool, numpy.bool_)) != isinstance(b, (bool, SymBool, numpy.bool_)):
            if isinstance(a, (bool, SymBool, numpy.bool_)):
                a = a.as_int() if isinstance(a, SymBool) else int(a)
            else:
                b = b.as_int() if isinstance(b, SymBool) else int(b)
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(_b(a) == _b(b)) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
        try:
            return self.numeq(a, b, prec, rel, abs_)
        except (TypeError, ValueError):
            return False

    def close(self, name, a, b, rel=1e-9, abs_=0.0):
        self.prove(name, self.eqx(a, b, None, rel, abs_), "got %r, expected %r" % (a, b))


def _entry(d, k):
    if isinstance(d, GDict):
        p = d.present(k)
        if p is False:
            return None
        v = dict.__getitem__(d, k)
        return v if p is True else Maybe(p, v)
    return d[k] if dict.__contains__(d, k) else None


def _kname(D, k):
    return k if isinstance(k, (int,)) or (isinstance(k, str) and k.isascii()) else "<label>"


def _empty(x):
    return x is None or (isinstance(x, dict) and not len(x))


# ------------------------------------------------------------------ symbolic

class SymD(Base):
    symbolic = True

    def __init__(self, eng, T, np):
        self.e = eng
        self.T = T
        self.np = np
        self._dir = None

    def _in(self, name, kind, v):
        self.e.inputs.append((name, kind, v))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, edge=(), nonzero=False, wide=None):
        x = z3.Real(name)
        self._in(name, "real", x)
        if lo is not None:
            self.e.axiom(x > core.rv(lo) if lo_open else x >= core.rv(lo))
        if hi is not None:
            self.e.axiom(x < core.rv(hi) if hi_open else x <= core.rv(hi))
        if nonzero:
            self.e.axiom(x != 0)
        return SymReal(x)

    def int(self, name, lo=None, hi=None):
        x = z3.Int(name)
        self._in(name, "int", x)
        if lo is not None:
            self.e.axiom(x >= lo)
        if hi is not None:
            self.e.axiom(x <= hi)
        return SymInt(x)

    def bool(self, name):
        x = z3.Bool(name)
        self._in(name, "bool", x)
        return SymBool(x)

    def choice(self, name, opts):
        opts = list(opts)
        k = self.e.choose(len(opts)) if len(opts) > 1 else 0
        self._in(name, "choice", k)
        return opts[k]

    def opt(self, name, v):
        """v or None."""
        c = self.bool(name + "?")
        return Maybe(c, v)

    def text(self, name, n, letters=(), digits=(), alphabet=None):
        """n non-blank printable ASCII characters."""
        from .core import SymChar
        out = []
        for i in range(n):
            c = z3.Int("%s[%d]" % (name, i))
            self._in("%s[%d]" % (name, i), "code", c)
            kinds = ("nonspace",)
            if i in letters:
                self.e.axiom(z3.And(c >= 65, c <= 90))
                kinds = ("nonspace", "letter")
            elif i in digits:
                kinds = ("nonspace", "digit")
                self.e.axiom(z3.And(c >= 48, c <= 57))
            elif alphabet == "alnum":
                self.e.axiom(z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 48, c <= 57), z3.And(c >= 97, c <= 122)))
            else:
                self.e.axiom(z3.And(c >= 33, c <= 126))
            out.append(self.e.new_atom(SymChar(c, kinds)))
        return "".join(out)

    def choice_text(self, name, chars):
        """One character out of a set."""
        c = z3.Int(name)
        self._in(name, "code", c)
        self.e.axiom(z3.Or(*[c == ord(x) for x in chars]))
        kinds = ()
        if " " not in chars:
            kinds = ("nonspace",)
        return self.e.new_atom(core.SymChar(c, kinds))

    def elements(self, n, idx):
        """arange(n) is represented by its elements idx (increasing) from here on."""
        self.e.generic = (n, idx)

    def field(self, s, kind):
        """Content of a column, read by this specification: None when blank."""
        from . import text
        if kind == "raw":
            return s

        def one(t):
            u = t.strip()
            if not u:
                return None
            if kind == "text":
                return u
            try:
                return text.parse_float(u) if kind == "real" else text.parse_int(u)
            except ValueError:
                return "<not a number: %r>" % (t,)
        out = []
        for c, t in text.alts(s):
            for c2, v in self.e.local(c, lambda t=t: one(t)):
                out.append((c2, v))
        if len(out) == 1:
            return out[0][1]
        return core.make_union(out)

    def distinct(self, labels):
        from .text import str_eq
        labels = list(labels)
        for i in range(len(labels)):
            for j in range(i):
                if len(labels[i]) == len(labels[j]):
                    r = str_eq(labels[i], labels[j])
                    if isinstance(r, SymBool):
                        self.e.axiom(z3.Not(r.e))
                    elif r:
                        raise PathCut()

    def assume(self, c):
        self.e.assume(c if isinstance(c, bool) else _b(c))

    def prove(self, name, c, detail=None):
        if isinstance(c, numpy.bool_):
            c = bool(c)
        if not isinstance(c, (bool, SymBool)) and not z3.is_expr(c):
            c = core.truth_expr(c)
        return self.e.prove(name, c, detail)

    def cover(self, name):
        self.e.reach.add(name)

    def numeq(self, a, b, prec, rel, abs_):
        x, y = to_real(a), to_real(b)
        if isinstance(prec, tuple):
            w, p = prec
            ay = z3.If(y >= 0, y, -y)
            big = z3.Or(ay >= core.rv(Fraction(95, 10) * 10 ** 99), z3.And(y != 0, ay < core.rv(Fraction(1, 10 ** 99))))
            tols = {}
            for n in (0, 1, 2):
                tols[n] = core.rv(Fraction(1, 2 * 10 ** max(0, min(p, w - 6 - n))))
            tol = z3.If(y < 0, z3.If(big, tols[2], tols[1]), z3.If(big, tols[1], tols[0]))
            if tols[2].eq(tols[0]):
                tol = tols[0]
            return mkbool(z3.And(x - y <= tol * ay, y - x <= tol * ay))
        if prec is not None:
            tol = z3.RealVal(1) / z3.RealVal(2 * 10 ** prec)
            ay = z3.If(y >= 0, y, -y)
            return mkbool(z3.And(x - y <= tol * ay, y - x <= tol * ay))
        return mkbool(x == y)

    def le(self, a, b, slack=1e-12):
        return mkbool(to_real(a) <= to_real(b)) if isinstance(a, Sym) or isinstance(b, Sym) else a <= b

    def lt(self, a, b):
        return mkbool(to_real(a) < to_real(b)) if isinstance(a, Sym) or isinstance(b, Sym) else a < b

    def isreal(self, x):
        from .reals import NotReal
        if isinstance(x, Union):
            return mk_and(*[mk_implies(SymBool(c), self.isreal(v)) for c, v in x.alts])
        return isinstance(x, (SymNum, int, float, numpy.floating, numpy.integer)) and not isinstance(x, NotReal)

    def and_(self, *a):
        return mk_and(*a)

    def or_(self, *a):
        return mk_or(*a)

    def not_(self, a):
        return mk_not(a)

    def implies(self, a, b):
        return mk_implies(a, b)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def force(self, v):
        """The value v has on this path."""
        while isinstance(v, Union):
            v = v.resolve()
        return v

    def sqrt(self, x):
        from . import reals
        return reals.sqrt(x) if isinstance(x, SymNum) else math.sqrt(x)

    def pow(self, a, b):
        from . import reals
        if isinstance(a, Sym) or isinstance(b, Sym):
            return reals.power(a, b)
        return a ** b

    def truth(self, c):
        return bool(c)

    def maxi(self, a, b):
        from .hooks import _s_max
        return _s_max(a, b)

    def mini(self, a, b):
        from .hooks import _s_min
        return _s_min(a, b)

    def absv(self, a):
        return abs(a)

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except exc:
            self.prove(name, True)
            return True
        except Control:
            raise
        except Exception as ex:
            self.prove(name, False, "raised %r instead of %s" % (ex, exc))
            return False
        self.prove(name, False, "%s not raised" % (exc,))
        return False


# ------------------------------------------------------------------ concrete

class ConcD(Base):
    symbolic = False

    def __init__(self, T, values=None, rng=None):
        self.T = T
        self.np = numpy
        self.values = values or {}
        self.rng = rng
        self.used = {}
        self.failed = []
        self.nprove = 0
        self._dir = None
        self.covered = set()
        self.last = self.again = None

    def _val(self, name, gen):
        if name in self.values and self.values[name] is not None:
            v = self.values[name]
        elif self.rng is not None:
            v = gen(self.rng)
        else:
            v = gen(random.Random(0))
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, edge=(), nonzero=False, wide=None):
        def gen(r):
            k = r.random()
            if self.last is not None and r.random() < self.again and (lo is None or lo <= self.last) and (hi is None or self.last <= hi):
                return self.last
            if edge and k < 0.25:
                return r.choice(list(edge))
            if lo is not None and hi is not None and not wide:
                if k < 0.33 and not lo_open:
                    return lo
                if k < 0.41 and not hi_open:
                    return hi
                if lo > 0 and hi / lo > 1e3 or (lo == 0 and hi > 1e3):
                    l = lo if lo > 0 else hi * 1e-12
                    return math.exp(r.uniform(math.log(l), math.log(hi)))
                return r.uniform(lo, hi)
            if lo is not None and not wide:
                if k < 0.3 and not lo_open:
                    return lo
                return lo + 10 ** r.uniform(-8, 8) * r.random()
            if hi is not None and not wide:
                if k < 0.3 and not hi_open:
                    return hi
                return hi - 10 ** r.uniform(-8, 8) * r.random()
            if k < 0.3:
                return 0.0
            m = r.choice([1, -1]) * r.uniform(1, 9.99999999)
            if k < 0.45:
                return m * 10.0 ** r.choice([-120, -99, -100, -50, -11, -10, -3, 50, 99, 100, 120])
            return m * 10.0 ** r.randint(-12, 12)
        if self.again is None:
            # some samples hold equal numbers, a few only equal ones
            self.again = self.rng.choice([0, 0, 0, 0.1, 0.5, 0.95]) if self.rng is not None else 0
        v = self._val(name, gen)
        v = float(v)
        self.last = v
        if lo is not None and (v < lo or (lo_open and v <= lo)) or hi is not None and (
                v > hi or (hi_open and v >= hi)) or nonzero and v == 0:
            raise Skip()
        return v

    def int(self, name, lo=None, hi=None):
        def gen(r):
            a = lo if lo is not None else -10 ** 6
            b = hi if hi is not None else 10 ** 6
            k = r.random()
            if k < 0.15:
                return a
            if k < 0.3:
                return b
            if k < 0.6 and b - a > 50:
                c = r.choice([0, 1, 2, 9, 10, 99, 100, 999, -1, -9])
                if a <= c <= b:
                    return c
            return r.randint(a, b)
        v = int(self._val(name, gen))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip()
        return v

    def bool(self, name):
        return bool(self._val(name, lambda r: r.random() < 0.5))

    def choice(self, name, opts):
        opts = list(opts)
        k = self._val(name, lambda r: r.randrange(len(opts)))
        return opts[k]

    def opt(self, name, v):
        return v if self.bool(name + "?") else None

    def text(self, name, n, letters=(), digits=(), alphabet=None):
        out = []
        for i in range(n):
            def gen(r, i=i):
                if i in letters:
                    return r.randint(65, 90)
                if i in digits:
                    return r.randint(48, 57)
                if alphabet == "alnum" or r.random() < 0.85:
                    return ord(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcxyz"))
                return r.randint(33, 126)
            out.append(chr(int(self._val("%s[%d]" % (name, i), gen))))
        return "".join(out)

    def choice_text(self, name, chars):
        return chr(int(self._val(name, lambda r: ord(r.choice(chars)))))

    def field(self, s, kind):
        if kind == "raw":
            return s
        u = s.strip()
        if not u:
            return None
        if kind == "text":
            return u
        try:
            return float(u) if kind == "real" else int(u)
        except ValueError:
            return "<not a number: %r>" % (s,)

    def distinct(self, labels):
        labels = list(labels)
        if len(set(labels)) != len(labels):
            raise Skip()

    def assume(self, c):
        if not c:
            raise Skip()

    def prove(self, name, c, detail=None):
        self.nprove += 1
        if isinstance(c, numpy.ndarray):
            c = bool(numpy.all(c))
        if not c:
            self.failed.append((name, str(detail)[:1500] if detail else ""))
        return bool(c)

    def cover(self, name):
        self.covered.add(name)

    def numeq(self, a, b, prec, rel, abs_):
        if isinstance(a, complex) or isinstance(b, complex):
            return False
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if a == b:
            return True
        if isinstance(prec, tuple):
            w, p = prec
            n = (1 if b < 0 else 0) + (1 if abs(b) >= 9.5e99 or 0 < abs(b) < 1e-99 else 0)
            prec = max(0, min(p, w - 6 - n))
        if prec is not None:
            return abs(a - b) <= (0.5000001 * 10 ** -prec + 2.3e-16) * abs(b) + 5e-324
        return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_

    def le(self, a, b, slack=1e-9):
        return a <= b + slack * max(abs(a), abs(b), 1e-300)

    def lt(self, a, b):
        return a < b

    def isreal(self, x):
        return isinstance(x, (int, float, numpy.floating, numpy.integer)) and math.isfinite(x)

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def force(self, v):
        return v

    def sqrt(self, x):
        return math.sqrt(x)

    def pow(self, a, b):
        return a ** b

    def truth(self, c):
        return bool(c)

    def maxi(self, a, b):
        return max(a, b)

    def mini(self, a, b):
        return min(a, b)

    def absv(self, a):
        return abs(a)

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except exc:
            self.prove(name, True)
            return True
        except Skip:
            raise
        except Exception as ex:
            self.prove(name, False, "raised %r instead of %s" % (ex, exc))
            return False
        self.prove(name, False, "%s not raised" % (exc,))
        return False
