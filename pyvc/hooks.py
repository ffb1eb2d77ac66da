"""Run-time hooks called by the instrumented source.  On ordinary values every hook is the
plain Python operation; symbolic values are handled here."""
import builtins
import operator
import re

import numpy
import z3

from . import core
from .containers import GDict, dictcomp as _dictcomp, restrict, update as _update  # noqa: F401
from .core import (Budget, Control, NeedFork, PathCut, StopRun, Sym, SymBool, SymInt, SymNum, SymReal, Union,
                   Unsupported, _b, _simp, is_intlike, ite, lift, make_union, mk_and, mk_not, mk_or, mkbool,
                   mkint, mkreal, to_int, to_real, truth_expr)
from .loader import PURE
from . import text
from .text import pua
from .poly import P

_PLAIN = (int, float, bool, type(None))


def _sy(x):
    return isinstance(x, Sym)


# ------------------------------------------------------------------ comparisons

def _conc(x):
    return type(x) in (int, float, bool)


def eq(a, b):
    if _conc(a) and _conc(b):
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        if pua(a) or pua(b):
            return text.str_eq(a, b)
        return a == b
    if isinstance(a, Union):
        return lift(lambda x: eq(x, b), a)
    if isinstance(b, Union):
        return lift(lambda x: eq(a, x), b)
    return a == b


def ne(a, b):
    if isinstance(a, (Union, str)) or isinstance(b, (Union, str)):
        r = eq(a, b)
        if isinstance(r, (bool, SymBool)):
            return mk_not(r)
        if isinstance(r, numpy.ndarray):
            return a != b
        return not r
    return a != b


def _ord(op):
    def f(a, b):
        if isinstance(a, Union):
            return lift(lambda x: f(x, b), a)
        if isinstance(b, Union):
            return lift(lambda x: f(a, x), b)
        if isinstance(a, str) and isinstance(b, str) and (pua(a) or pua(b)):
            return text.str_cmp(op, a, b)
        return op(a, b)
    return f


lt, le, gt, ge = _ord(operator.lt), _ord(operator.le), _ord(operator.gt), _ord(operator.ge)


def is_(a, b):
    if isinstance(a, Union):
        return mk_or(*[mk_and(SymBool(c), is_(v, b)) for c, v in a.alts])
    if isinstance(b, Union):
        return is_(b, a)
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    return a is b


def isnot(a, b):
    return mk_not(is_(a, b))


def in_(x, c):
    if isinstance(c, Union):
        return lift(lambda y: in_(x, y), c)
    if isinstance(x, Union):
        return lift(lambda y: in_(y, c), x)
    if isinstance(x, str):
        if isinstance(c, str):
            if pua(x) or pua(c):
                return text.in_str(x, c)
            return x in c
        if isinstance(c, GDict):
            p = c.present(x)
            if p is not False or not pua(x):
                return p
        if isinstance(c, (dict, set, frozenset, list, tuple)) or type(c).__name__ in ("dict_keys", "odict_keys"):
            keys = list(c) if not isinstance(c, GDict) else list(dict.keys(c))
            px = pua(x)
            if px and isinstance(c, (dict, set, frozenset)) or px and type(c).__name__ in ("dict_keys", "odict_keys"):
                if any(isinstance(k, str) and k == x for k in keys):
                    return True
            parts = []
            for k in keys:
                if isinstance(k, str) and (px or pua(k)):
                    r = text.str_eq(x, k)
                    if r is True:
                        return True
                    if r is not False:
                        parts.append(r)
                elif isinstance(k, str) and k == x:
                    return True
                elif isinstance(k, Union):
                    parts.append(eq(x, k))
            return mk_or(*parts) if parts else False
        return x in c
    if isinstance(x, SymNum) and isinstance(c, (list, tuple, set, frozenset, dict, range)) or \
            isinstance(x, SymNum) and type(c).__name__ in ("dict_keys", "odict_keys"):
        if isinstance(c, range) and c.step == 1:
            return mk_and(x >= c.start, x < c.stop)
        return mk_or(*[eq(x, y) for y in c if not isinstance(y, str)]) if len(c) else False
    if isinstance(c, (list, tuple)):
        parts = []
        for y in c:
            r = eq(x, y) if (_sy(x) or _sy(y)) else (x is y or x == y)
            if r is True:
                return True
            if isinstance(r, SymBool):
                parts.append(r)
            elif not isinstance(r, bool):
                return x in c
        return mk_or(*parts) if parts else False
    return x in c


def notin(x, c):
    r = in_(x, c)
    return mk_not(r) if isinstance(r, (bool, SymBool)) else not r


_OPS = {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge, "is_": is_, "isnot": isnot, "in_": in_,
        "notin": notin}


def chain(names, *thunks):
    a = thunks[0]()
    res = []
    for n, t in zip(names, thunks[1:]):
        b = t()
        r = _OPS[n](a, b)
        if not isinstance(r, (bool, SymBool)):
            if not r:
                return r
        elif r is False:
            return False
        else:
            res.append(r)
        a = b
    return mk_and(*res) if res else True


# ------------------------------------------------------------------ boolean structure

def _symbolic_truth(x):
    """truth value as bool, or SymBool when undecided."""
    if type(x) in (bool, int, float, str, list, dict, tuple, type(None)):
        return bool(x)
    if isinstance(x, (GDict, text.LazySplit)):
        return x.truth()
    if isinstance(x, Sym):
        return truth_expr(x)
    if isinstance(x, str):
        return bool(x)
    return bool(x)


def _settled(t):
    """Decide t if the path already settles it."""
    if isinstance(t, bool):
        return t
    e = core.ENG
    if e.implied(t.e):
        return True
    if e.check_sat(t.e) == "unsat":
        return False
    return None


def _branch(t, fa, fb):
    """fa() if t else fb() for undecided SymBool t: merge when pure, else split."""
    e = core.ENG
    s = _settled(t)
    if s is not None:
        return fa() if s else fb()
    snap = len(e.atoms)
    try:
        alts = e.local(t.e, fa) + e.local(_simp(z3.Not(t.e)), fb)
        e.stats["merges"] += 1
        return make_union(alts)
    except (NeedFork, Unsupported):
        if e.merge_depth:
            raise NeedFork()
    except Control:
        raise
    except Exception:
        if e.merge_depth:
            raise NeedFork()
    return fa() if e.truth(t.e) else fb()


def and_(a, *rest):
    v = a
    for k, th in enumerate(rest):
        t = _symbolic_truth(v)
        if isinstance(t, bool):
            if not t:
                return v
            v = th()
            continue
        tail = rest[k:]
        vv = v

        def more():
            r = tail[0]()
            return and_(r, *tail[1:]) if len(tail) > 1 else r
        return _branch(t, more, lambda: (vv if not isinstance(vv, SymBool) else False))
    return v


def or_(a, *rest):
    v = a
    for k, th in enumerate(rest):
        t = _symbolic_truth(v)
        if isinstance(t, bool):
            if t:
                return v
            v = th()
            continue
        tail = rest[k:]
        vv = v

        def more():
            r = tail[0]()
            return or_(r, *tail[1:]) if len(tail) > 1 else r
        return _branch(t, lambda: (restrict(vv, t) if not isinstance(vv, SymBool) else True), more)
    return v


def not_(x):
    t = _symbolic_truth(x)
    return mk_not(t)


def ifexp(test, fa, fb):
    t = _symbolic_truth(test)
    if isinstance(t, bool):
        return fa() if t else fb()
    return _branch(t, fa, fb)


def dictcomp(gen):
    if core.ENG is None:
        return {k(): v() for c, k, v in gen if c}
    return _dictcomp(gen)


class _GItems:
    pass


def ditems(it):
    """Items of a dictionary, announcing whether each is present."""
    from . import containers
    if isinstance(it, containers.GItems):
        for k, v, p in it.entries():
            if p is not False:
                containers.PRESENCE[0] = p
                yield k, v
    else:
        for x in it:
            containers.PRESENCE[0] = True
            yield x


# ------------------------------------------------------------------ item access

def getitem(o, i):
    ti = type(i)
    if ti is int or ti is slice:
        if isinstance(o, Union):
            return lift(lambda x: x[i], o)
        return o[i]
    if isinstance(o, Union):
        return lift(lambda x: getitem(x, i), o)
    if isinstance(i, Union):
        return lift(lambda x: getitem(o, x), i)
    if ti is str:
        if isinstance(o, dict):
            if dict.__contains__(o, i):
                return o[i]
            if pua(i) or any(isinstance(k, str) and pua(k) for k in dict.keys(o)):
                for k in list(dict.keys(o)):
                    if isinstance(k, str):
                        r = text.str_eq(k, i)
                        if r is True or (r is not False and bool(r)):
                            return o[k]
        return o[i]
    if isinstance(i, SymBool):
        i = i.as_int()
    if isinstance(i, GArr):
        return i.map(lambda k: getitem(o, k))
    if isinstance(i, SymInt):
        if isinstance(o, numpy.ndarray) and o.ndim == 1 and o.dtype.kind == "U":
            r = _table_text(o, i)
            if r is not None:
                return r
        if isinstance(o, dict):
            for k in list(dict.keys(o)):
                if isinstance(k, int) or isinstance(k, SymInt):
                    r = eq(k, i)
                    if r is True or (r is not False and bool(r)):
                        return o[k]
            raise KeyError(i)
        e = core.ENG
        n = len(o)
        if n <= 64 and isinstance(o, (list, tuple, str, numpy.ndarray)):
            idx = i.e
            if not e.truth(_simp(z3.And(idx >= -n, idx < n))):
                raise IndexError("index out of range")
            alts = []
            for k in range(n):
                c = _simp(z3.Or(idx == k, idx == k - n))
                if e.check_sat(c) != "unsat":
                    alts.append((c, o[k]))
            return make_union(alts)
        raise Unsupported("symbolic index")
    return o[i]


class GArr:
    """Some arbitrary elements of an array of unknown size (in increasing position).

    Only elementwise use is possible; anything that depends on size or position is outside
    the subset."""
    __slots__ = ("v",)
    __array_ufunc__ = None

    def __init__(self, v):
        self.v = list(v)

    def map(self, f):
        return GArr([f(x) for x in self.v])

    def __iter__(self):
        return iter(self.v)

    def _bin(self, op, o, r=False):
        if isinstance(o, GArr):
            return GArr([op(b, a) if r else op(a, b) for a, b in zip(self.v, o.v)])
        if isinstance(o, (list, tuple, numpy.ndarray)) and numpy.ndim(o):
            raise Unsupported("array of unknown size with an array")
        return GArr([op(o, a) if r else op(a, o) for a in self.v])

    def __add__(self, o):
        return self._bin(operator.add, o)

    def __radd__(self, o):
        return self._bin(operator.add, o, True)

    def __sub__(self, o):
        return self._bin(operator.sub, o)

    def __rsub__(self, o):
        return self._bin(operator.sub, o, True)

    def __mul__(self, o):
        return self._bin(operator.mul, o)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._bin(operator.floordiv, o)

    def __mod__(self, o):
        return self._bin(operator.mod, o)

    def __divmod__(self, o):
        return self // o, self % o

    def __len__(self):
        raise Unsupported("size of an array of unknown size")

    def __getattr__(self, n):
        raise Unsupported("array of unknown size: %s" % n)

    def __getitem__(self, i):
        raise Unsupported("element of an array of unknown size")


_TABLES = {}


def _table_text(o, i):
    """Entry i of a constant table of texts, as a formula of i (checked on every entry)."""
    e = core.ENG
    n = len(o)
    k = (n, o.dtype.str, o.tobytes() if n <= 4096 else hash(o.tobytes()))
    if k not in _TABLES:
        w = o.dtype.itemsize // 4
        codes = numpy.frombuffer(o.tobytes(), dtype=numpy.uint32).reshape(n, w).astype(numpy.int64)
        form = None
        if n and w and codes.min() > 0:
            if ((codes >= 48) & (codes <= 57)).all() and n == 10 ** w and w > 1 and \
                    (((codes - 48) * 10 ** numpy.arange(w - 1, -1, -1)).sum(axis=1) == numpy.arange(n)).all():
                form = ("digits", w)
            else:
                cols = []
                for c in codes.T:
                    d = c - numpy.arange(n)
                    cuts = [0] + [int(x) + 1 for x in numpy.flatnonzero(numpy.diff(d))] + [n]
                    if len(cuts) > 8:
                        cols = None
                        break
                    seg = [(a, b, int(d[a])) for a, b in zip(cuts, cuts[1:])]
                    kinds = ("nonspace",) if (c != 32).all() else ()
                    if ((c >= 48) & (c <= 57)).all():
                        kinds += ("digit",)
                    elif ((c >= 65) & (c <= 90)).all():
                        kinds += ("letter",)
                    cols.append((seg, kinds))
                form = ("affine", cols) if cols else None
        _TABLES[k] = form
    form = _TABLES[k]
    if form is None:
        return None
    x = i.e
    if not e.truth(_simp(z3.And(x >= -n, x < n))):
        raise IndexError("index out of range")
    if not e.implied(_simp(x >= 0)):
        x = z3.If(x < 0, x + n, x)
    out = []
    if form[0] == "digits":
        w = form[1]
        key = ("digits", x.get_id(), w)
        out = e.rt_memo.get(key)
        if out is None:
            e.keep.append(x)
            ds = [z3.Int(e.fresh_name("dig")) for _ in range(w)]
            e.axiom(z3.And(*[z3.And(d >= 0, d <= 9) for d in ds]))
            e.axiom(x == z3.Sum(*[d * 10 ** (w - 1 - j) for j, d in enumerate(ds)]))
            out = e.rt_memo[key] = [e.new_atom(core.SymChar(_simp(d + 48), ("nonspace", "digit"))) for d in ds]
        return "".join(out)
    for seg, kinds in form[1]:
        c = x + seg[-1][2]
        for a, b, d in reversed(seg[:-1]):
            c = z3.If(x < b, x + d, c)
        out.append(e.new_atom(core.SymChar(_simp(c), kinds)))
    return "".join(out)


# ------------------------------------------------------------------ function shims

def _s_float(x=0.0):
    if isinstance(x, str):
        return text.parse_float(x) if pua(x) else float(x)
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return mkreal(z3.ToReal(x.e))
    if isinstance(x, SymBool):
        return mkreal(to_real(x))
    if isinstance(x, Union):
        return lift(_s_float, x)
    if isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
        return _s_float(x.reshape(-1)[0])
    return float(x)


def _s_int(x=0, *base):
    if isinstance(x, str):
        return text.parse_int(x) if pua(x) else int(x, *base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymReal):
        return mkint(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if isinstance(x, Union):
        return lift(_s_int, x)
    return int(x, *base)


def _s_bool(x=False):
    t = _symbolic_truth(x)
    return t


def _s_str(x=""):
    if isinstance(x, str):
        return x
    if isinstance(x, Union):
        return lift(_s_str, x)
    return str(x)


def _s_len(x):
    if isinstance(x, Union):
        return lift(_s_len, x)
    return len(x)


def _types(t):
    return t if isinstance(t, tuple) else (t,)


def _flat(t):
    for x in _types(t):
        if isinstance(x, tuple):
            yield from _flat(x)
        else:
            yield x


def _s_isinstance(x, t):
    if isinstance(x, SymReal):
        return any(issubclass(float, c) for c in _flat(t))
    if isinstance(x, SymInt):
        return any(issubclass(int, c) for c in _flat(t))
    if isinstance(x, SymBool):
        return any(issubclass(bool, c) for c in _flat(t))
    if isinstance(x, Union):
        return mk_or(*[mk_and(SymBool(c), _s_isinstance(v, t)) for c, v in x.alts])
    return isinstance(x, t)


def _s_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SymReal):
        return float
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, Union):
        return _s_type(x.resolve())
    if isinstance(x, GDict):
        return dict
    return type(x)


def _s_any(it):
    parts = []
    for x in it:
        t = _symbolic_truth(x)
        if t is True:
            return True
        if t is not False:
            parts.append(t)
    return mk_or(*parts) if parts else False


def _s_all(it):
    parts = []
    for x in it:
        t = _symbolic_truth(x)
        if t is False:
            return False
        if t is not True:
            parts.append(t)
    return mk_and(*parts) if parts else True


def _minmax(native, op):
    def f(*a, **k):
        if k:
            return native(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not any(_sy(x) for x in items):
            return native(items)
        best = items[0]
        for x in items[1:]:
            b = best
            c = op(x, b)
            if isinstance(c, SymBool):
                st = _settled(c)
                if st is not None:
                    c = st
            best = ite(c, x, b) if isinstance(c, (bool, SymBool)) else (x if c else b)
        return best
    return f


_s_max = _minmax(max, gt)
_s_min = _minmax(min, lt)


def _s_abs(x):
    if isinstance(x, Union):
        return lift(abs, x)
    return abs(x)


def _s_range(*a):
    if any(_sy(x) for x in a):
        e = core.ENG
        a = tuple(concretize(x) for x in a)
    return range(*a)


def concretize(x):
    """Split the path on the value of a bounded symbolic integer."""
    e = core.ENG
    if isinstance(x, Union):
        x = x.resolve()
    if isinstance(x, SymBool):
        x = x.as_int()
    if not isinstance(x, SymInt):
        return x
    for _ in range(40):
        s = e.solver
        if s.check() != z3.sat:
            raise Unsupported("cannot enumerate symbolic integer")
        v = s.model().eval(x.e, model_completion=True)
        if e.truth(x.e == v):
            return v.as_long()
    raise Unsupported("symbolic integer with too many values")


def _s_round(x, n=None):
    if isinstance(x, Union):
        x = x.resolve()
    if _sy(x) and not isinstance(x, SymNum):
        raise Unsupported("round")
    return round(x) if n is None else round(x, n)


def _s_divmod(a, b):
    return divmod(a, b)


def _s_map(f, *its):
    g = fn(f)
    return map(g, *its)


def _s_filter(f, it):
    if f is None:
        return [x for x in it if _symbolic_truth(x)]
    g = fn(f)
    return [x for x in it if g(x)]


def _s_sum(it, start=0):
    r = start
    for x in it:
        if isinstance(x, (Union,)) or isinstance(r, Union):
            a = r
            r = lift(lambda y: a + y, x) if isinstance(x, Union) else lift(lambda y: y + x, a)
        elif isinstance(x, SymBool):
            r = r + x.as_int()
        else:
            r = r + x
    return r


def _s_dict(*a, **k):
    if len(a) == 1 and isinstance(a[0], GDict):
        g = a[0].copy()
        g.update(k)
        return g
    return dict(*a, **k)


SHIMS = {float: _s_float, int: _s_int, bool: _s_bool, str: _s_str, len: _s_len, isinstance: _s_isinstance,
         type: _s_type, any: _s_any, all: _s_all, max: _s_max, min: _s_min, abs: _s_abs, range: _s_range,
         round: _s_round, map: _s_map, filter: _s_filter, sum: _s_sum, dict: _s_dict}

_PURE_BUILTINS = {float, int, bool, str, len, isinstance, type, any, all, max, min, abs, range, round, map, filter,
                  sum, sorted, list, tuple, zip, enumerate, reversed, set, frozenset, dict, repr, ord, chr, hash,
                  divmod, pow, slice, issubclass, getattr, hasattr, callable, iter}


def is_pure_repo(f):
    code = getattr(f, "__code__", None)
    if code is None:
        return False
    return PURE.get((code.co_filename, code.co_name, code.co_firstlineno), False) and not hasattr(f, "__wrapped__")


def fn(f):
    e = core.ENG
    if e is None:
        return f
    try:
        s = SHIMS.get(f)
    except TypeError:
        s = None
    if s is not None:
        return s
    if is_pure_repo(f):
        e.called.add((f.__module__, f.__qualname__))
        return _lifted(f)
    code = getattr(f, "__code__", None)
    if code is not None and getattr(f, "__module__", "").startswith("toughio_vc"):
        e.called.add((f.__module__, f.__qualname__))
    if e.merge_depth:
        ok = False
        try:
            ok = f in _PURE_BUILTINS
        except TypeError:
            pass
        if not ok and isinstance(f, type) and issubclass(f, BaseException):
            ok = True
        if not ok and getattr(f, "__vc_shim__", False):
            ok = True
        if not ok and isinstance(f, numpy.ufunc):
            ok = True
        if not ok:
            raise NeedFork()
    return f


def _lifted(f):
    def call(*a, **k):
        for i, x in enumerate(a):
            if isinstance(x, Union):
                rest = a

                def one(v, i=i):
                    b = list(rest)
                    b[i] = v
                    return call(*b, **k)
                r = lift(one, x)
                return r
        e = core.ENG
        if e is not None and e.merge_calls and (any(_symbolic_arg(x) for x in a)):
            # explore the pure callee separately and merge its results
            if not e.merge_depth or True:
                try:
                    return _merge_call(f, a, k)
                except NeedFork:
                    if e.merge_depth:
                        raise
        return f(*a, **k)
    return call


def _symbolic_arg(x):
    return isinstance(x, Sym) or (isinstance(x, str) and pua(x))


def _merge_call(f, a, k):
    e = core.ENG
    try:
        alts = e.local(None, lambda: f(*a, **k))
    except (NeedFork, Unsupported):
        raise NeedFork()
    except Control:
        raise
    except Exception as ex:
        if getattr(ex, "on_every_path", False):
            raise
        raise NeedFork()
    return make_union(alts)


_PURE_METHODS = {
    str: None,
    dict: {"get", "keys", "items", "values", "copy"},
    list: {"index", "count", "copy"},
    tuple: {"index", "count"},
    numpy.ndarray: {"sum", "min", "max", "all", "any", "mean", "tolist", "reshape", "ravel", "astype", "copy",
                    "flatten", "transpose", "dot", "argmin", "argmax", "cumsum", "item"},
}


def _strmeth(s, name):
    native = getattr(s, name)

    def call(*a, **k):
        if name == "format":
            return _format(s, a, k)
        if name == "join":
            return _join(s, a[0])
        if pua(s) or any(isinstance(x, str) and pua(x) for x in a) or \
                any(isinstance(x, tuple) and any(isinstance(y, str) and pua(y) for y in x) for x in a):
            m = text.STR_METHODS.get(name)
            if m is not None:
                return m(s, *a, **k)
            if name in text.STR_NATIVE:
                return native(*a, **k)
            raise Unsupported("str.%s on symbolic text" % name)
        if any(isinstance(x, Union) for x in a):
            for i, x in enumerate(a):
                if isinstance(x, Union):
                    return lift(lambda v: getattr(s, name)(*(list(a[:i]) + [v] + list(a[i + 1:])), **k), x)
        return native(*a, **k)
    return call


def _format(s, a, k):
    for i, x in enumerate(a):
        if isinstance(x, Union):
            return lift(lambda v: _format(s, tuple(a[:i]) + (v,) + tuple(a[i + 1:]), k), x)
    return s.format(*a, **k)


def _join(s, it):
    items = list(it)
    if any(isinstance(x, Union) for x in items):
        acc = ""
        for i, x in enumerate(items):
            pre = acc + (s if i else "")
            if isinstance(pre, Union) or isinstance(x, Union):
                y = x
                p = pre
                acc = lift(lambda u: lift(lambda v: u + v, y), p)
            else:
                acc = pre + x
        return acc
    return s.join(items)


def meth(o, name):
    e = core.ENG
    if e is None:
        return getattr(o, name)
    if isinstance(o, str):
        return _strmeth(o, name)
    if isinstance(o, Union):
        if all(isinstance(v, str) for _, v in o.alts):
            def call(*a, **k):
                return lift(lambda v: _strmeth(v, name)(*a, **k), o)
            return call
        o = o.resolve()
        return meth(o, name)
    if isinstance(o, dict):
        if name == "update":
            if e.merge_depth:
                raise NeedFork()
            return lambda *a, **k: _dict_update(o, a, k)
        if name == "get" and not isinstance(o, GDict):
            return lambda key, d=None: getitem(o, key) if _symbolic_truth(in_(key, o)) else d
    m = getattr(o, name)
    if isinstance(o, NP) or isinstance(o, _Linalg):
        return fn(m) if not getattr(m, "__vc_shim__", False) else m
    if type(o).__name__ == "module":
        return fn(m)
    if e.merge_depth:
        ok = False
        for t, names in _PURE_METHODS.items():
            if isinstance(o, t):
                ok = names is None or name in names
                break
        f = getattr(m, "__func__", None)
        if f is not None and is_pure_repo(f):
            ok = True
        if not ok:
            raise NeedFork()
    f = getattr(m, "__func__", None)
    if f is not None and getattr(f, "__module__", "").startswith("toughio_vc"):
        e.called.add((f.__module__, f.__qualname__))
    return m


def _dict_update(o, a, k):
    for x in a:
        if isinstance(x, Union):
            x = x.resolve()
        _update(o, x)
    if k:
        o.update(k)


# ------------------------------------------------------------------ numpy facade

def contains_sym(x, depth=0):
    if isinstance(x, (Sym, P)):
        return True
    if isinstance(x, numpy.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(contains_sym(y, depth + 1) for y in x)
    return False


def _resolve_deep(x):
    if isinstance(x, Union):
        return _resolve_deep(x.resolve())
    if isinstance(x, (list, tuple)):
        return type(x)(_resolve_deep(y) for y in x) if type(x) in (list, tuple) else x
    return x


_FLOATS = (None, float, "float", "float64", numpy.float64, numpy.dtype(float))


def _shim(f):
    f.__vc_shim__ = True
    return f


def _isfloat(dt):
    try:
        return dt is None or numpy.dtype(dt).kind == "f"
    except TypeError:
        return False


def _isint(dt):
    try:
        return dt is not None and numpy.dtype(dt).kind in "iu"
    except TypeError:
        return False


def objarr(x):
    """object array of the nested sequence x (symbolic scalars are leaves)."""
    return numpy.array(x, dtype=object)


@_shim
def np_array(x, dtype=None, copy=True, **k):
    if core.ENG is None or not contains_sym(x):
        a = numpy.array(x, dtype=dtype, **k)
        return a
    x = _resolve_deep(x)
    a = numpy.array(x, dtype=object, **k)
    if dtype is None or _isfloat(dtype) or dtype is object:
        return a
    if _isint(dtype):
        flat = a.reshape(-1)
        out = numpy.empty(flat.size, dtype=object)
        for i, v in enumerate(flat):
            out[i] = _s_int(v)
        return out.reshape(a.shape)
    if dtype is bool or numpy.dtype(dtype).kind == "b":
        return numpy.array([bool(v) for v in a.reshape(-1)]).reshape(a.shape)
    raise Unsupported("array dtype %r" % (dtype,))


@_shim
def np_asarray(x, dtype=None, **k):
    if core.ENG is None or not contains_sym(x):
        return numpy.asarray(x, dtype=dtype, **k)
    if isinstance(x, numpy.ndarray) and (dtype is None or _isfloat(dtype)):
        return x
    return np_array(x, dtype=dtype)


def _alloc(name):
    nat = getattr(numpy, name)

    def f(shape, dtype=None, **k):
        if core.ENG is not None and core.ENG.objarrays and _isfloat(dtype):
            a = numpy.empty(shape, dtype=object)
            a.fill(1.0 if name == "ones" else 0.0)
            return a
        return nat(shape, dtype=dtype, **k) if dtype is not None else nat(shape, **k)
    return _shim(f)


@_shim
def np_full(shape, fill, dtype=None, **k):
    e = core.ENG
    if e is not None and (_sy(fill) or (e.objarrays and isinstance(fill, float) and _isfloat(dtype))):
        a = numpy.empty(shape, dtype=object)
        a.fill(fill)
        return a
    return numpy.full(shape, fill, dtype=dtype, **k)


@_shim
def np_ndim(x):
    if isinstance(x, Union):
        d = {np_ndim(v) for _, v in x.alts}
        return d.pop() if len(d) == 1 else np_ndim(x.resolve())
    if isinstance(x, Sym):
        return 0
    return numpy.ndim(x)


@_shim
def np_shape(x):
    if isinstance(x, Union):
        d = {np_shape(v) for _, v in x.alts}
        return d.pop() if len(d) == 1 else np_shape(x.resolve())
    if isinstance(x, Sym):
        return ()
    return numpy.shape(x)


@_shim
def np_where(c, *ab):
    if not ab:
        return numpy.where(c)
    if isinstance(c, SymBool):
        return ite(c, ab[0], ab[1])
    if contains_sym(c) or contains_sym(ab[0]) or contains_sym(ab[1]):
        cc, aa, bb = numpy.broadcast_arrays(numpy.asarray(c, dtype=object), numpy.asarray(ab[0], dtype=object),
                                            numpy.asarray(ab[1], dtype=object))
        out = numpy.empty(cc.shape, dtype=object)
        for i in numpy.ndindex(*cc.shape):
            t = _symbolic_truth(cc[i])
            out[i] = ite(t, aa[i], bb[i])
        return out
    return numpy.where(c, *ab)


def _logical(name, op):
    nat = getattr(numpy, name)

    @_shim
    def f(a, b, **k):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return op(_symbolic_truth(a), _symbolic_truth(b))
        if contains_sym(a) or contains_sym(b):
            aa, bb = numpy.broadcast_arrays(numpy.asarray(a, dtype=object), numpy.asarray(b, dtype=object))
            out = numpy.empty(aa.shape, dtype=object)
            for i in numpy.ndindex(*aa.shape):
                out[i] = op(_symbolic_truth(aa[i]), _symbolic_truth(bb[i]))
            return out
        return nat(a, b, **k)
    return f


@_shim
def np_abs(x):
    if isinstance(x, Union):
        return lift(abs, x)
    if isinstance(x, Sym):
        return abs(x)
    return numpy.abs(x)


@_shim
def np_norm(x, ord=None, axis=None, keepdims=False):
    if not contains_sym(x):
        return numpy.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    if ord is not None and ord != 2:
        raise Unsupported("norm order")
    a = numpy.asarray(x, dtype=object)
    s = (a * a).sum(axis=axis, keepdims=keepdims) if axis is not None else (a * a).sum()
    from . import reals

    def one(v):
        return reals.sqrt(v) if isinstance(v, SymNum) else v.sqrt() if isinstance(v, P) else float(v) ** 0.5
    if isinstance(s, numpy.ndarray):
        out = numpy.empty(s.shape, dtype=object)
        for i in numpy.ndindex(*s.shape):
            out[i] = one(s[i])
        return out
    return one(s)


@_shim
def np_sqrt(x):
    from . import reals
    if isinstance(x, SymNum):
        return reals.sqrt(x)
    return numpy.sqrt(x)


def _scalar_fun(name):
    nat = getattr(numpy, name)

    @_shim
    def f(x, *a, **k):
        from . import reals
        if isinstance(x, Union):
            return lift(f, x)
        if isinstance(x, SymNum):
            return getattr(reals, name)(x)
        return nat(x, *a, **k)
    return f


@_shim
def np_ceil(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return SymReal(_simp(z3.ToReal(-z3.ToInt(-x.e))))
    return numpy.ceil(x)


@_shim
def np_isnan(x):
    if isinstance(x, SymNum):
        return False
    if contains_sym(x):
        a = numpy.asarray(x, dtype=object)
        return numpy.array([False if isinstance(v, SymNum) else bool(numpy.isnan(v)) for v in a.reshape(-1)]
                           ).reshape(a.shape)
    return numpy.isnan(x)


def _reduce(name):
    nat = getattr(numpy, name)

    @_shim
    def f(x, *a, **k):
        if core.ENG is not None and contains_sym(x):
            x = numpy.array(_resolve_deep(x), dtype=object) if not isinstance(x, numpy.ndarray) else x
            if name in ("max", "min", "amax", "amin") and not a and not k:
                return (_s_max if "max" in name else _s_min)(list(x.reshape(-1)))
            if name == "mean":
                k.pop("dtype", None)
                axis = a[0] if a else k.get("axis")
                n = x.size if axis is None else x.shape[axis]
                return numpy.sum(x, axis=axis) / n
        return nat(x, *a, **k)
    return f


@_shim
def np_divmod(a, b):
    if isinstance(a, GArr):
        return divmod(a, b)
    if _sy(a) or _sy(b):
        return divmod(a, b)
    if contains_sym(a):
        a = numpy.asarray(a, dtype=object)
        q = numpy.empty(a.shape, dtype=object)
        r = numpy.empty(a.shape, dtype=object)
        for i in numpy.ndindex(*a.shape):
            q[i], r[i] = divmod(a[i], b)
        return q, r
    return numpy.divmod(a, b)


@_shim
def np_arange(*a, **k):
    if any(_sy(x) for x in a):
        e = core.ENG
        if len(a) == 2 and type(a[0]) is int and a[0] == 0:
            a = a[1:]
        if len(a) == 1 and isinstance(a[0], SymInt) and e.generic is not None and a[0].e.eq(e.generic[0].e):
            return GArr(e.generic[1])
        raise Unsupported("arange of symbolic size")
    return numpy.arange(*a, **k)


@_shim
def np_digitize(x, bins, right=False):
    if isinstance(x, SymNum) and not right:
        b = numpy.asarray(bins)
        if b.dtype == object or (numpy.diff(b) <= 0).any():
            raise Unsupported("digitize")
        k = 0
        for v in b.tolist():
            if not bool(x >= v):
                break
            k += 1
        return k
    return numpy.digitize(x, bins, right=right)


@_shim
def np_logical_not(x):
    if isinstance(x, SymBool):
        return mk_not(x)
    return numpy.logical_not(x)


@_shim
def np_savetxt(f, x, fmt="%.18e", delimiter=" ", **k):
    """Rows of numbers; only reached with symbolic numbers, in the '%d' and '%.<p>e' formats."""
    if core.ENG is None or not contains_sym(x):
        return numpy.savetxt(f, x, fmt=fmt, delimiter=delimiter, **k)
    if k or not isinstance(fmt, (list, tuple)) or any(not re.match(r"%(d|\.\d+e)$", m) for m in fmt):
        raise Unsupported("savetxt options")
    for row in x:
        if len(row) != len(fmt):
            raise ValueError("fmt has wrong number of % formats")
        f.write(delimiter.join(["%d" % v if m == "%d" else format(v if _sy(v) else float(v), m[1:]) for m, v in zip(fmt, row)]) + "\n")


# ------------------------------------------------------------------ struct facade

import struct as _struct  # noqa: E402

_PACKED = {}
_MARK = 0x7FF8ABCD00000000


def _fields(fmt):
    out = []
    for n, c in re.findall(r"(\d*)([a-zA-Z?])", fmt):
        out += [c] if c == "s" else [c] * int(n or 1)
    return out


@_shim
def st_pack(fmt, *args):
    """A symbolic number packed as a double is a marked pattern of 8 bytes (unpacked as itself)."""
    if core.ENG is None or not any(_sy(x) for x in args):
        return _struct.pack(fmt, *args)
    kinds = _fields(fmt)
    if not fmt.startswith("<") or len(kinds) != len(args):
        raise Unsupported("struct format")
    out = []
    for c, x in zip(kinds, args):
        if c != "d":
            if _sy(x):
                raise Unsupported("symbolic number packed as %s" % c)
            out.append(x)
        elif isinstance(x, SymReal):
            n = len(_PACKED)
            _PACKED[n] = x
            out.append(_MARK | n)
        elif _sy(x):
            raise Unsupported("symbolic integer packed as a double")
        else:
            out.append(_struct.unpack("<Q", _struct.pack("<d", x))[0])
    return _struct.pack(fmt.replace("d", "Q"), *out)


@_shim
def st_unpack(fmt, data):
    v = _struct.unpack(fmt, data)
    if core.ENG is None or "d" not in fmt:
        return v
    raw = _struct.unpack(fmt.replace("d", "Q"), data)
    return tuple([_PACKED[w & 0xFFFFFFFF] if c == "d" and w & ~0xFFFFFFFF == _MARK else x
                  for c, x, w in zip(_fields(fmt), v, raw)])


SHIMS[_struct.pack] = st_pack
SHIMS[_struct.unpack] = st_unpack


class _Linalg:
    norm = staticmethod(np_norm)

    def __getattr__(self, n):
        return getattr(numpy.linalg, n)


class NP:
    array = staticmethod(np_array)
    asarray = staticmethod(np_asarray)
    zeros = staticmethod(_alloc("zeros"))
    ones = staticmethod(_alloc("ones"))
    empty = staticmethod(_alloc("empty"))
    full = staticmethod(np_full)
    ndim = staticmethod(np_ndim)
    shape = staticmethod(np_shape)
    where = staticmethod(np_where)
    logical_and = staticmethod(_logical("logical_and", mk_and))
    logical_or = staticmethod(_logical("logical_or", mk_or))
    logical_not = staticmethod(np_logical_not)
    abs = staticmethod(np_abs)
    absolute = staticmethod(np_abs)
    sqrt = staticmethod(np_sqrt)
    exp = staticmethod(_scalar_fun("exp"))
    log = staticmethod(_scalar_fun("log"))
    ceil = staticmethod(np_ceil)
    isnan = staticmethod(np_isnan)
    max = staticmethod(_reduce("max"))
    min = staticmethod(_reduce("min"))
    amax = staticmethod(_reduce("amax"))
    amin = staticmethod(_reduce("amin"))
    sum = staticmethod(_reduce("sum"))
    mean = staticmethod(_reduce("mean"))
    divmod = staticmethod(np_divmod)
    arange = staticmethod(np_arange)
    digitize = staticmethod(np_digitize)
    savetxt = staticmethod(np_savetxt)
    linalg = _Linalg()

    def __getattr__(self, n):
        return getattr(numpy, n)


np = NP()


# ------------------------------------------------------------------ json facade

import json as _json  # noqa: E402


class JSON:
    """The json module; a symbolic number is written as a placeholder and comes back as itself.

    Trusted: json writes and reads Python integers, floats, booleans and None without loss."""

    def _hide(self, x):
        if isinstance(x, Sym):
            if isinstance(x, Union):
                for _, v in x.alts:
                    if not (v is None or isinstance(v, (bool, int, float, str, SymNum, SymBool))):
                        raise Unsupported("json of %r" % (v,))
            tab = core.ENG.json_tab
            tab.append(x)
            return "\x01SYM%d\x01" % (len(tab) - 1)
        if isinstance(x, dict):
            if isinstance(x, GDict):
                raise Unsupported("json of a guarded dictionary")
            return {k: self._hide(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self._hide(v) for v in x]
        return x

    def _show(self, x):
        if isinstance(x, str) and x.startswith("\x01SYM") and x.endswith("\x01"):
            return core.ENG.json_tab[int(x[4:-1])]
        if isinstance(x, dict):
            return {k: self._show(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self._show(v) for v in x]
        return x

    def dump(self, obj, fp, **k):
        return _json.dump(obj if core.ENG is None else self._hide(obj), fp, **k)

    def dumps(self, obj, **k):
        return _json.dumps(obj if core.ENG is None else self._hide(obj), **k)

    def load(self, fp, **k):
        x = _json.load(fp, **k)
        return x if core.ENG is None else self._show(x)

    def loads(self, s, **k):
        x = _json.loads(s, **k)
        return x if core.ENG is None else self._show(x)

    def __getattr__(self, n):
        return getattr(_json, n)


for _n in ("dump", "dumps", "load", "loads"):
    getattr(JSON, _n).__vc_shim__ = True
json = JSON()
