"""pyvc core: symbolic values, path engine and verification conditions.

The code under verification is /repo's own source, executed by CPython after a
mechanical AST instrumentation (pyvc.loader).  Inputs of a contract are symbolic
proxies; every control-flow decision that the path condition does not settle
splits the path; every `prove` on every path is a verification condition handed
to the solver.  No path, no iteration and no value is sampled here.
"""
import math
import time
from fractions import Fraction

import z3

# --------------------------------------------------------------------------- #
# control exceptions: derive from BaseException so the code under test cannot
# swallow them with `except Exception`/`except ValueError`.


class Control(BaseException):
    pass


class Unsupported(Control):
    """An operation outside the modelled subset: the contract is undischarged."""


class PathCut(Control):
    """The path condition became unsatisfiable (or the harness ended the path)."""


class Budget(Control):
    """Time or path budget exhausted: the contract is undischarged."""


class NeedFork(Control):
    """Raised inside a merge attempt that has to be done by path splitting."""


class StopRun(Control):
    """Enough failures were collected."""


# --------------------------------------------------------------------------- #
# strings: symbolic characters are private-use code points in native str objects

PUA_LO = 0xF0000
PUA_HI = 0x10FFFD


def is_pua(ch):
    return PUA_LO <= ord(ch) <= PUA_HI


def has_pua(s):
    try:
        s.encode("utf-16-le")
    except UnicodeError:
        pass
    for ch in s:
        if ord(ch) >= PUA_LO:
            return True
    return False


class SymChar:
    """A symbolic character: z3 Int code."""
    __slots__ = ("code", "kinds")

    def __init__(self, code, kinds=()):
        self.code = code
        self.kinds = kinds


class Token:
    """Text of a formatted number, occupying `width` columns, right aligned."""
    __slots__ = ("value", "spec", "width", "kind", "chars", "neg", "stripped", "maxlen")

    def __init__(self, value, spec, width, kind):
        self.value = value      # SymReal or SymInt
        self.spec = spec        # ('e', 4) ...
        self.width = width
        self.kind = kind        # 'real' or 'int'
        self.chars = ""
        self.stripped = False


class TokChar:
    __slots__ = ("tok", "idx")

    def __init__(self, tok, idx):
        self.tok = tok
        self.idx = idx


class MergeChar:
    """Character that is `a` when cond holds, else `b`."""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b


# --------------------------------------------------------------------------- #
ENG = None  # the active engine
FORKS = None  # fork counts by site, when tracing


def eng():
    if ENG is None:
        raise RuntimeError("no active engine")
    return ENG


def set_engine(e):
    global ENG
    ENG = e


class Frame:
    __slots__ = ("prefix", "pos", "trace", "pending")

    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []


class Failure:
    def __init__(self, name, kind, model_inputs, detail, exact=True):
        self.name = name
        self.kind = kind
        self.inputs = model_inputs
        self.detail = detail
        self.exact = exact


class Engine:
    def __init__(self, budget_s=60.0, max_paths=4000, seed=1, prove_timeout_ms=8000,
                 stop_after=3):
        self.t0 = time.time()
        self.deadline = self.t0 + budget_s
        self.max_paths = max_paths
        self.prove_timeout = prove_timeout_ms
        self.seed = seed
        self.stop_after = stop_after
        self.keep = []
        self.memo = {}
        self.stats = dict(paths=0, infeasible=0, vcs=0, discharged=0, solver_calls=0,
                          solver_s=0.0, forks=0, merges=0, syntactic=0)
        self.obligations = {}     # name -> [vcs, discharged, failed, unknown]
        self.failures = []
        self.undischarged = []
        self.reach = set()
        self.called = set()
        self.backends = {}
        self.objarrays = False
        self.merge_calls = True
        self.ax_cache = {}
        self.paths_inputs = []
        self.reset_path([])

    # -- path state -------------------------------------------------------- #
    def reset_path(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.solver.set("random_seed", 0)
        self.pc = []
        self.pcset = set()
        self.frames = [Frame(prefix)]
        self.atoms = []
        self.names = {}
        self.inputs = []          # (name, kind, expr/info) in creation order
        self.merge_depth = 0
        self.powtab = []
        self.pow_axioms_upto = 0
        self.counter = 0
        self.exact = True
        self.notes = []
        self.rt_memo = {}
        self.json_tab = []
        self.generic = None       # (size, elements) standing for arange(size)
        self.rt_used = False
        self.axiom_ids = set()

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return "%s!%d" % (base, n)

    def new_atom(self, atom):
        k = PUA_LO + len(self.atoms)
        if k > PUA_HI or (k & 0xFFFE) == 0xFFFE:
            if (k & 0xFFFE) == 0xFFFE and k < PUA_HI - 2:
                self.atoms.append(None)
                return self.new_atom(atom)
            raise Unsupported("symbolic character space exhausted")
        self.atoms.append(atom)
        return chr(k)

    def atom(self, ch):
        return self.atoms[ord(ch) - PUA_LO]

    # -- solver ------------------------------------------------------------ #
    def add(self, cond):
        """Add to the path condition (no feasibility check)."""
        cond = _b(cond)
        if z3.is_true(cond):
            return
        self.keep.append(cond)
        self.pc.append(cond)
        self.pcset.add(cond.get_id())
        self.solver.add(cond)

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def check_sat(self, cond, timeout=None):
        """sat/unsat/unknown of pc and cond, memoised."""
        cid = cond.get_id()
        if cid in self.pcset:
            return "sat"
        self.keep.append(cond)
        key = (tuple(c.get_id() for c in self.pc), cid)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.tick()
        t = time.time()
        s = self.solver
        s.push()
        s.add(cond)
        for ax in self.ground_axioms():
            s.add(ax)
        r = str(s.check())
        s.pop()
        self.stats["solver_calls"] += 1
        self.stats["solver_s"] += time.time() - t
        self.memo[key] = r
        return r

    def implied(self, cond):
        """Does the path condition imply cond (proved, else False)."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if cond.get_id() in self.pcset:
            return True
        n = _neg(cond)
        if n.get_id() in self.pcset:
            return False
        return self.check_sat(n) == "unsat"

    def ground_axioms(self):
        from . import reals
        return reals.axioms(self)

    # -- decisions --------------------------------------------------------- #
    def truth(self, cond):
        """Decide a symbolic condition on this path."""
        cond = _simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if cond.get_id() in self.pcset:
            return True
        neg = _neg(cond)
        if neg.get_id() in self.pcset:
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
            fr.pos += 1
            fr.trace.append(d)
            self.add(cond if d else neg)
            return bool(d)
        st = self.check_sat(cond)
        if st == "unsat":
            # forced: no decision recorded (deterministic on replay thanks to memo/solver)
            fr.trace.append(0)
            fr.pos += 1
            self.add(neg)
            return False
        sf = self.check_sat(neg)
        if st == "unknown" or sf == "unknown":
            if st == "unknown" and sf != "unsat" and self.hard_unsat(cond):
                fr.trace.append(0)
                fr.pos += 1
                self.add(neg)
                return False
            if sf == "unknown" and self.hard_unsat(neg):
                sf = "unsat"
        if sf == "unsat":
            fr.trace.append(1)
            fr.pos += 1
            self.add(cond)
            return True
        self.stats["forks"] += 1
        if FORKS is not None and len(self.frames) == 1:
            import traceback
            k = " < ".join("%s:%d" % (f.name, f.lineno) for f in traceback.extract_stack()[-10:-1][::-1])
            FORKS[k] = FORKS.get(k, 0) + 1
        fr.pending.append(fr.trace + [0])
        fr.trace.append(1)
        fr.pos += 1
        self.add(cond)
        return True

    def hard_unsat(self, cond):
        """A branch the default solver did not decide: try the other back ends."""
        from . import reals
        key = ("H", tuple(c.get_id() for c in self.pc), cond.get_id())
        r = self.memo.get(key)
        if r is None:
            t = time.time()
            r, _ = reals.hard_solve(self, cond, self.ground_axioms())
            self.stats["solver_s"] += time.time() - t
            self.memo[key] = r
        return r == "unsat"

    def choose(self, n):
        """Enumerate n alternatives (no solver involved)."""
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                fr.pending.append(fr.trace + [k])
        fr.pos += 1
        fr.trace.append(d)
        return d

    # -- nested exploration (merging) -------------------------------------- #
    def local(self, cond, fn):
        """Run fn under the local assumption cond; returns list of (cond, result).

        fn must be pure.  Internal decisions are explored exhaustively.
        """
        out = []
        raised = []
        todo = [[]]
        self.merge_depth += 1
        try:
            while todo:
                prefix = todo.pop()
                self.solver.push()
                npc = len(self.pc)
                natoms = None
                saved_set = set(self.pcset)
                fr = Frame(prefix)
                self.frames.append(fr)
                ok = True
                try:
                    if cond is not None:
                        self.add(cond)
                    res = fn()
                except PathCut:
                    ok = False
                except Control:
                    raise
                except Exception as ex:
                    ok = False
                    raised.append(ex)
                    if out:
                        raise NeedFork()
                finally:
                    self.frames.pop()
                    extra = self.pc[npc:]
                    del self.pc[npc:]
                    self.pcset = saved_set
                    self.solver.pop()
                    for x in extra:
                        if x.get_id() in self.axiom_ids:
                            self.add(x)
                    extra = [x for x in extra if x.get_id() not in self.axiom_ids]
                if ok:
                    c = z3.And(*extra) if len(extra) != 1 else extra[0]
                    if not extra:
                        c = z3.BoolVal(True)
                    out.append((c, res))
                    if raised:
                        raise NeedFork()
                todo.extend(reversed(fr.pending))
                if len(out) > 64 or len(raised) > 16:
                    raise NeedFork()
            if raised:
                # every path raises: so does the call
                if len({type(ex) for ex in raised}) > 1:
                    raise NeedFork()
                try:
                    raised[0].on_every_path = True
                except AttributeError:
                    raise NeedFork() from None
                raise raised[0]
        finally:
            self.merge_depth -= 1
        return out

    # -- facts that are assumptions ---------------------------------------- #
    def assume(self, cond):
        cond = _simp(_b(cond))
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathCut()
        if self.check_sat(cond) == "unsat":
            raise PathCut()
        self.add(cond)

    def axiom(self, cond):
        """Definitional fact about a fresh symbol (always satisfiable extension).

        Holds globally: inside a merge it is re-asserted when the local scope closes."""
        cond = _b(cond)
        self.axiom_ids.add(cond.get_id())
        self.add(cond)

    # -- obligations ------------------------------------------------------- #
    def ob(self, name):
        return self.obligations.setdefault(name, [0, 0, 0, 0])

    def prove(self, name, cond, detail=None):
        rec = self.ob(name)
        rec[0] += 1
        self.stats["vcs"] += 1
        if isinstance(cond, bool):
            e = z3.BoolVal(cond)
        else:
            e = _b(cond)
        e = _simp(e)
        if z3.is_true(e) or e.get_id() in self.pcset:
            rec[1] += 1
            self.stats["discharged"] += 1
            self.stats["syntactic"] += 1
            return True
        r, model = self.solve_goal(e)
        if r == "unsat":
            rec[1] += 1
            self.stats["discharged"] += 1
            return True
        if r == "sat":
            rec[2] += 1
            self.failures.append(Failure(name, "post", self.extract(model),
                                         detail or str(e)[:2000], self.exact))
            if len(self.failures) >= self.stop_after:
                raise StopRun()
            return False
        rec[3] += 1
        self.undischarged.append((name, "solver answered unknown"))
        return False

    def solve_goal(self, e):
        from . import reals
        self.tick()
        t = time.time()
        try:
            neg = _neg(e)
            key = ("G", tuple(c.get_id() for c in self.pc), neg.get_id())
            self.keep.append(neg)
            hit = self.memo.get(key)
            if hit == "unsat":
                return "unsat", None
            # conjunction: split
            if z3.is_and(e):
                for ch in e.children():
                    r, m = self.solve_goal(ch)
                    if r != "unsat":
                        return r, m
                self.memo[key] = "unsat"
                return "unsat", None
            if reals.poly_identity(e):
                self.memo[key] = "unsat"
                return "unsat", None
            s = self.solver
            s.push()
            s.set("timeout", int(min(self.prove_timeout, 2500)))
            s.add(neg)
            axs = self.ground_axioms()
            for ax in axs:
                s.add(ax)
            r = str(s.check())
            m = s.model() if r == "sat" else None
            s.pop()
            s.set("timeout", 2000)
            self.stats["solver_calls"] += 1
            if r == "unknown":
                r, m = reals.hard_solve(self, neg, axs)
            if r == "unsat":
                self.memo[key] = "unsat"
            return r, m
        finally:
            self.stats["solver_s"] += time.time() - t

    def model_now(self):
        s = self.solver
        s.push()
        for ax in self.ground_axioms():
            s.add(ax)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        return m

    def extract(self, model):
        """Concrete input assignment of this path from a solver model."""
        out = {}
        for name, kind, e in self.inputs:
            if kind in ("real", "int", "bool", "code"):
                v = model.eval(e, model_completion=True) if model is not None else None
                out[name] = None if v is None else _pyval(v)
            else:
                out[name] = e
        return out


# --------------------------------------------------------------------------- #
# z3 helpers


def _pyval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def _simp(e):
    if isinstance(e, bool):
        return z3.BoolVal(e)
    return z3.simplify(e)


def _neg(e):
    if z3.is_not(e):
        return e.arg(0)
    return z3.simplify(z3.Not(e))


def _b(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    if isinstance(x, Union):
        return _b(truth_expr(x))
    import numpy
    if isinstance(x, numpy.bool_):
        return z3.BoolVal(bool(x))
    raise TypeError("not a condition: %r" % (x,))


def rv(x):
    """Exact z3 real value of a Python number."""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    import numpy
    if isinstance(x, numpy.integer):
        return z3.RealVal(int(x))
    f = float(x)
    if math.isnan(f) or math.isinf(f):
        raise Unsupported("non-finite constant in symbolic arithmetic")
    # decimal meaning of the literal (0.001 means 1/1000): floats are reals here
    return z3.RealVal(repr(f))


# --------------------------------------------------------------------------- #
# symbolic scalars


class Sym:
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().truth(self.e)

    def __and__(self, o):
        return mk_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return mk_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return mk_not(self)

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, _b(o)))

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == _b(o))
        if isinstance(o, (int, float)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return mk_not(self == o)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def _num(self, op, o, r=False):
        a = self.as_int()
        return getattr(a, op)(o)

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __int__(self):
        raise Unsupported("int() of a symbolic boolean in native code")

    __index__ = __int__
    __float__ = __int__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return format(bool(self), spec)

    def __repr__(self):
        return "SymBool(%s)" % _show(self.e)


def _show(e):
    """Short text of a term (printing large terms is slow)."""
    if e.num_args() == 0:
        return e.sexpr()
    if all(a.num_args() == 0 for a in e.children()):
        return e.sexpr()[:80]
    return "#%d" % e.get_id()


def mkbool(e):
    e = _simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mk_and(*xs):
    return mkbool(z3.And(*[_b(x) for x in xs])) if xs else True


def mk_or(*xs):
    return mkbool(z3.Or(*[_b(x) for x in xs])) if xs else False


def mk_not(x):
    if isinstance(x, bool):
        return not x
    return mkbool(z3.Not(_b(x)))


def mk_implies(a, b):
    return mk_or(mk_not(a), b)


_NUM = (int, float, Fraction)


def _isnum(x):
    import numpy
    return isinstance(x, (int, float, Fraction, numpy.integer, numpy.floating, numpy.bool_)) or isinstance(
        x, (SymReal, SymInt, SymBool))


def to_real(x):
    """z3 Real expression of a number."""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.ToReal(x.as_int().e)
    return rv(x)


def is_intlike(x):
    import numpy
    return isinstance(x, (SymInt, SymBool, int, numpy.integer, numpy.bool_))


def to_int(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x.as_int().e
    return z3.IntVal(int(x))


class SymNum(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return 7  # equality decides (forks)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        return eng().truth(self.e != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic number in native code")

    def __int__(self):
        raise Unsupported("int() of a symbolic number in native code")

    def __index__(self):
        raise Unsupported("symbolic index in native code")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic number")

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, _show(self.e))

    def _to_integer(self, f):
        return self if isinstance(self, SymInt) else mkint(f(self.e))

    def __floor__(self):
        return self._to_integer(z3.ToInt)

    def __ceil__(self):
        return self._to_integer(lambda x: -z3.ToInt(-x))

    def __trunc__(self):
        return self._to_integer(lambda x: z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))

    def _nearest(self):
        """The nearest integer, the even one on ties."""
        def near(x):
            f = z3.ToInt(x + z3.RealVal("1/2"))
            return z3.If(z3.And(z3.ToReal(f) == x + z3.RealVal("1/2"), f % 2 == 1), f - 1, f)
        return self._to_integer(near)

    def rint(self):
        i = self._nearest()
        return i if isinstance(self, SymInt) else mkreal(to_real(i))

    def __round__(self, n=None):
        """Decimal rounding of a real (the binary rounding of the scaled value is not modelled)."""
        i = self._nearest() if not n else None
        if n is None or isinstance(self, SymInt) and not n:
            return i
        if isinstance(self, SymInt) and n > 0:
            return self
        if not isinstance(n, int) or abs(n) > 18:
            raise Unsupported("round of symbolic number")
        m = z3.RealVal(10 ** abs(n))
        x = mkreal(to_real(self) * m if n > 0 else to_real(self) / m)
        i = to_real(x._nearest() if isinstance(x, SymNum) else x)
        return mkreal(i / m if n > 0 else i * m)

    # numpy object-array method protocol
    def sqrt(self):
        from . import reals
        return reals.sqrt(self)

    def exp(self):
        from . import reals
        return reals.exp(self)

    def log(self):
        from . import reals
        return reals.log(self)

    def log10(self):
        from . import reals
        return reals.log(self) / reals.log(10)

    def conjugate(self):
        return self

    def _cmp(self, o, f):
        if isinstance(o, Union):
            return NotImplemented
        import numpy
        if isinstance(o, numpy.ndarray):
            return NotImplemented
        if not _isnum(o):
            return NotImplemented
        if isinstance(o, (float, numpy.floating)) and (math.isinf(o) or math.isnan(o)):
            return f(0.0, float(o)) if not math.isnan(o) else f(0.0, float("nan"))
        if isinstance(self, SymInt) and is_intlike(o):
            return mkbool(f(self.e, to_int(o)))
        return mkbool(f(to_real(self), to_real(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not _deferred(o) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not _deferred(o) else r

    # arithmetic
    def _bin(self, o, op, rev=False):
        if isinstance(o, Union):
            return NotImplemented
        import numpy
        if isinstance(o, numpy.ndarray):
            return NotImplemented
        if not _isnum(o):
            return NotImplemented
        if isinstance(o, (float, numpy.floating)) and (math.isinf(o) or math.isnan(o)):
            raise Unsupported("non-finite operand")
        both = is_intlike(self) and is_intlike(o)
        if both:
            a, b = to_int(self), to_int(o)
        else:
            a, b = to_real(self), to_real(o)
        if rev:
            a, b = b, a
        r = op(a, b)
        return mkint(r) if both else mkreal(r)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return (mkint if isinstance(self, SymInt) else mkreal)(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return (mkint if isinstance(self, SymInt) else mkreal)(
            z3.If(self.e >= 0, self.e, -self.e))

    def _div(self, o, rev):
        if isinstance(o, Union):
            return NotImplemented
        import numpy
        if isinstance(o, numpy.ndarray) or not _isnum(o):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if isinstance(b, (float, numpy.floating)) and math.isinf(b):
            return 0.0
        be = to_real(b)
        if eng().truth(be == 0):
            raise ZeroDivisionError("float division by zero")
        return mkreal(to_real(a) / be)

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def __floordiv__(self, o):
        if is_intlike(self) and is_intlike(o):
            b = to_int(o)
            if eng().truth(b == 0):
                raise ZeroDivisionError()
            if eng().implied(_simp(b > 0)):
                return mkint(to_int(self) / b)
            raise Unsupported("floor division by possibly negative")
        raise Unsupported("real floor division")

    def __rfloordiv__(self, o):
        if is_intlike(o):
            return SymInt(to_int(o)) // self
        raise Unsupported("real floor division")

    def __mod__(self, o):
        if is_intlike(self) and is_intlike(o):
            b = to_int(o)
            if eng().implied(_simp(b > 0)):
                return mkint(to_int(self) % b)
        raise Unsupported("modulo")

    def __rmod__(self, o):
        if is_intlike(o):
            return SymInt(to_int(o)) % self
        raise Unsupported("modulo")

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, Union):
            return NotImplemented
        import numpy
        if isinstance(o, numpy.ndarray):
            return NotImplemented
        from . import reals
        return reals.power(self, o)

    def __rpow__(self, o):
        from . import reals
        return reals.power(o, self)

    def __format__(self, spec):
        from . import text
        return text.format_num(self, spec)

    def __str__(self):
        from . import text
        return text.str_num(self)


def _deferred(o):
    import numpy
    return isinstance(o, (Union, numpy.ndarray, numpy.generic))


class SymReal(SymNum):
    __slots__ = ()


class SymInt(SymNum):
    __slots__ = ()


def mkreal(e):
    e = z3.simplify(e)
    return SymReal(e)


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


# --------------------------------------------------------------------------- #
# unions


class Union(Sym):
    """Value chosen among mutually exclusive, exhaustive alternatives."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts          # list of (z3 cond, value)

    def resolve(self):
        e = eng()
        for c, v in self.alts[:-1]:
            if e.truth(c):
                return v
        return self.alts[-1][1]

    def __hash__(self):
        return hash(self.resolve())

    def __deepcopy__(self, memo):
        from copy import deepcopy
        return make_union([(c, deepcopy(v, memo)) for c, v in self.alts])

    def __copy__(self):
        return self

    def __bool__(self):
        return bool(truth_expr(self))

    def __repr__(self):
        return "Union(%r)" % ([v for _, v in self.alts],)

    def __eq__(self, o):
        return lift(lambda a: _eq(a, o), self)

    def __ne__(self, o):
        return mk_not(_eq(self, o))

    def __format__(self, spec):
        r = lift(lambda a: format(a, spec), self)
        if isinstance(r, str):
            return r
        return format(self.resolve(), spec)

    def __str__(self):
        return str(self.resolve())

    def __len__(self):
        return len(self.resolve())

    def __iter__(self):
        return iter(self.resolve())

    def __getitem__(self, i):
        return lift(lambda a: a[i], self)

    def __setitem__(self, i, v):
        self.resolve()[i] = v

    def __contains__(self, x):
        return x in self.resolve()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.resolve(), name)

    def __float__(self):
        raise Unsupported("float() of a union in native code")

    def __int__(self):
        raise Unsupported("int() of a union in native code")

    __index__ = __int__


def _mk_dunder(name, rev=False):
    import operator
    f = getattr(operator, name)

    def m(self, o):
        return lift(lambda a: f(o, a) if rev else f(a, o), self)
    return m


for _n in ("lt", "le", "gt", "ge"):
    setattr(Union, "__%s__" % _n, _mk_dunder(_n))
for _n in ("add", "sub", "mul", "truediv", "pow", "mod", "floordiv"):
    setattr(Union, "__%s__" % _n, _mk_dunder(_n))
    setattr(Union, "__r%s__" % _n, _mk_dunder(_n, True))
Union.__neg__ = lambda self: lift(lambda a: -a, self)
Union.__abs__ = lambda self: lift(abs, self)


def _eq(a, b):
    """a == b as bool/SymBool."""
    if isinstance(a, str) and isinstance(b, str):
        from . import text
        return text.str_eq(a, b)
    r = a == b
    return r


def make_union(alts):
    """Normalise alternatives; drop impossible ones; merge equal values."""
    flat = []
    for c, v in alts:
        c = _simp(c)
        if z3.is_false(c):
            continue
        if isinstance(v, Union):
            for c2, v2 in v.alts:
                cc = _simp(z3.And(c, c2))
                if not z3.is_false(cc):
                    flat.append((cc, v2))
        else:
            flat.append((c, v))
    if not flat:
        raise PathCut()
    if len(flat) == 1:
        return flat[0][1]
    return merge_all(flat)


def merge_all(flat):
    """Merge alternatives pairwise into one value where types allow."""
    groups = []
    for c, v in flat:
        for g in groups:
            m = try_merge(c, v, g[1])
            if m is not None:
                g[0] = _simp(z3.Or(g[0], c))
                g[1] = m[0]
                break
        else:
            groups.append([c, v])
    if len(groups) == 1:
        return groups[0][1]
    return Union([(c, v) for c, v in groups])


def try_merge(c, a, b):
    """(value equal to a when c, else b,) or None if not mergeable."""
    if a is b:
        return (a,)
    ta, tb = type(a), type(b)
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return (a,)
        if len(a) == len(b):
            from . import text
            return (text.merge_str(c, a, b),)
        return None
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return (mkbool(z3.If(c, _b(a), _b(b))),)
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return None
    if isinstance(a, (float, SymReal)) and isinstance(b, (float, SymReal)):
        if isinstance(a, float) and isinstance(b, float) and a == b:
            return (a,)
        if any(isinstance(x, float) and not math.isfinite(x) for x in (a, b)):
            return None
        return (mkreal(z3.If(c, to_real(a), to_real(b))),)
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return (a,)
        return (mkint(z3.If(c, to_int(a), to_int(b))),)
    if ta is tuple and tb is tuple and len(a) == len(b):
        out = []
        for x, y in zip(a, b):
            m = try_merge(c, x, y)
            if m is None:
                m = (make_union([(c, x), (z3.Not(c), y)]),)
            out.append(m[0])
        return (tuple(out),)
    return None


def ite(cond, a, b):
    """a if cond else b, merged."""
    if isinstance(cond, bool):
        return a if cond else b
    c = _b(cond)
    return make_union([(c, a), (z3.Not(c), b)])


def Maybe(cond, v):
    """v when cond, else None."""
    if isinstance(cond, bool):
        return v if cond else None
    return make_union([(_b(cond), v), (z3.Not(_b(cond)), None)])


class _Every(Exception):
    pass


def lift(fn, u):
    """Apply the pure function fn to every alternative of a union (or to a value)."""
    if not isinstance(u, Union):
        return fn(u)
    e = eng()
    alts = []
    raised = []
    try:
        for c, v in u.alts:
            if not e.implied(c) and e.check_sat(c) == "unsat":
                continue
            try:
                for c2, r in e.local(c, lambda v=v: fn(v)):
                    alts.append((c2, r))
            except Control:
                raise
            except Exception as ex:
                if alts or not getattr(ex, "on_every_path", False):
                    raise NeedFork()
                raised.append(ex)
                continue
            if raised:
                raise NeedFork()
        if raised and len({type(ex) for ex in raised}) == 1:
            raise _Every(raised[0])
        if raised:
            raise NeedFork()
        e.stats["merges"] += 1
        return make_union(alts)
    except _Every as ex:
        raise ex.args[0]
    except (Control,) as ex:
        if isinstance(ex, (Budget, StopRun, PathCut)):
            raise
        return fn(u.resolve())
    except Exception:
        # an alternative raises: split so that the exception belongs to its own path
        if e.merge_depth:
            raise NeedFork()
        return fn(u.resolve())


def truth_expr(x):
    """Truth value of x as bool or SymBool, without splitting where possible."""
    if isinstance(x, bool):
        return x
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return mkbool(x.e != 0)
    if isinstance(x, Union):
        parts = []
        for c, v in x.alts:
            t = truth_expr(v)
            parts.append(z3.And(c, _b(t)) if not isinstance(t, bool) else (c if t else z3.BoolVal(False)))
        return mkbool(z3.Or(*parts))
    if isinstance(x, str):
        from . import text
        return text.str_truth(x)
    from .containers import GDict
    from .text import LazySplit
    if isinstance(x, (GDict, LazySplit)):
        return x.truth()
    import numpy
    if isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
        return truth_expr(x.reshape(-1)[0])
    return bool(x)
