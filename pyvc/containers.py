"""Containers with conditional entries."""
import z3

from .core import (NeedFork, SymBool, Unsupported, Union, _b, _simp, eng, make_union, mk_and, mk_not, mk_or, mkbool, ite)

PRESENCE = [True]   # presence condition of the entry a comprehension is looking at


class GItems:
    """Items view: iterating decides presence on the path, comprehensions need not."""

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter([(k, dict.__getitem__(self.d, k)) for k in self.d._live()])

    def __len__(self):
        return len(self.d)

    def entries(self):
        return [(k, dict.__getitem__(self.d, k), self.d.present(k)) for k in list(dict.keys(self.d))]


class GDict(dict):
    """dict whose entries may be present only under a condition.

    The native dict stores the value; `conds` maps the key to the presence condition
    (SymBool) for conditional entries only.
    """

    def __init__(self, *a, **k):
        self.conds = {}
        dict.__init__(self, *a, **k)

    # presence
    def present(self, k):
        if not dict.__contains__(self, k):
            return False
        return self.conds.get(k, True)

    def put(self, k, v, cond=True):
        """Assign k: v when cond (otherwise unchanged)."""
        if cond is True:
            dict.__setitem__(self, k, v)
            self.conds.pop(k, None)
            return
        if cond is False:
            return
        if dict.__contains__(self, k):
            old = dict.__getitem__(self, k)
            oc = self.conds.get(k, True)
            dict.__setitem__(self, k, ite(cond, v, old))
            nc = mk_or(cond, oc)
            if nc is True:
                self.conds.pop(k, None)
            else:
                self.conds[k] = nc
        else:
            dict.__setitem__(self, k, v)
            self.conds[k] = cond

    def __setitem__(self, k, v):
        self.put(k, v)

    def __contains__(self, k):
        p = self.present(k)
        return p if isinstance(p, bool) else bool(p)

    def __getitem__(self, k):
        if not self.__contains__(k):
            raise KeyError(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        p = self.present(k)
        if p is True:
            return dict.__getitem__(self, k)
        if p is False:
            return d
        return ite(p, dict.__getitem__(self, k), d)

    def _live(self):
        for k in list(dict.keys(self)):
            p = self.present(k)
            if p is True or (p is not False and bool(p)):
                yield k

    def __iter__(self):
        return self._live()

    def keys(self):
        return list(self._live())

    def values(self):
        return [dict.__getitem__(self, k) for k in self._live()]

    def items(self):
        return GItems(self)

    def __len__(self):
        return sum(1 for _ in self._live())

    def __bool__(self):
        ps = [self.present(k) for k in dict.keys(self)]
        if not ps:
            return False
        r = mk_or(*ps)
        return r if isinstance(r, bool) else bool(r)

    def truth(self):
        ps = [self.present(k) for k in dict.keys(self)]
        return mk_or(*ps) if ps else False

    def update(self, *a, **k):
        for o in a:
            if isinstance(o, GDict):
                for kk in dict.keys(o):
                    self.put(kk, dict.__getitem__(o, kk), o.present(kk))
            elif hasattr(o, "keys"):
                for kk in o.keys():
                    self.put(kk, o[kk])
            else:
                for kk, v in o:
                    self.put(kk, v)
        for kk, v in k.items():
            self.put(kk, v)

    def setdefault(self, k, d=None):
        if k not in self:
            self.put(k, d)
        return dict.__getitem__(self, k)

    def pop(self, k, *d):
        if self.__contains__(k):
            v = dict.__getitem__(self, k)
            dict.__delitem__(self, k)
            self.conds.pop(k, None)
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def __delitem__(self, k):
        self.pop(k)

    def copy(self):
        g = GDict()
        for k in dict.keys(self):
            dict.__setitem__(g, k, dict.__getitem__(self, k))
        g.conds = dict(self.conds)
        return g

    def __deepcopy__(self, memo):
        from copy import deepcopy
        g = GDict()
        for k in dict.keys(self):
            dict.__setitem__(g, k, deepcopy(dict.__getitem__(self, k), memo))
        g.conds = dict(self.conds)
        return g

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        return dict(self.items()) == dict(o.items())

    __hash__ = None

    def __reduce__(self):
        return (dict, (dict(self.items()),))


def update(d, other):
    """d.update(other) where either may carry conditional entries."""
    if isinstance(other, GDict) and other.conds and not isinstance(d, GDict):
        # conditional overwrite of a plain dict: values merge; new keys split the path
        for k in dict.keys(other):
            p = other.present(k)
            if p is True:
                d[k] = dict.__getitem__(other, k)
            elif k in d:
                d[k] = ite(p, dict.__getitem__(other, k), d[k])
            elif bool(p):
                d[k] = dict.__getitem__(other, k)
        return None
    return d.update(other)


def restrict(v, cond):
    """Drop the alternatives of v that are impossible under cond."""
    if isinstance(v, Union):
        e = eng()
        keep = []
        for c, x in v.alts:
            cc = _simp(z3.And(_b(cond), c))
            if z3.is_false(cc) or e.check_sat(cc) == "unsat":
                continue
            keep.append((c, x))
        if keep and len(keep) < len(v.alts):
            return make_union(keep) if len(keep) > 1 else keep[0][1]
    return v


def dictcomp(triples):
    """{k: v for ... if c} with symbolic c: conditional entries."""
    out = GDict()
    from .core import truth_expr
    for c, kf, vf in triples:
        t = truth_expr(c) if not isinstance(c, bool) else c
        t = mk_and(PRESENCE[0], t)
        if t is False:
            continue
        if t is True:
            out.put(kf(), vf())
            continue
        try:
            alts = eng().local(_b(t), lambda: (kf(), vf()))
            if not alts:
                continue
            k = alts[0][1][0]
            if any(a[1][0] is not k and a[1][0] != k for a in alts[1:]):
                raise NeedFork()
            v = alts[0][1][1] if len(alts) == 1 else make_union([(c2, r[1]) for c2, r in alts])
        except (NeedFork, Unsupported):
            if eng().merge_depth:
                raise NeedFork()
            if eng().truth(_b(t)):
                out.put(kf(), vf())
            continue
        out.put(k, restrict(v, t), t)
    if not out.conds:
        return dict(dict.items(out))
    return out
