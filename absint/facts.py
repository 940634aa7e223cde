"""Path facts: type facts, order/equality facts (point algebra), integer bounds and substitutions.

A path of the abstract interpretation is identified by the sequence of choices taken at undecidable branches.
Every choice refines the fact store; a later question that the facts already answer does not branch again.
"""

from math import inf, isnan

from .values import ALL_TYPES, NUM, Sym, Unsupported, is_abs

LT, EQ, GT = 1, 2, 4
ANY = 7
_CONV = {0: 0}
for _s in range(8):
    _CONV[_s] = (GT if _s & LT else 0) | (_s & EQ) | (LT if _s & GT else 0)
_BASE = {}
for _a in (LT, EQ, GT):
    for _b in (LT, EQ, GT):
        if _a == EQ:
            _BASE[_a, _b] = _b
        elif _b == EQ:
            _BASE[_a, _b] = _a
        elif _a == _b:
            _BASE[_a, _b] = _a
        else:
            _BASE[_a, _b] = ANY
_COMP = {}
for _x in range(8):
    for _y in range(8):
        _r = 0
        for _a in (LT, EQ, GT):
            if _x & _a:
                for _b in (LT, EQ, GT):
                    if _y & _b:
                        _r |= _BASE[_a, _b]
        _COMP[_x, _y] = _r


class Infeasible(Unsupported):
    """The facts of this path are contradictory"""


def const_rel(a, b):
    try:
        if a == b:
            return EQ
        return LT if a < b else GT
    except TypeError:
        return LT | GT


class Facts:
    def __init__(self):
        self.types = {}      # Sym 'any' -> frozenset of types
        self.rel = {}        # node -> {node: allowed}
        self.bounds = {}     # int term -> [lo, hi]
        self.subst = {}      # Sym -> constant
        self.bools = {}      # atom -> bool

    # -- order -----------------------------------------------------------------------------------------
    @staticmethod
    def _node(v):
        return v if isinstance(v, Sym) else ('c', type(v).__name__, v) if not isinstance(v, (int, float)) else ('c', 'n', v)

    def rel_get(self, a, b):
        na, nb = self._node(a), self._node(b)
        if na == nb:
            return EQ
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return const_rel(a, b)
        r = self.rel.get(na, {}).get(nb)
        if r is None:
            r = ANY
            # through the known relations of a and of b
            for nc, rac in self.rel.get(na, {}).items():
                rcb = self.rel.get(nb, {}).get(nc)
                if rcb is not None:
                    r &= _COMP[rac, _CONV[rcb]]
                elif isinstance(nc, tuple) and isinstance(nb, tuple):
                    r &= _COMP[rac, const_rel(nc[2], nb[2])]
            for nc, rbc in self.rel.get(nb, {}).items():
                if isinstance(nc, tuple) and isinstance(na, tuple):
                    r &= _COMP[const_rel(na[2], nc[2]), _CONV[rbc]]
        return r

    def rel_set(self, a, b, allowed):
        na, nb = self._node(a), self._node(b)
        cur = self.rel_get(a, b)
        new = cur & allowed
        if new == 0:
            raise Infeasible('contradictory order facts')
        self._put(na, nb, new)
        # path consistency
        work = [(na, nb)]
        while work:
            x, y = work.pop()
            rxy = self.rel[x][y]
            for z, ryz in list(self.rel.get(y, {}).items()):
                if z == x:
                    continue
                old = self._pair(x, z)
                nw = old & _COMP[rxy, ryz]
                if nw == 0:
                    raise Infeasible('contradictory order facts')
                if nw != old:
                    self._put(x, z, nw)
                    work.append((x, z))
            for z, rxz in list(self.rel.get(x, {}).items()):
                if z == y:
                    continue
                old = self._pair(z, y)
                nw = old & _COMP[_CONV[rxz], rxy]
                if nw == 0:
                    raise Infeasible('contradictory order facts')
                if nw != old:
                    self._put(z, y, nw)
                    work.append((z, y))

    def _pair(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return const_rel(x[2], y[2])
        return self.rel.get(x, {}).get(y, ANY)

    def _put(self, x, y, r):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return
        self.rel.setdefault(x, {})[y] = r
        self.rel.setdefault(y, {})[x] = _CONV[r]

    # -- integer bounds --------------------------------------------------------------------------------
    def get_bounds(self, t):
        b = self.bounds.get(t)
        lo, hi = (b[0], b[1]) if b else (-inf, inf)
        if isinstance(t, Sym) and t.op in ('len', 'str.len'):
            lo = max(lo, 0)
        return lo, hi

    def set_bounds(self, t, lo, hi):
        clo, chi = self.get_bounds(t)
        lo, hi = max(lo, clo), min(hi, chi)
        if lo > hi:
            raise Infeasible('contradictory bounds')
        self.bounds[t] = (lo, hi)


# -- linear integer normal form ------------------------------------------------------------------------

def lin(v):
    """(const, {atom: coef}) of an integer-typed value, or None"""
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return v, {}
    if isinstance(v, Sym) and v.ty == 'int':
        if v.op == 'lin':
            return v.args[0], dict(v.args[1])
        return 0, {v: 1}
    return None


def mk_lin(const, coefs):
    coefs = {a: c for a, c in coefs.items() if c != 0}
    if not coefs:
        return const
    if const == 0 and len(coefs) == 1:
        (a, c), = coefs.items()
        if c == 1:
            return a
    items = tuple(sorted(coefs.items(), key=lambda ac: (str(ac[0]), hash(ac[0]))))
    return Sym('lin', (const, items), 'int')


def lin_add(a, b, k=1):
    ca, da = a
    cb, db = b
    d = dict(da)
    for x, c in db.items():
        d[x] = d.get(x, 0) + k * c
    return ca + k * cb, d


def lin_scale(a, k):
    return a[0] * k, {x: c * k for x, c in a[1].items()}
