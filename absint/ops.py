"""Truth, comparison, equality and arithmetic on abstract values."""

import collections
import collections.abc
import datetime
import math
import operator
import re
import types as _types
import uuid

from .facts import ANY, EQ, GT, LT, Facts, Infeasible, lin, lin_add, lin_scale, mk_lin
from .values import (ACallable, AClass, AFunc, AInst, AKey, ALL_TYPES, AMatch, AMethod, AModule, APartial, ABound, HostFn,
                     NUM, PyExc, Sym, Unsupported, deep_concrete, show, sym, term)

DTS = ('datetime', 'datetime_aware', 'date')
MASK = {'<': LT, '<=': LT | EQ, '==': EQ, '!=': LT | GT, '>': GT, '>=': GT | EQ}
SETS = (set, frozenset, collections.abc.KeysView, collections.abc.ItemsView)
NEG = {'<': '>=', '<=': '>', '==': '!=', '!=': '==', '>': '<=', '>=': '<'}
BINOPS = {
    '+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
    '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor,
    '<<': operator.lshift, '>>': operator.rshift, '@': operator.matmul
}
CLASS_TYPES = {
    int: ('int', 'bool'), float: ('float',), bool: ('bool',), str: ('str',), bytes: ('bytes',), type(None): ('none',),
    datetime.date: DTS, datetime.datetime: ('datetime', 'datetime_aware'), datetime.timedelta: ('timedelta',),
    list: ('list',), dict: ('dict',), tuple: ('tuple',), re.Pattern: ('regex',), re.Match: ('match',),
    complex: ('complex',), uuid.UUID: (), set: ('set',), frozenset: (), object: None, bytearray: (),
    _types.FunctionType: ('func',), datetime.time: (), datetime.tzinfo: (),
}
# terms that determine their arguments
INJECTIVE = frozenset(['json', 'json.str', 'flt', 'repr'])


def native_ty(v):
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, datetime.datetime):
        return 'datetime_aware' if v.tzinfo is not None else 'datetime'
    if isinstance(v, datetime.date):
        return 'date'
    if isinstance(v, list):
        return 'list'
    if isinstance(v, dict):
        return 'dict'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, datetime.timedelta):
        return 'timedelta'
    if isinstance(v, re.Pattern):
        return 'regex'
    if isinstance(v, (AFunc, APartial, ABound, HostFn, AMethod)) or (not isinstance(v, type) and callable(v) and not isinstance(v, (AInst, AClass))):
        return 'func'
    if isinstance(v, (set, frozenset)):
        return 'set'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, complex):
        return 'complex'
    return 'other'


class Ops:
    # -- choices ---------------------------------------------------------------------------------------
    def choose(self, n, desc):
        """Take one of n branches of the current path"""
        ix = self.choice_ix
        if ix >= self.max_choices:
            raise Unsupported('too many undecided branches')
        if ix < len(self.choices):
            c = self.choices[ix][0]
        else:
            c = 0
            self.choices.append([0, n])
        self.choice_ix += 1
        self.decisions.append((desc, c, self.loc))
        return c

    def nd(self, desc):
        """A nondeterministic boolean"""
        return self.choose(2, desc) == 0

    # -- types -----------------------------------------------------------------------------------------
    def types_of(self, v):
        if isinstance(v, Sym):
            if v.ty == 'any':
                return self.facts.types.get(v, ALL_TYPES)
            return frozenset((v.ty,))
        return frozenset((native_ty(v),))

    def refine_type(self, v, ts):
        ts = self.types_of(v) & ts
        if not ts:
            raise Infeasible('contradictory type facts')
        self.facts.types[v] = frozenset(ts)

    def ty(self, v):
        """The type of v; undecided types branch"""
        ts = self.types_of(v)
        if len(ts) == 1:
            return next(iter(ts))
        opts = sorted(ts)
        t = opts[self.choose(len(opts), f'type({show(v)})')]
        self.refine_type(v, frozenset((t,)))
        return t

    def norm(self, v):
        if isinstance(v, Sym):
            s = self.facts.subst.get(v, v)
            if s is not v:
                return s
            if v.ty == 'any' and self.facts.types.get(v) == {'none'}:
                return None
        return v

    def norm_deep(self, v, depth=0):
        """v with the substitutions of this path applied to its symbols"""
        if not self.facts.subst and not self.facts.types:
            return v
        if isinstance(v, Sym):
            v2 = self.norm(v)
            if v2 is not v:
                return v2
            if v.args and depth < 30:
                args = tuple(self.norm_deep(a, depth + 1) for a in v.args)
                if any(x is not y for x, y in zip(args, v.args)):
                    return self.rebuild(v.op, args, v.ty)
            return v
        if type(v) is list:
            return [self.norm_deep(x, depth + 1) for x in v] if depth < 30 else v
        if type(v) is tuple:
            r = tuple(self.norm_deep(x, depth + 1) for x in v)
            return v if all(x is y for x, y in zip(r, v)) else r
        if type(v) is dict:
            return {k: self.norm_deep(x, depth + 1) for k, x in v.items()} if depth < 30 else v
        return v

    def rebuild(self, op, args, ty):
        if op == 'lin':
            acc = (args[0], {})
            for a, c in args[1]:
                la = lin(a)
                if la is None:
                    return Sym(op, args, ty)
                acc = lin_add(acc, lin_scale(la, c))
            return mk_lin(*acc)
        if op == 'concat':
            return self.concat(*args)
        if op == 'len' and isinstance(args[0], (str, list, dict)):
            return len(args[0])
        if op == 'flt' and isinstance(args[0], int):
            return float(args[0])
        if op in BINOPS and len(args) == 2:
            try:
                return self.binop(op, *args)
            except PyExc:
                pass
        return Sym(op, args, ty)

    def is_instance(self, v, cls):
        v = self.norm(v)
        if isinstance(cls, tuple):
            if isinstance(v, Sym):
                want = set()
                for c in self._flat(cls):
                    w = self.class_types(c)
                    if w is None:
                        return True
                    want |= set(w)
                return self._has_type(v, frozenset(want))
            return any(self.is_instance(v, c) for c in cls)
        if isinstance(cls, _types.UnionType):
            return self.is_instance(v, tuple(cls.__args__))
        if isinstance(v, Sym):
            w = self.class_types(cls)
            if w is None:
                return True
            return self._has_type(v, frozenset(w))
        if isinstance(v, AInst):
            mro = v.cls.mro if isinstance(v.cls, AClass) else v.cls.__mro__
            return cls in mro or cls is object
        if isinstance(cls, AClass):
            return False
        if isinstance(v, ACallable):
            return cls is object or cls is _types.FunctionType and isinstance(v, AFunc) or \
                getattr(cls, '__name__', '') == 'Callable' or (getattr(cls, '__name__', '') == 'partial' and isinstance(v, APartial))
        if isinstance(v, PyExc):
            raise Unsupported('isinstance on raised value')
        try:
            return isinstance(v, cls)
        except TypeError as e:
            raise PyExc(e)

    def _flat(self, cls):
        for c in cls:
            if isinstance(c, tuple):
                yield from self._flat(c)
            else:
                yield c

    def class_types(self, c):
        if isinstance(c, AClass):
            return ()
        if c in CLASS_TYPES:
            return CLASS_TYPES[c]
        n = getattr(c, '__name__', str(c))
        if n in ('Callable',):
            return ('func',)
        if n in ('Mapping', 'MutableMapping'):
            return ('dict',)
        if n in ('Number', 'Real'):
            return NUM
        if n in ('Integral',):
            return ('int', 'bool')
        if n in ('Sequence',):
            return ('list', 'tuple', 'str')
        if n in ('MutableSequence',):
            return ('list',)
        if n in ('partial', 'BaseException', 'Exception', 'Decimal', 'Fraction', 'UUID'):
            return ()
        raise Unsupported(f'isinstance with {n}')

    def _has_type(self, v, want):
        ts = self.types_of(v)
        if ts <= want:
            return True
        if not ts & want:
            return False
        r = self.nd(f'{show(v)} is {"/".join(sorted(want & ALL_TYPES))}')
        self.refine_type(v, want if r else ts - want)
        return r

    # -- truth -----------------------------------------------------------------------------------------
    def truth(self, v):
        if v is True or v is False:
            return v
        v = self.norm(v)
        if isinstance(v, Sym):
            return self._truth_sym(v)
        if isinstance(v, AInst):
            m = self.inst_method(v, '__bool__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            m = self.inst_method(v, '__len__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            return True
        if isinstance(v, (ACallable, AModule, AMatch, AKey)):
            return True
        return bool(v)

    def _truth_sym(self, v):
        op = v.op
        if v.ty == 'bool':
            if op in MASK:
                return self.decide(op, v.args[0], v.args[1])
            if op == 'not':
                return not self.truth(v.args[0])
            return self.decide_bool(v)
        ts = self.types_of(v)
        if ts <= {'int', 'float', 'bool'}:
            return self.decide('!=', v, 0)
        if ts == {'str'}:
            return self.nonempty(v)
        if ts == {'list'} or ts == {'dict'}:
            return self.decide('>', self.length(v), 0)
        if ts <= {'func', 'regex', 'datetime', 'datetime_aware', 'date', 'match'}:
            return True
        if ts == {'none'}:
            return False
        if v.ty != 'any':
            if v.ty in ('timedelta', 'tuple', 'object', 'other'):
                return self.decide_bool(term('truth', v, ty='bool'))
            return True
        t = self.ty(v)
        return self._truth_sym(v) if t != 'none' else False

    def nonempty(self, v):
        if v.op == 'concat':
            for p in v.args:
                if isinstance(p, str) or self.facts.get_bounds(self.length(p))[0] > 0:
                    return True
            return any(self.nonempty(p) for p in v.args)
        if v.op in ('str', 'repr', 'json', 'json.str', 'fmt', 'json.num'):
            return True
        rel = self.facts.rel_get(v, '') & (EQ | GT)
        r = self.known('>', self.length(v), 0)
        if r is None:
            if rel == GT:
                self.assume('>', self.length(v), 0)
                r = True
            elif rel == EQ:
                r = False
        if r is None:
            r = self.decide('>', self.length(v), 0)
        self.facts.rel_set(v, '', GT if r else EQ)
        if not r:
            self.facts.subst.setdefault(v, '')
        return r

    def decide_bool(self, atom):
        b = self.facts.bools.get(atom)
        if b is None:
            if any(self.derived(a) for a in atom.args):
                self.note(f'undetermined predicate of a derived value: {show(atom)[:200]}')
            b = self.nd(show(atom))
            self.facts.bools[atom] = b
        return b

    def derived(self, v):
        """Is v computed from inputs by operations whose range the analysis does not know?"""
        if not isinstance(v, Sym) or not v.args:
            return False
        if v.op in ('lin', 'len', 'flt', 'call', 'value'):
            return any(self.derived(a) if isinstance(a, Sym) else isinstance(a, tuple) and any(self.derived(b[0]) for b in a) for a in v.args)
        return True

    # -- order and equality ----------------------------------------------------------------------------
    def decide(self, op, a, b):
        """Decide `a op b` for two comparable values of an ordered domain, branching if the facts leave it open"""
        r = self.known(op, a, b)
        if r is not None:
            return r
        a, b = self.norm(a), self.norm(b)
        if all(isinstance(x, bool) or isinstance(x, Sym) and x.ty == 'bool' for x in (a, b)):
            return _OPS[op](self.truth(a), self.truth(b))
        if self.derived(a) or self.derived(b):
            la, lb = [], []
            self.leaves(a, la)
            self.leaves(b, lb)
            ls = la + lb
            if len(set(ls)) != len(ls) or any(x.ty not in ('int', 'float') for x in (a, b) if isinstance(x, Sym)):
                self.note(f'undetermined relation of derived values: {show(a)[:100]} {op} {show(b)[:100]}')
        r = self.nd(f'{show(a)} {op} {show(b)}')
        self.assume(op if r else NEG[op], a, b)
        return r

    def leaves(self, v, out):
        if len(out) > 200:
            return
        if isinstance(v, Sym):
            if not v.args:
                out.append(v)
            for a in v.args:
                self.leaves(a, out)
        elif isinstance(v, tuple):
            for a in v:
                self.leaves(a, out)

    @staticmethod
    def _unflt(v):
        if isinstance(v, Sym) and v.op == 'flt':
            return v.args[0]
        if isinstance(v, float) and v.is_integer() and abs(v) < 1e15:
            return int(v)
        if isinstance(v, bool):
            return int(v)
        return v

    def _lin_cmp(self, a, b):
        """(S, k): a ? b  <=>  S ? k for an integer combination S, or (None, c) when a - b is the constant c"""
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return None
        c, d = lin_add(la, lb, -1)
        d = {x: k for x, k in d.items() if k}
        if not d:
            return None, c, 1
        first = sorted(d.items(), key=lambda ac: (str(ac[0]), hash(ac[0])))[0]
        sign = -1 if first[1] < 0 else 1
        g = 0
        for k in d.values():
            g = math.gcd(g, k)
        d = {x: sign * k // g for x, k in d.items()}
        return mk_lin(0, d), (-c * sign) / g if (-c * sign) % g else (-c * sign) // g, sign

    def _interval(self, s):
        lo, hi = self.facts.get_bounds(s)
        l = lin(s)
        if l is not None and isinstance(s, Sym) and s.op == 'lin':
            slo = shi = l[0]
            for x, k in l[1].items():
                xlo, xhi = self.facts.get_bounds(x)
                r1, r2 = (k * xlo, k * xhi) if k > 0 else (k * xhi, k * xlo)
                slo, shi = slo + r1, shi + r2
            lo, hi = max(lo, slo), min(hi, shi)
            # one more bound: for x - y use the order facts
            if len(l[1]) == 2 and l[0] == 0:
                (x, kx), (y, ky) = l[1].items()
                if kx == -ky and abs(kx) == 1:
                    if kx < 0:
                        x, y = y, x
                    r = self.facts.rel_get(x, y)
                    if not r & LT:
                        lo = max(lo, 0 if r & EQ else 1)
                    if not r & GT:
                        hi = min(hi, 0 if r & EQ else -1)
        return lo, hi

    def known(self, op, a, b):
        a, b = self._unflt(self.norm(a)), self._unflt(self.norm(b))
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return _OPS[op](a, b)
        if a is b:
            return bool(MASK[op] & EQ)
        lc = self._lin_cmp(a, b)
        if lc is not None:
            s, k, sign = lc
            if s is None:
                return _OPS[op](k, 0)
            op2 = op if sign > 0 else _FLIP[op]
            lo, hi = self._interval(s)
            allowed = (LT if lo < k else 0) | (EQ if lo <= k <= hi and k == int(k) else 0) | (GT if hi > k else 0)
            allowed &= self.facts.rel_get(s, k)
            if k == 0 and s.op == 'lin' and s.args[0] == 0 and len(s.args[1]) == 2:
                (x, kx), (y, ky) = s.args[1]
                if kx == -ky and abs(kx) == 1:
                    allowed &= self.facts.rel_get(x, y) if kx > 0 else self.facts.rel_get(y, x)
            if allowed == 0:
                raise Infeasible('contradictory integer facts')
            m = MASK[op2]
            if allowed & m == allowed:
                return True
            if allowed & m == 0:
                return False
            return None
        allowed = self.facts.rel_get(a, b)
        m = MASK[op]
        if allowed & m == allowed:
            return True
        if allowed & m == 0:
            return False
        return None

    def assume(self, op, a, b):
        a, b = self._unflt(self.norm(a)), self._unflt(self.norm(b))
        lc = self._lin_cmp(a, b)
        if lc is not None:
            s, k, sign = lc
            if s is None:
                if not _OPS[op](k, 0):
                    raise Infeasible('contradiction')
                return
            op2 = op if sign > 0 else _FLIP[op]
            f = math.floor(k)
            lo, hi = self._interval(s)
            if op2 == '<':
                hi = min(hi, f if f != k else f - 1)
            elif op2 == '<=':
                hi = min(hi, f)
            elif op2 == '>':
                lo = max(lo, f + 1)
            elif op2 == '>=':
                lo = max(lo, f if f == k else f + 1)
            elif op2 == '==':
                lo, hi = max(lo, k), min(hi, k)
            else:
                if lo == k:
                    lo = k + 1
                if hi == k:
                    hi = k - 1
                self.facts.rel_set(s, k, LT | GT)
            while lo <= hi and lo != -math.inf and not self.facts.rel_get(s, lo) & EQ:
                lo += 1
            while lo <= hi and hi != math.inf and not self.facts.rel_get(s, hi) & EQ:
                hi -= 1
            if lo > hi:
                raise Infeasible('contradictory integer facts')
            self.facts.set_bounds(s, lo, hi)
            if lo == hi and isinstance(s, Sym) and s.op != 'lin' and s not in self.facts.subst:
                self.facts.subst[s] = int(lo)
            l = lin(s)
            if s.op != 'lin':
                self.facts.rel_set(s, k, MASK[op2])
            if k == 0 and len(l[1]) == 2 and l[0] == 0:
                (x, kx), (y, ky) = l[1].items()
                if kx == -ky and abs(kx) == 1:
                    if kx < 0:
                        x, y = y, x
                    self.facts.rel_set(x, y, MASK[op2])
            return
        if op == '==':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and isinstance(y, int) and self.types_of(x) == {'float'}:
                    try:
                        exact = float(y) == y
                    except OverflowError:
                        exact = False
                    if not exact:
                        raise Infeasible('no float has this value')
        self.facts.rel_set(a, b, MASK[op])
        if op == '==':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and not isinstance(y, Sym):
                    self.substitute(x, y)
                    for z, r in list(self.facts.rel.get(Facts._node(y), {}).items()):
                        if r == EQ and isinstance(z, Sym) and z is not x:
                            self.substitute(z, y)

    def substitute(self, x, y):
        """x is the constant y on this path"""
        t = self.types_of(x)
        ny = native_ty(y)
        if len(t) == 1 and (ny in t):
            self.facts.subst.setdefault(x, y)
        elif t == {'bool'}:
            self.facts.subst.setdefault(x, bool(y))
        elif t == {'float'} and ny in ('int', 'bool'):
            self.facts.subst.setdefault(x, float(y))

    def cmp_term(self, op, a, b):
        r = self.known(op, a, b)
        if r is not None:
            return r
        return term(op, a, b, ty='bool')

    def _known_same(self, x, y):
        """Whether the facts say that x and y are one value"""
        x, y = self.norm(x), self.norm(y)
        if x is y:
            return True
        if isinstance(x, Sym) and isinstance(y, Sym):
            if x.args and x.op == y.op and len(x.args) == len(y.args):
                return all(self._known_same(p, q) for p, q in zip(x.args, y.args))
            return x.ty == y.ty and x.ty in ('int', 'str', 'float') and self.facts.rel_get(x, y) == EQ
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self._known_same(p, q) for p, q in zip(x, y))
        return type(x) is type(y) and isinstance(x, (str, int, float, bool, type(None))) and x == y

    def eq(self, a, b):
        """a == b: a bool or an abstract bool"""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                    return False
                return self._all_eq(zip(a, b))
            if isinstance(a, collections.deque) and isinstance(b, collections.deque):
                return len(a) == len(b) and self._all_eq(zip(a, b))
            if isinstance(a, dict) and isinstance(b, dict):
                if len(a) != len(b):
                    return False
                if isinstance(a, collections.OrderedDict) and isinstance(b, collections.OrderedDict):
                    return self._all_eq([(list(x), list(y)) for x, y in zip(a.items(), b.items())])
                pairs = []
                for k, v in a.items():
                    k2 = self.dict_find(b, k)
                    if k2 is None:
                        return False
                    pairs.append((v, b[k2[0]]))
                return self._all_eq(pairs)
            if isinstance(a, AInst) or isinstance(b, AInst):
                x, y = (a, b) if isinstance(a, AInst) else (b, a)
                m = self.inst_method(x, '__eq__')
                if m is not None:
                    return self.call(m, [y], {})
                if isinstance(a, AInst) and isinstance(b, AInst) and isinstance(a.cls, AClass) and a.cls is b.cls and a.cls.fields is not None:
                    return self._all_eq([(a.attrs.get(f), b.attrs.get(f)) for f in a.cls.compared])
                return False
            if isinstance(a, (ACallable, AModule)) or isinstance(b, (ACallable, AModule)):
                return False
            if isinstance(a, SETS) and isinstance(b, SETS) and not (deep_concrete(list(a)) and deep_concrete(list(b))):
                return self.set_order('==', a, b)
            if isinstance(a, AMatch) or isinstance(b, AMatch):
                return False
            try:
                return bool(a == b)
            except TypeError as e:
                raise PyExc(e)
        ta, tb = self.types_of(a), self.types_of(b)
        ca, cb = {_eqclass(t) for t in ta}, {_eqclass(t) for t in tb}
        if not ca & cb:
            return False
        if sa and sb and a.op == b.op and a.op in INJECTIVE and len(a.args) == len(b.args):
            if a.op == 'json':
                return self._json_eq(a, b)
            return self._all_eq(zip(a.args, b.args))
        if sa and sb and a.args and a.op == b.op and len(a.args) == len(b.args) and all(self._known_same(x, y) for x, y in zip(a.args, b.args)):
            return True
        if sa and not sb and isinstance(b, (list, tuple, dict)) or sb and not sa and isinstance(a, (list, tuple, dict)):
            return term('==', a, b, ty='bool') if False else self._opaque_eq(a, b)
        if (ta | tb) <= {'str'} and (sa and a.op == 'concat' or sb and b.op == 'concat' or True):
            r = self._str_eq(a, b)
            if r is not None:
                return r
        if len(ca) == 1 and len(cb) == 1:
            if ca == {'none'}:
                return True
            if ca <= {'num', 'str', 'datetime', 'datetime_aware', 'date', 'timedelta'}:
                r = self.known('==', a, b)
                return r if r is not None else term('==', a, b, ty='bool')
            return self._opaque_eq(a, b)
        # undecided types: branch on them
        for v in (a, b):
            if isinstance(v, Sym) and len(self.types_of(v)) > 1:
                both = ca & cb
                keep = frozenset(t for t in self.types_of(v) if _eqclass(t) in both)
                if keep != self.types_of(v):
                    if not self._has_type(v, keep):
                        return False
                else:
                    self.ty(v)
                return self.eq(a, b)
        return self._opaque_eq(a, b)

    def _opaque_eq(self, a, b):
        if not isinstance(a, Sym):
            a, b = b, a
        key = term('obj==', a, b if isinstance(b, Sym) else id(b), ty='bool')
        return self.decide_bool(key)

    def _json_eq(self, a, b):
        if a.args[0] != b.args[0]:
            return self._opaque_eq(a, b)
        return self.json_same(a.args[1], b.args[1])

    def json_same(self, x, y):
        """Do two JSON values have the same text?"""
        if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] in ('list', 'dict') and y[0] in ('list', 'dict'):
            if x[0] != y[0] or len(x[1]) != len(y[1]):
                return False
            return self._all_eq(zip(x[1], y[1]), self.json_same)
        x, y = self.norm(x), self.norm(y)
        tx, ty = self.types_of(x), self.types_of(y)
        if len(tx) == 1 and len(ty) == 1 and tx != ty:
            if not (tx | ty) <= {'int', 'float'}:
                return False
        return self.eq(x, y)

    def _all_eq(self, pairs, eq=None):
        pend = []
        eq = eq or self.eq
        for x, y in pairs:
            r = eq(x, y)
            if r is False:
                return False
            if r is not True:
                pend.append(r)
        for r in pend:
            if not self.truth(r):
                return False
        return True

    def _str_eq(self, a, b):
        """Equality of strings with known pieces, or None"""
        pa, pb = self.pieces(a), self.pieces(b)
        # strip common prefix / suffix
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa, pb = ([x[n:]] if x[n:] else []) + pa[1:], ([y[n:]] if y[n:] else []) + pb[1:]
            elif x is y:
                pa, pb = pa[1:], pb[1:]
            else:
                break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                pa, pb = pa[:-1] + ([x[:-n]] if x[:-n] else []), pb[:-1] + ([y[:-n]] if y[:-n] else [])
            elif x is y:
                pa, pb = pa[:-1], pb[:-1]
            else:
                break
        if not pa and not pb:
            return True
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(p, str) and p for p in rest):
                return False
            return all(self.cmp_or_empty(p) for p in rest)
        if len(pa) == 1 and len(pb) == 1:
            x, y = pa[0], pb[0]
            if (x is not a or y is not b) and not (isinstance(x, str) and isinstance(y, str)):
                return self.eq(x, y)
        for x, y in ((pa, pb), (pb, pa)):
            if len(x) == 1 and isinstance(x[0], Sym) and x[0].op in ('json.str', 'json.num', 'json', 'str', 'repr') and len(y) == 1 and isinstance(y[0], str):
                return None
        return None

    def cmp_or_empty(self, p):
        return not self.nonempty(p) if isinstance(p, Sym) else not p

    def pieces(self, s):
        s = self.norm(s)
        if isinstance(s, str):
            return [s] if s else []
        if isinstance(s, Sym) and s.op == 'concat':
            return [self.norm(p) for p in s.args]
        return [s]

    def compare(self, op, a, b):
        """The Python comparison `a op b`"""
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            r = self.eq(a, b)
            if isinstance(r, Sym):
                return term('!=', *r.args, ty='bool') if r.op == '==' else term('not', r, ty='bool')
            return not r
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, AInst) or isinstance(b, AInst):
            name = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
            if isinstance(a, AInst):
                m = self.inst_method(a, name)
                if m is not None:
                    return self.call(m, [b], {})
            if isinstance(b, AInst):
                m = self.inst_method(b, {'<': '__gt__', '<=': '__ge__', '>': '__lt__', '>=': '__le__'}[op][0:])
                if m is not None:
                    return self.call(m, [a], {})
            if isinstance(a, AInst) and isinstance(b, AInst) and a.cls is b.cls and getattr(a.cls, 'ordered', False):
                return self.compare(op, tuple(a.attrs.get(f) for f in a.cls.compared), tuple(b.attrs.get(f) for f in a.cls.compared))
            raise PyExc(TypeError(f"'{op}' not supported"))
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if isinstance(a, AKey) or isinstance(b, AKey):
                return {'<': a.__lt__, '>': a.__gt__}[op](b) if op in ('<', '>') else self._bad_cmp(op)
            if isinstance(a, (list, tuple)) and type(a) is type(b):
                for x, y in zip(a, b):
                    if not self.truth(self.eq(x, y)):
                        return self.compare(op, x, y)
                return _OPS[op](len(a), len(b))
            if isinstance(a, (ACallable, AModule)) or isinstance(b, (ACallable, AModule)):
                self._bad_cmp(op)
            if isinstance(a, SETS) and isinstance(b, SETS) and not (deep_concrete(list(a)) and deep_concrete(list(b))):
                return self.set_order(op, a, b)
            try:
                return _OPS[op](a, b)
            except TypeError as e:
                raise PyExc(e)
        ta, tb = self.ty(a), self.ty(b)
        a, b = self.norm(a), self.norm(b)
        ca, cb = _eqclass(ta), _eqclass(tb)
        if ca != cb or ca not in ('num', 'str', 'datetime', 'datetime_aware', 'date', 'timedelta', 'list', 'tuple'):
            self._bad_cmp(op, ta, tb)
        if ca in ('list', 'tuple'):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return self.compare(op, a, b)
            raise Unsupported('order of opaque lists')
        if 'bool' in (ta, tb):
            # the order of booleans is that of their truth values
            return self.compare(op, self.truth(a) if ta == 'bool' else a, self.truth(b) if tb == 'bool' else b)
        if ca == 'str' and (isinstance(a, str) and a == '' or isinstance(b, str) and b == ''):
            # the empty string is the least string
            if isinstance(b, str):
                if op in ('<', '>='):
                    return op == '>='
                return (op == '<=') != self.truth(a)
            if op in ('>', '<='):
                return op == '<='
            return (op == '>=') != self.truth(b)
        r = self.known(op, a, b)
        return r if r is not None else term(op, a, b, ty='bool')

    def _bad_cmp(self, op, ta='', tb=''):
        raise PyExc(TypeError(f"'{op}' not supported between instances of '{ta}' and '{tb}'"))

    # -- text ------------------------------------------------------------------------------------------
    def concat(self, *parts):
        out = []
        for p in parts:
            p = self.norm(p)
            ps = p.args if isinstance(p, Sym) and p.op == 'concat' else (p,)
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] = out[-1] + q
                        continue
                out.append(q)
        if not out:
            return ''
        if len(out) == 1:
            return out[0]
        return Sym('concat', tuple(out), 'str')

    def length(self, v):
        v = self.norm(v)
        if isinstance(v, Sym):
            if v.op == 'concat':
                acc = (0, {})
                for p in v.args:
                    acc = lin_add(acc, lin(len(p) if isinstance(p, str) else self.length(p)))
                return mk_lin(*acc)
            if v.op == 'repeat' and isinstance(v.args[0], str):
                l = lin(v.args[1])
                if l is not None and self.known('>=', v.args[1], 0):
                    return mk_lin(*lin_scale(l, len(v.args[0])))
            if v.op == 'substr':
                a, b = lin(v.args[1]), lin(v.args[2])
                return mk_lin(*lin_add(b, a, -1))
            t = self.ty(v)
            if t in ('str', 'list', 'dict', 'tuple', 'set', 'bytes'):
                return term('len', v, ty='int')
            raise PyExc(TypeError(f"object of type '{t}' has no len()"))
        if isinstance(v, AInst):
            m = self.inst_method(v, '__len__')
            if m is not None:
                return self.call(m, [], {})
            raise PyExc(TypeError('object has no len()'))
        if isinstance(v, (ACallable, AModule, AMatch)):
            raise PyExc(TypeError('object has no len()'))
        try:
            return len(v)
        except TypeError as e:
            raise PyExc(e)

    # -- arithmetic ------------------------------------------------------------------------------------
    def set_algebra(self, op, a, b):
        """Union, intersection, difference or symmetric difference of sets whose elements may be opaque"""
        r = set()
        if op in ('|', '^', '-'):
            for x in a:
                if op == '|' or not self.truth(self.contains(b, x)):
                    self.set_add(r, x)
        if op in ('|', '^'):
            for x in b:
                if op == '|' or not self.truth(self.contains(a, x)):
                    self.set_add(r, x)
        if op == '&':
            for x in a:
                if self.truth(self.contains(b, x)):
                    self.set_add(r, x)
        return frozenset(r) if isinstance(a, frozenset) else r

    def set_order(self, op, a, b):
        """Subset relations of sets whose elements may be opaque (the elements of each are pairwise different)"""
        if op in ('>', '>='):
            return self.set_order({'>': '<', '>=': '<='}[op], b, a)
        if len(a) > len(b) or op == '<' and len(a) == len(b) or op == '==' and len(a) != len(b):
            return False
        return all(self.truth(self.contains(b, x)) for x in a)

    def binop(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if isinstance(a, AInst) or isinstance(b, AInst):
            for x, y, names in ((a, b, _DUNDER), (b, a, _RDUNDER)):
                if isinstance(x, AInst):
                    m = self.inst_method(x, names.get(op, '__none__'))
                    if m is not None:
                        r = self.call(m, [y], {})
                        if r is not NotImplemented:
                            return r
            if isinstance(a, (AInst, int, float, str, list, tuple, dict, type(None))) and isinstance(
                    b, (AInst, int, float, str, list, tuple, dict, type(None))) or sa or sb:
                raise PyExc(TypeError(f'unsupported operand type(s) for {op}'))
            raise Unsupported(f'{op} of an instance')
        if not sa and not sb:
            if isinstance(a, (ACallable, AModule)) or isinstance(b, (ACallable, AModule)):
                if op == '|' and (isinstance(a, AClass) or isinstance(b, AClass)):
                    raise Unsupported('union of classes')
                raise PyExc(TypeError(f'unsupported operand type(s) for {op}'))
            if op == '%' and isinstance(a, str) and not deep_concrete(b):
                return self.str_percent(a, b)
            if op in ('|', '&', '-', '^') and isinstance(a, SETS) and isinstance(b, SETS) and not (deep_concrete(list(a)) and deep_concrete(list(b))):
                return self.set_algebra(op, a, b)
            if op == '|' and isinstance(a, dict) and isinstance(b, dict):
                r = dict(a)
                self.dict_update(r, b)
                return r
            if op == '**' and isinstance(a, int) and isinstance(b, int) and abs(b) > 4096 and abs(a) > 1:
                raise Unsupported('huge power')
            if op in ('*', '<<') and isinstance(a, int) and isinstance(b, int) and (a.bit_length() + b.bit_length() > 100000 or op == '<<' and b > 4096):
                raise Unsupported('huge integer')
            if op == '*' and (isinstance(a, (str, list, tuple)) and isinstance(b, int) and len(a) * b > 1000000 or
                              isinstance(b, (str, list, tuple)) and isinstance(a, int) and len(b) * a > 1000000):
                raise Unsupported('huge sequence')
            try:
                return BINOPS[op](a, b)
            except PyExc:
                raise
            except Exception as e:
                raise PyExc(e)
        ta, tb = self.ty(a), self.ty(b)
        a, b = self.norm(a), self.norm(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return self.binop(op, a, b)
        if ta in NUM and tb in NUM:
            return self.num_op(op, a, b, ta, tb)
        if op == '+':
            if ta == tb == 'str':
                return self.concat(a, b)
            if ta in DTS and tb == 'timedelta' or ta == 'timedelta' and tb in DTS:
                return self.dt_add(a, b) if ta in DTS else self.dt_add(b, a)
            if ta == tb == 'timedelta':
                return term('td+', a, b, ty='timedelta')
            if ta == tb == 'list':
                raise Unsupported('concatenation of opaque lists')
        elif op == '-':
            if ta in ('datetime', 'date', 'datetime_aware') and tb in ('datetime', 'date', 'datetime_aware'):
                if ta != tb:
                    raise PyExc(TypeError("can't subtract"))
                return term('dt-', a, b, ty='timedelta')
            if ta in DTS and tb == 'timedelta':
                return term('dt+', a, term('td-neg', b, ty='timedelta'), ty=ta)
            if ta == tb == 'timedelta':
                return term('td-', a, b, ty='timedelta')
        elif op == '*':
            if ta == 'str' and tb in ('int', 'bool') or tb == 'str' and ta in ('int', 'bool'):
                s, n = (a, b) if ta == 'str' else (b, a)
                return self.repeat(s, n)
            if ta == 'list' and tb in ('int', 'bool') and not isinstance(a, Sym):
                return [x for _ in range(self.concretize(b, 0, 4)) for x in a]
            if 'timedelta' in (ta, tb) and ({ta, tb} & set(NUM)):
                return term('td*', a, b, ty='timedelta')
        elif op == '/':
            if ta == tb == 'timedelta':
                return term('td/', a, b, ty='float')
            if ta == 'timedelta' and tb in NUM:
                return term('td/n', a, b, ty='timedelta')
        elif op == '//':
            if ta == tb == 'timedelta':
                return term('td//', a, b, ty='int')
        elif op == '%':
            if ta == 'str':
                return self.str_percent(a, b)
        raise PyExc(TypeError(f"unsupported operand type(s) for {op}: '{ta}' and '{tb}'"))

    def repeat(self, s, n):
        n = self.norm(n)
        if isinstance(s, str) and s == '':
            return ''
        if isinstance(n, bool):
            n = int(n)
        if isinstance(n, int):
            return self.concat(*([s] * max(n, 0))) if n < 64 else term('repeat', s, n, ty='str')
        lo, hi = self._interval(n)
        if hi <= 0:
            return ''
        return term('repeat', s, n, ty='str')

    def dt_add(self, d, td):
        if self.exc_forks and self.nd('datetime out of range'):
            raise PyExc(OverflowError('date value out of range'))
        return term('dt+', d, td, ty='datetime' if self.ty(d) == 'date' and False else self.ty(d))

    def num_op(self, op, a, b, ta, tb):
        flt = 'float' in (ta, tb)
        if self.exc_forks:
            r = self._num_exceptions(op, a, b, ta, tb)
            if r is not None:
                return r
        ua, ub = self._unflt(a), self._unflt(b)
        la, lb = lin(ua), lin(ub)
        if op in ('//', '%', '/'):
            if not self.exc_forks and not isinstance(b, Sym) and b == 0:
                raise PyExc(ZeroDivisionError('division by zero'))
            if isinstance(b, Sym) and not self.exc_forks and self.known('==', b, 0):
                raise PyExc(ZeroDivisionError('division by zero'))
        if la is not None and lb is not None:
            res = None
            if op == '+':
                res = mk_lin(*lin_add(la, lb))
            elif op == '-':
                res = mk_lin(*lin_add(la, lb, -1))
            elif op == '*' and (not la[1] or not lb[1]):
                k, o = (la[0], lb) if not la[1] else (lb[0], la)
                res = mk_lin(*lin_scale(o, k))
            elif op == '*':
                res = self._comm('*', ua, ub, 'int')
            elif op == '//' and not lb[1] and lb[0] > 0:
                res = self._floordiv(la, lb[0])
            elif op == '%' and not lb[1] and lb[0] > 0:
                q = self._floordiv(la, lb[0])
                res = mk_lin(*lin_add(la, lin_scale(lin(q), lb[0]), -1))
                if isinstance(res, Sym):
                    self.facts.set_bounds(res, 0, lb[0] - 1)
            elif op in ('//', '%'):
                res = term(op, ua, ub, ty='int')
            elif op == '/':
                return term('/', ua, ub, ty='float')
            elif op == '**':
                if ub == 0:
                    res = 1
                elif ub == 1:
                    res = ua
                elif flt or self.known('<', ub, 0):
                    return term('**', ua, ub, ty='float')
                else:
                    res = term('**', ua, ub, ty='int')
            if res is not None:
                if flt:
                    return float(res) if isinstance(res, int) else term('flt', res, ty='float')
                return res
        ty = 'float' if flt or op == '/' else 'int'
        if op in ('&', '|', '^', '<<', '>>'):
            if flt:
                raise PyExc(TypeError(f'unsupported operand type(s) for {op}'))
            return term(op, a, b, ty='int')
        if ty == 'float':
            # exact identities
            if op == '*' and (ub == 1 and isinstance(ub, int) or ua == 1 and isinstance(ua, int)):
                x = a if ub == 1 and isinstance(ub, int) else b
                if self.ty(x) == 'float':
                    return x
            if op in ('*', '/') and ub == -1 and isinstance(ub, int):
                return self.unary('-', a if self.ty(a) == 'float' else self.call(float, [a], {}))
            if op == '*' and ua == -1 and isinstance(ua, int):
                return self.unary('-', b if self.ty(b) == 'float' else self.call(float, [b], {}))
            if op == '/' and isinstance(ub, int) and ub == 1 and ta == 'float':
                return a
            if op in ('+', '-') and isinstance(ub, int) and ub == 0 and ta == 'float':
                return a
        if op in ('+', '*'):
            return self._comm(op, ua, ub, ty)
        return term(op, ua, ub, ty=ty)

    def _comm(self, op, a, b, ty):
        if not isinstance(a, Sym) or (isinstance(b, Sym) and (str(b), hash(b)) < (str(a), hash(a))):
            a, b = b, a
        return term(op, a, b, ty=ty)

    def _floordiv(self, l, k):
        """floor((c + sum)/k): whole multiples of k are pulled out"""
        c, d = l
        out, rest = {}, {}
        for x, m in d.items():
            if m % k == 0:
                out[x] = m // k
            else:
                rest[x] = m
        if not rest:
            return mk_lin(c // k, out)
        q = term('//', mk_lin(c % k, rest), k, ty='int')
        lo, hi = self._interval(mk_lin(c % k, rest))
        if lo > -math.inf or hi < math.inf:
            self.facts.set_bounds(q, lo // k if lo > -math.inf else lo, hi // k if hi < math.inf else hi)
        return mk_lin(*lin_add((c // k, out), lin(q)))

    def _num_exceptions(self, op, a, b, ta, tb):
        """Branch on the exceptional outcomes of an arithmetic operation on numbers"""
        if op in ('/', '//', '%'):
            if self.decide('==', b, 0):
                raise PyExc(ZeroDivisionError('division by zero'))
        mixed = ('float' in (ta, tb)) and (ta in ('int',) or tb in ('int',))
        if mixed and op in ('+', '-', '*', '/', '%', '//', '**'):
            for x, t in ((a, ta), (b, tb)):
                if t == 'int' and isinstance(x, Sym) and not isinstance(self._unflt(x), int):
                    if self.known('<', x, 2 ** 53) and self.known('>', x, -2 ** 53):
                        continue
                    if self._known_finite(x):
                        continue
                    if self.nd(f'{show(x)} too large for a float'):
                        raise PyExc(OverflowError('int too large to convert to float'))
        if op == '/' and ta == tb == 'int':
            if self.nd('integer division result too large for a float'):
                raise PyExc(OverflowError('integer division result too large for a float'))
        if op == '**':
            if self.decide('==', a, 0):
                if self.decide('<', b, 0):
                    raise PyExc(ZeroDivisionError('0.0 cannot be raised to a negative power'))
                return None
            if self.decide('<', a, 0) and tb == 'float' and not (isinstance(b, Sym) and b.op == 'flt'):
                if self.decide_bool(term('fractional', b, ty='bool')):
                    return term('**', a, b, ty='complex')
            if ('float' in (ta, tb) or self.known('<', b, 0) is not False) and self.nd('power overflows'):
                raise PyExc(OverflowError('(34, \'Numerical result out of range\')'))
        return None

    def _known_finite(self, x):
        return False

    def unary(self, op, v):
        v = self.norm(v)
        if op == 'not':
            if isinstance(v, Sym) and v.ty == 'bool':
                if v.op in MASK:
                    return self.cmp_term(NEG[v.op], *v.args)
                if v.op == 'not':
                    return v.args[0]
                return term('not', v, ty='bool') if v not in self.facts.bools else not self.facts.bools[v]
            return not self.truth(v)
        if isinstance(v, Sym):
            t = self.ty(v)
            v = self.norm(v)
            if not isinstance(v, Sym):
                return self.unary(op, v)
            if t in NUM:
                if op == '+':
                    return v if t != 'bool' else term('int', v, ty='int')
                if op == '-':
                    if t == 'bool':
                        return term('neg', v, ty='int')
                    u = self._unflt(v)
                    l = lin(u)
                    if l is not None:
                        r = mk_lin(*lin_scale(l, -1))
                        return r if t == 'int' else term('flt', r, ty='float')
                    if v.op == 'neg':
                        return v.args[0]
                    return term('neg', v, ty=t)
                if op == '~' and t != 'float':
                    return term('~', v, ty='int')
            if t == 'timedelta' and op == '-':
                return term('td-neg', v, ty='timedelta')
            raise PyExc(TypeError(f"bad operand type for unary {op}: '{t}'"))
        if isinstance(v, AInst):
            m = self.inst_method(v, {'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op])
            if m is not None:
                return self.call(m, [], {})
        if isinstance(v, (AInst, ACallable)):
            raise PyExc(TypeError(f'bad operand type for unary {op}'))
        try:
            return {'-': operator.neg, '+': operator.pos, '~': operator.invert}[op](v)
        except Exception as e:
            raise PyExc(e)

    def concretize(self, v, lo, hi):
        """A concrete integer for v on this path; values above hi or below lo are not followed"""
        v = self.norm(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            raise PyExc(TypeError("'float' object cannot be interpreted as an integer"))
        if not isinstance(v, Sym):
            raise PyExc(TypeError(f"'{type(v).__name__}' object cannot be interpreted as an integer"))
        t = self.ty(v)
        if t == 'bool':
            return int(self.truth(v))
        if t != 'int':
            raise PyExc(TypeError(f"'{t}' object cannot be interpreted as an integer"))
        blo, bhi = self._interval(v)
        lo, hi = max(lo, blo), min(hi, bhi)
        x = int(lo)
        while x <= hi:
            if self.decide('==', v, x):
                return x
            x += 1
        raise Unsupported(f'unbounded {show(v)}')

    def bool_value(self, v):
        """The value the facts give an abstract bool, or None"""
        v = self.norm(v)
        if not isinstance(v, Sym):
            return bool(v)
        if v.op in MASK:
            return self.known(v.op, *v.args)
        if v.op == 'not':
            r = self.bool_value(v.args[0])
            return None if r is None else not r
        return self.facts.bools.get(v)

    # -- comparison of results -------------------------------------------------------------------------
    def same(self, a, b, depth=0):
        """Three-valued comparison of two abstract values (True / False / None): False only for interpreted
        constructors, distinct opaque symbols of the same cell, or values the facts separate."""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if depth > 40:
            return None
        if isinstance(a, Sym) or isinstance(b, Sym):
            ta, tb = self.types_of(a), self.types_of(b)
            if not ta & tb:
                if not ({_eqclass(t) for t in ta} & {_eqclass(t) for t in tb}):
                    return False
            if ta == tb == {'bool'}:
                fa, fb = self.bool_value(a), self.bool_value(b)
                if fa is not None and fb is not None:
                    return fa == fb
                if isinstance(a, Sym) and isinstance(b, Sym) and a.op == b.op and a.args == b.args:
                    return True
                return None
            ua, ub = self._unflt(a), self._unflt(b)
            if (ta | tb) <= {'int', 'float'}:
                k = self.known('==', ua, ub)
                if k is not None:
                    return k
            if isinstance(a, Sym) and isinstance(b, Sym):
                la, lb = lin(ua), lin(ub)
                if la is not None and lb is not None:
                    c, d = lin_add(la, lb, -1)
                    if not any(d.values()):
                        return c == 0
                    # linear forms over plain symbols that differ: differ somewhere in the cell
                    if all(not x.args or x.op == 'len' for x in d):
                        return False
                    return None
                if not a.args and not b.args:
                    return False    # two distinct opaque inputs
                if a.op == 'concat' or b.op == 'concat':
                    r = self._str_eq(a, b)
                    if r is True:
                        return True
                    if r is False:
                        return False
                    pa, pb = self.pieces(a), self.pieces(b)
                    if len(pa) == len(pb):
                        rs = [self.same(x, y, depth + 1) for x, y in zip(pa, pb)]
                        if all(r is True for r in rs):
                            return True
                        if any(r is False for r in rs) and sum(r is not True for r in rs) == 1:
                            return False
                    if all(isinstance(p, str) or not p.args for p in pa + pb):
                        return False if pa != pb else True
                    return None
                if a.op == b.op and len(a.args) == len(b.args):
                    if a.args == b.args:
                        return True
                    rs = [self.same(x, y, depth + 1) for x, y in zip(a.args, b.args)]
                    if all(r is True for r in rs):
                        return True
                    if a.op in INJECTIVE and any(r is False for r in rs):
                        return False
                    if a.op in SENSITIVE and any(r is False for r in rs):
                        return False
                    return None
                if a.op in SENSITIVE and b.op in SENSITIVE and a.op != b.op:
                    return False
                if (not a.args) != (not b.args):
                    o = b if not a.args else a
                    i = a if not a.args else b
                    # an opaque input against an operation of it
                    if o.op in SENSITIVE and ta == tb:
                        return False
                return None
            # constant against term
            s, c = (a, b) if isinstance(a, Sym) else (b, a)
            k = None
            if (ta | tb) <= set(NUM) or (ta | tb) == {'str'}:
                k = self.known('==', s, c) if (ta | tb) != {'str'} else self._str_eq(s, c)
            if k is True or k is False:
                return k
            if not s.args:
                return False    # an opaque input is not constant on its cell
            if s.op == 'concat' and isinstance(c, str):
                if all(isinstance(p, str) or not p.args for p in s.args):
                    return False
            if s.op in SENSITIVE:
                return False
            return None
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b if isinstance(a, bool) and isinstance(b, bool) else False
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if isinstance(a, float) and math.isnan(a):
                return isinstance(b, float) and math.isnan(b)
            return a == b and (a != 0 or math.copysign(1, a) == math.copysign(1, b) or isinstance(a, int) or isinstance(b, int))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            return _and3(self.same(x, y, depth + 1) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            rs = []
            for k, v in a.items():
                if k in b:
                    rs.append(self.same(v, b[k], depth + 1))
                elif any(isinstance(x, Sym) for x in a) or any(isinstance(x, Sym) for x in b):
                    rs.append(None)
                else:
                    return False
            return _and3(rs)
        if isinstance(a, AInst) and isinstance(b, AInst):
            return None
        if isinstance(a, (ACallable, AInst, AMatch)) or isinstance(b, (ACallable, AInst, AMatch)):
            if native_ty(a) == native_ty(b) == 'func':
                return None
            if isinstance(a, (AInst, AMatch)) or isinstance(b, (AInst, AMatch)):
                return None
            return False
        try:
            return bool(type(a) is type(b) and a == b)
        except TypeError:
            return False


def _and3(rs):
    out = True
    for r in rs:
        if r is False:
            return False
        if r is None:
            out = None
    return out


# Operations that are known to change with their arguments on every cell used (no two of them coincide)
SENSITIVE = frozenset(['str.upper', 'str.lower', 'json.str', 'call', 'obj', 'str', 'repr', 'value'])

_OPS = {'<': operator.lt, '<=': operator.le, '==': operator.eq, '!=': operator.ne, '>': operator.gt, '>=': operator.ge}
_FLIP = {'<': '>', '<=': '>=', '==': '==', '!=': '!=', '>': '<', '>=': '<='}
_DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '//': '__floordiv__', '%': '__mod__', '**': '__pow__',
           '|': '__or__', '&': '__and__', '^': '__xor__', '<<': '__lshift__', '>>': '__rshift__', '@': '__matmul__'}
_RDUNDER = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__', '/': '__rtruediv__', '//': '__rfloordiv__', '%': '__rmod__', '**': '__rpow__',
            '|': '__ror__', '&': '__rand__', '^': '__rxor__', '<<': '__rlshift__', '>>': '__rrshift__', '@': '__rmatmul__'}


def _eqclass(t):
    return 'num' if t in NUM else t
