"""Evaluation of terms whose symbols are all known, and the consistency of a path's facts under its substitutions.

A fact about a derived term (`x.startswith('a')`, `len(x) == 2`, `int(x) == 0`) is recorded before the path learns what x is.
Once x is known the term has a value; a path whose facts disagree with these values is no execution of the program.
"""

import json
import math
import operator
import re

from .facts import EQ, const_rel
from .values import Sym


class Open(Exception):
    """The term is not closed, or its operation has no closed evaluation"""


_CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
_ARITH = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod}
_NUMERIC = (int, float)


def _is_text(f):
    def g(v, *base):
        try:
            f(v, *base)
            return True
        except ValueError:
            return False
    return g


def _pow(a, b):
    if abs(b) > 64 or abs(a) > 10**6:
        raise Open
    r = a ** b
    if isinstance(r, complex):
        raise Open
    return r


def _sub(s, a, b):
    return s[a:b]


def _group_none(pattern, s, how, ix):
    m = getattr(re.compile(pattern), how)(s)
    return m is not None and m.group(ix) is None


def _group(pattern, flags, s, how, ix):
    m = getattr(re.compile(pattern, flags), how)(s)
    if m is None or m.group(ix) is None:
        raise Open
    return m.group(ix)


def _regex(how):
    return lambda pattern, flags, s: getattr(re.compile(pattern, flags), how)(s) is not None


_OPS = {
    'len': len, 'int': int, 'flt': float, 'float': float, 'isnan': math.isnan, 'isinf': math.isinf, 'in': lambda a, b: a in b,
    'not': operator.not_, 'neg': operator.neg, 'char': operator.getitem, 'substr': _sub, 'ord': ord, 'chr': chr, 'repeat': operator.mul,
    'is-int-text': _is_text(int), 'is-float-text': _is_text(float), 'fractional': lambda v: v != math.floor(v), 'round': round,
    'bit_length': lambda v: v.bit_length(), 're.escape': re.escape, 're.match': _regex('match'), 're.search': _regex('search'),
    're.fullmatch': _regex('fullmatch'), 're.group-none': _group_none, 'group': _group, 'truth': bool, 'hash': hash,
    '~': operator.invert, '&': operator.and_, '|': operator.or_, '^': operator.xor, '>>': operator.rshift,
    'str': str, 'repr': repr, 'fmt': format, 'json.str': json.dumps, 're.sub': lambda pattern, flags, repl, s: re.sub(pattern, repl, s, flags=flags),
    'slice': lambda o, *a: o[slice(*a)],
}
_BUDGET = 4000


def close(it, v, memo, depth=0):
    """The value of v under the substitutions of the current path; Open if it has none"""
    if not isinstance(v, Sym):
        if isinstance(v, (str, int, float, bool)) or v is None:
            return v
        raise Open
    s = it.facts.subst.get(v, v)
    if not isinstance(s, Sym):
        if isinstance(s, (str, int, float, bool)):
            return s
        raise Open
    if s is not v:
        return close(it, s, memo, depth + 1)
    if not v.args or depth > 25:
        raise Open
    if v in memo:
        r = memo[v]
        if r is Open:
            raise Open
        return r
    memo[v] = Open
    if len(memo) > _BUDGET:
        raise Open
    r = memo[v] = _close(it, v, memo, depth)
    return r


def _close(it, v, memo, depth):
    op = v.op
    if op == 'lin':
        n = v.args[0]
        for a, c in v.args[1]:
            x = close(it, a, memo, depth + 1)
            if not isinstance(x, int):
                raise Open
            n += c * x
        return n
    if op == 'concat':
        return ''.join(close(it, a, memo, depth + 1) for a in v.args)
    f = _OPS.get(op) or _CMP.get(op) or _ARITH.get(op)
    if op == '**':
        f = _pow
    if f is None and op.startswith('str.') and op not in ('str.format', 'str.translate', 'str.encode'):
        name = op[4:]

        def f(s, *a):
            return getattr(s, name)(*a)
    if f is None and op.startswith('math.'):
        f = getattr(math, op[5:], None)
    if f is None:
        raise Open
    args = [close(it, a, memo, depth + 1) for a in v.args]
    if op == 'repeat' and (not isinstance(args[1], int) or abs(args[1]) > 10000):
        raise Open
    if op == '*' and not all(isinstance(a, _NUMERIC) for a in args):
        raise Open
    try:
        r = f(*args)
    except Exception:  # the term stands for a value only where the operation succeeded
        raise Open from None
    if v.ty == 'float' and isinstance(r, int) and not isinstance(r, bool):
        r = float(r)
    if not isinstance(r, (str, int, float, bool)):
        raise Open
    return r


def consistent(it):
    """Whether the facts of the current path can hold together with its substitutions (True when this cannot be told)"""
    facts = it.facts
    if not facts.subst:
        return True
    memo = {}
    for t, v in list(facts.subst.items()):
        if isinstance(t, Sym) and t.args and not isinstance(v, Sym):
            saved = facts.subst.pop(t)
            try:
                x = close(it, t, {})
            except Open:
                continue
            finally:
                facts.subst[t] = saved
            if isinstance(v, (str, int, float, bool)) and x != v:
                return False
    for atom, b in facts.bools.items():
        if isinstance(atom, Sym):
            try:
                if bool(close(it, atom, memo)) != b:
                    return False
            except Open:
                pass
    for t, (lo, hi) in facts.bounds.items():
        try:
            x = close(it, t, memo)
        except Open:
            continue
        if isinstance(x, _NUMERIC) and not lo <= x <= hi:
            return False
    for a, rels in facts.rel.items():
        if not isinstance(a, Sym):
            continue
        try:
            x = close(it, a, memo)
        except Open:
            continue
        for b, allowed in rels.items():
            try:
                y = close(it, b, memo) if isinstance(b, Sym) else b[2]
            except Open:
                continue
            if not isinstance(y, (str, int, float, bool)) or isinstance(x, str) != isinstance(y, str):
                continue
            if x != x or y != y:
                continue
            r = EQ if a is b else const_rel(x, y)
            if not r & allowed:
                return False
    return True
