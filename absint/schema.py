"""Validation of abstract models against the schema text found in the source (the subset of Schema Markdown it uses)."""

import functools
import re

from .values import Sym

_TYPE = re.compile(r'^(?P<optional>optional\s+)?(?P<nullable>nullable\s+)?(?P<type>[A-Za-z_]\w*)(?P<attr>\([^)]*\))?(?P<array>\[(?P<aattr>[^\]]*)\])?'
                   r'(?P<dict>\s*:\s*.*|\{[^}]*\})?\s+(?P<name>[A-Za-z_]\w*)$')
_ATTR = re.compile(r'(len\s*)?(<=|>=|<|>|==)\s*([\d.]+)')
BUILTIN = {'string': {'str'}, 'bool': {'bool'}, 'float': {'int', 'float'}, 'int': {'int'}}


class Malformed(Exception):
    pass


@functools.lru_cache(maxsize=8)
def parse(text):
    types, cur = {}, None
    for line in text.split('\n'):
        s = line.strip()
        if not s or s.startswith('#'):
            continue
        if line[0] not in ' \t':
            m = re.match(r'^(struct|union|enum|typedef)\s+([A-Za-z_]\w*)\s*(\(.*\))?$', s)
            if not m:
                raise Malformed(s)
            cur = types[m.group(2)] = (m.group(1), [])
            continue
        if cur is None:
            raise Malformed(s)
        if cur[0] == 'enum':
            cur[1].append(s.strip('"'))
            continue
        m = _TYPE.match(s)
        if not m or m.group('dict'):
            raise Malformed(s)
        cur[1].append((m.group('name'), m.group('type'), bool(m.group('optional')), bool(m.group('nullable')), m.group('array') is not None,
                       (m.group('aattr') or '').strip(), (m.group('attr') or '').strip('()')))
    return types


def attr_ok(attr, n):
    if not attr:
        return True
    for a in attr.split(','):
        m = _ATTR.match(a.strip())
        if not m:
            return None
        x = float(m.group(3))
        if not {'<': n < x, '<=': n <= x, '>': n > x, '>=': n >= x, '==': n == x}[m.group(2)]:
            return False
    return True


def problem(text, name, value, it=None):
    """None when valid, a text naming the first invalid part, or Unknown"""
    types = parse(text)
    return _check(types, name, value, name, it)


class Unknown(str):
    pass


def tyname(v, it):
    if isinstance(v, Sym):
        ts = it.types_of(v) if it is not None else frozenset((v.ty,))
        return next(iter(ts)) if len(ts) == 1 else None
    return {bool: 'bool', int: 'int', float: 'float', str: 'str', list: 'list', dict: 'dict', type(None): 'none', tuple: 'list'}.get(type(v), type(v).__name__)


def _check(types, name, v, at, it):
    t = tyname(v, it)
    if name in BUILTIN:
        if t is None:
            return Unknown(f'{at}: {v}')
        return None if t in BUILTIN[name] else f'{at}: {v!r} is not a {name}'
    if name not in types:
        return Unknown(f'{at}: type {name}')
    kind, members = types[name]
    if kind == 'enum':
        if isinstance(v, Sym):
            return Unknown(f'{at}: {v}')
        return None if v in members else f'{at}: {v!r} is not a {name}'
    if t is None or isinstance(v, Sym) and t == 'dict':
        return Unknown(f'{at}: {v}')
    if not isinstance(v, dict):
        return f'{at}: {v!r} is not a {name}'
    if kind == 'union' and len(v) != 1:
        return f'{at}: {len(v)} keys in union {name}: {list(v)}'
    known = {m[0] for m in members}
    for k in v:
        if isinstance(k, Sym):
            return Unknown(f'{at}: key {k}')
        if k not in known:
            return f'{at}: unknown member {k!r} of {name}'
    for mname, mtype, optional, nullable, array, aattr, attr in members:
        if mname not in v:
            if kind == 'struct' and not optional:
                return f'{at}: missing {mname}'
            continue
        x = v[mname]
        if nullable and x is None:
            continue
        if array:
            if isinstance(x, Sym):
                return Unknown(f'{at}.{mname}: {x}') if tyname(x, it) in (None, 'list') else f'{at}.{mname}: not an array'
            if not isinstance(x, (list, tuple)):
                return f'{at}.{mname}: {x!r} is not an array'
            ok = attr_ok(aattr, len(x))
            if ok is not True:
                return f'{at}.{mname}: length {len(x)} violates {aattr}' if ok is False else Unknown(aattr)
            for i, y in enumerate(x):
                r = _check(types, mtype, y, f'{at}.{mname}.{i}', it)
                if r is not None:
                    return r
        else:
            r = _check(types, mtype, x, f'{at}.{mname}', it)
            if r is not None:
                return r
            if attr and not isinstance(x, Sym):
                ok = attr_ok(attr, len(x) if isinstance(x, (str, list)) else x)
                if ok is not True:
                    return f'{at}.{mname}: {x!r} violates {attr}' if ok is False else Unknown(attr)
    return None


def check(text, name, value, it=None):
    try:
        r = problem(text, name, value, it)
    except Malformed:
        return None
    if r is None:
        return True
    return None if isinstance(r, Unknown) else False


def copy_value(value):
    if isinstance(value, dict):
        return {k: copy_value(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [copy_value(v) for v in value]
    return value
