"""Cells and helpers shared by the checks"""

import datetime

from absint.values import CUR, HostFn, PyExc, Sym, Unsupported, show, sym, term  # noqa: F401

OPS = ['**', '*', '/', '%', '+', '-', '<=', '<', '>=', '>', '==', '!=', '&&', '||']
ARITH = ['**', '*', '/', '%', '+', '-']
COMPARE = ['<=', '<', '>=', '>', '==', '!=']


def var(name):
    return {'variable': name}


def num(x):
    return {'number': float(x)}


def string(s):
    return {'string': s}


def binary(op, a, b):
    return {'binary': {'op': op, 'left': a, 'right': b}}


def unary(op, a):
    return {'unary': {'op': op, 'expr': a}}


def fcall(name, *args):
    return {'function': {'name': name, 'args': list(args)}}


def host(name, result=None):
    """A host function: logs its call and arguments, returns `result` (or a fresh opaque value per call site)"""
    def fn(it, args, kwargs):
        it.effect(name, tuple(args[0]) if args and isinstance(args[0], (list, tuple)) else args[0] if args else None)
        return result(it, args) if callable(result) else result
    return HostFn(name, fn)


def cell_values(name, suffix=''):
    """One representative abstract value per type cell: (cell name, maker)"""
    n = name + suffix
    return [
        ('null', lambda: None),
        ('true', lambda: True),
        ('boolean', lambda: sym(n, 'bool')),
        ('int', lambda: sym(n, 'int')),
        ('float', lambda: sym(n, 'float')),
        ('string', lambda: sym(n, 'str')),
        ('datetime', lambda: sym(n, 'datetime')),
        ('array', lambda: [sym(n + '0', 'float')]),
        ('object', lambda: {'k': sym(n + 'k', 'float')}),
        ('function', lambda: HostFn(n, lambda it, a, k: None)),
        ('regex', lambda: sym(n, 'regex')),
    ]


NUMERIC = ('int', 'float')

# representatives of the truthiness partition: (cell, value maker, truth)
TRUTH = [
    ('null', lambda: None, False),
    ('false', lambda: False, False),
    ('true', lambda: True, True),
    ('0', lambda: 0, False),
    ('0.0', lambda: 0.0, False),
    ('1', lambda: 1, True),
    ('0.5', lambda: 0.5, True),
    ('-1.0', lambda: -1.0, True),
    ("''", lambda: '', False),
    ("'0'", lambda: '0', True),
    ("'false'", lambda: 'false', True),
    ("' '", lambda: ' ', True),
    ('[]', lambda: [], False),
    ('[x]', lambda: [sym('x', 'float')], True),
    ('[null]', lambda: [None], True),
    ('{}', lambda: {}, True),
    ('{k}', lambda: {'k': None}, True),
    ('datetime', lambda: sym('tdt', 'datetime'), True),
    ('date', lambda: sym('tda', 'date'), True),
    ('epoch', lambda: datetime.datetime(1970, 1, 1), True),
    ('function', lambda: HostFn('tfn', lambda it, a, k: None), True),
    ('regex', lambda: sym('tre', 'regex'), True),
]


def exc_is(path, *names):
    """The path raises an instance of one of the named classes (by class name along the MRO)"""
    if path.kind != 'raise':
        return False
    v = path.value
    cls = getattr(v, 'cls', None)
    mro = []
    if cls is not None:
        mro = [getattr(c, 'name', None) or getattr(c, '__name__', '') for c in getattr(cls, 'mro', None) and
               (cls.mro if isinstance(cls.mro, list) else cls.__mro__) or [cls]]
    else:
        mro = [c.__name__ for c in type(v).__mro__]
    return any(n in mro for n in names)


def exc_text(path):
    v = path.value
    a = getattr(v, 'attrs', None)
    if isinstance(a, dict) and a.get('args'):
        return show(a['args'][0])
    return show(v)


def agree(it, got, want):
    """judge helper: three-valued comparison with a detail text"""
    r = it.same(got, want)
    return r, f'got {show(got)[:300]} want {show(want)[:300]}'
