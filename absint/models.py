"""Models of Python builtins, containers, strings, regular expressions, datetimes and the standard library."""

import abc
import builtins
import calendar
import collections
import contextlib
import copy
import csv
import datetime
import enum
import functools
import io
import itertools
import json
import logging
import math
import operator
import os
import pathlib
import random
import re
import statistics
import time
import types as _types
import typing
import urllib.parse
import uuid

from . import regexlang
from .facts import lin, lin_add, mk_lin
from .values import (ABound, ACallable, AClass, ADispatch, AFunc, AInst, AKey, AKeyMaker, AMatch, AMethod, AModule, APartial, AProp, CUR, Endless,
                     ASchema, AStatic, ASuper, AUnknown, HostFn, HostObj, NUM, PyExc, Sym, Unsupported, deep_concrete, show, sym, term)

NONDET_MODULES = {'time', 'random'}
EFFECT_MODULES = {'shutil', 'tempfile', 'subprocess', 'urllib.request', 'socket', 'threading', 'logging', 'warnings', 'traceback', 'locale'}
NATIVE_OK = (collections.deque, collections.OrderedDict, collections.defaultdict, collections.Counter, collections.ChainMap, io.StringIO,
             pathlib.PurePath, csv.DictReader, itertools.chain, itertools.count, itertools.cycle, itertools.repeat,
             operator.itemgetter, operator.attrgetter, enumerate, zip, map, filter, reversed, range)
# methods that change a container in place
MUTATORS = {
    list: {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', '__setitem__', '__delitem__'},
    dict: {'update', 'pop', 'popitem', 'setdefault', 'clear', '__setitem__', '__delitem__'},
    set: {'add', 'discard', 'remove', 'update', 'pop', 'clear', 'difference_update', 'intersection_update', 'symmetric_difference_update'},
}
STR_RET = {
    'upper': 'str', 'lower': 'str', 'strip': 'str', 'lstrip': 'str', 'rstrip': 'str', 'title': 'str', 'capitalize': 'str', 'casefold': 'str',
    'swapcase': 'str', 'replace': 'str', 'removeprefix': 'str', 'removesuffix': 'str', 'zfill': 'str', 'ljust': 'str', 'rjust': 'str',
    'center': 'str', 'expandtabs': 'str', 'translate': 'str', 'find': 'int', 'rfind': 'int', 'count': 'int', 'index': 'int', 'rindex': 'int',
    'startswith': 'bool', 'endswith': 'bool', 'isdigit': 'bool', 'isalpha': 'bool', 'isalnum': 'bool', 'isspace': 'bool', 'isdecimal': 'bool',
    'isnumeric': 'bool', 'isupper': 'bool', 'islower': 'bool', 'isidentifier': 'bool', 'isascii': 'bool', 'isprintable': 'bool',
    'split': 'list', 'rsplit': 'list', 'splitlines': 'list', 'encode': 'bytes', 'partition': 'tuple', 'rpartition': 'tuple', 'format': 'str',
}
DT_FIELDS = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59),
             'microsecond': (0, 999999)}
DT_ORDER = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


class ACache(ACallable):
    """functools.lru_cache / cache"""

    def __init__(self, fn):
        self.fn = fn
        self.store = {}
        self.attrs = {}

    def __repr__(self):
        return f'<cached {self.fn!r}>'


class ACtx:
    """A contextlib.contextmanager instance"""

    def __init__(self, gen):
        self.gen = gen


class CtxMaker(ACallable):
    def __init__(self, fn):
        self.fn = fn


class ALogger(ACallable):
    """A logging.Logger: what it records is no result of the library"""

    def __repr__(self):
        return '<logger>'


class ASuppress:
    def __init__(self, classes):
        self.classes = classes


class _ModFrame:
    """The frame of a module's top level"""

    def __init__(self, module):
        self.module = module
        self.vars = module.env
        self.parent = None


def FuncInfo_module():
    from .interp import FuncInfo
    return FuncInfo('module', '')


class Models:
    # -- builtins --------------------------------------------------------------------------------------
    def builtin_name(self, name):
        try:
            return getattr(builtins, name)
        except AttributeError:
            raise PyExc(NameError(f"name '{name}' is not defined"), self.loc) from None

    def schema_module(self):
        m = self.modules.get('schema_markdown')
        if m is None:
            from . import schema
            m = AModule('schema_markdown', '<schema_markdown>', {})
            m.is_pkg = False

            def parse(it, args, kw):
                text = args[0] if args else kw.get('text')
                if isinstance(text, str):
                    return ASchema(text)
                if isinstance(text, list) and deep_concrete(text):
                    return ASchema('\n'.join(text))
                return term('schema.parse', _hk(text), ty='dict')

            def validate(it, args, kw):
                types, name, value = (list(args) + [kw.get('value')])[:3]
                if isinstance(types, ASchema) and isinstance(name, str):
                    r = schema.check(types.text, name, value, it)
                    if r is False:
                        raise PyExc(AInst(it.schema_error(), {'args': ('Invalid value',)}), it.loc)
                    if r is None and it.exc_forks and it.nd('schema validation fails'):
                        raise PyExc(AInst(it.schema_error(), {'args': ('Invalid value',)}), it.loc)
                    return schema.copy_value(value)
                if it.exc_forks and it.nd('schema validation fails'):
                    raise PyExc(AInst(it.schema_error(), {'args': ('Invalid value',)}), it.loc)
                return value
            m.env.update(parse_schema_markdown=HostFn('parse_schema_markdown', parse), validate_type=HostFn('validate_type', validate),
                         validate_type_model=HostFn('validate_type_model', lambda it, a, k: a[0]), TYPE_MODEL=ASchema('TYPE_MODEL'),
                         ValidationError=AClass('ValidationError', [Exception], {}, m),
                         SchemaMarkdownParserError=AClass('SchemaMarkdownParserError', [Exception], {}, m))
            self.modules['schema_markdown'] = m
        return m

    def schema_error(self):
        return self.schema_module().env['ValidationError']

    # -- attribute access ------------------------------------------------------------------------------
    def getattr(self, o, name):
        o = self.norm(o)
        if o is time and name in ('timezone', 'altzone', 'daylight', 'tzname'):
            if self.zone is not None:
                return self.zone_const(name)
            return term('time.' + name, ty='int' if name != 'tzname' else 'any')
        if isinstance(o, AModule):
            if name in o.env:
                return o.env[name]
            if getattr(o, 'is_pkg', False):
                try:
                    return self.module(f'{o.name}.{name}')
                except PyExc:
                    pass
            raise PyExc(AttributeError(f'module {o.name!r} has no attribute {name!r}'), self.loc)
        if isinstance(o, AInst):
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            if name in ('__cause__', '__suppress_context__', '__notes__') and name not in o.attrs and self.exc_matches(o, BaseException):
                if name == '__notes__':
                    raise PyExc(AttributeError(name), self.loc)
                return None if name == '__cause__' else '__cause__' in o.attrs
            if name in ('__context__', '__traceback__'):
                raise Unsupported(name)
            if isinstance(o.cls, AClass):
                v, owner = o.cls.lookup(name)
                if isinstance(v, AProp):
                    return self.call(v.fget, [o], {})
                if name in o.attrs:
                    return o.attrs[name]
                if owner is not None:
                    if isinstance(v, AFunc):
                        return ABound(v, o)
                    if isinstance(v, AStatic):
                        return v.fn if v.kind == 'staticmethod' else ABound(v.fn, o.cls)
                    if isinstance(owner, type):
                        return AMethod(o, name)
                    return v
                ga, _ = o.cls.lookup('__getattr__')
                if isinstance(ga, AFunc):
                    return self.call(ga, [o, name], {})
            elif name in o.attrs:
                return o.attrs[name]
            raise PyExc(AttributeError(f'{o.clsname()!r} object has no attribute {name!r}'), self.loc)
        if isinstance(o, AClass):
            if name == '__name__':
                return o.name
            v, owner = o.lookup(name)
            if owner is None:
                raise PyExc(AttributeError(f'type object {o.name!r} has no attribute {name!r}'), self.loc)
            if isinstance(v, AStatic):
                return v.fn if v.kind == 'staticmethod' else ABound(v.fn, o)
            if isinstance(owner, type):
                return AMethod(o, name) if callable(v) or name.startswith('__') else v
            return v
        if isinstance(o, ASuper):
            return AMethod(o, name)
        if isinstance(o, AFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', '__qualname__'):
                return o.name
            if name in ('__doc__', '__module__'):
                return None
            if name == '__wrapped__':
                raise PyExc(AttributeError(name), self.loc)
            raise PyExc(AttributeError(f"'function' object has no attribute {name!r}"), self.loc)
        if isinstance(o, ADispatch):
            if name in ('register', 'dispatch'):
                return AMethod(o, name)
            return self.getattr(o.fn, name)
        if isinstance(o, ALogger):
            return HostFn(name, lambda it, a, k: o if name in ('getChild',) else name == 'isEnabledFor' and False or None)
        if isinstance(o, HostObj):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__enter__', '__exit__'):
                return HostFn(name, (lambda it, a, k: o) if name == '__enter__' else (lambda it, a, k: False))
            raise Unsupported(f'{o.name}.{name}')
        if isinstance(o, APartial):
            if name == 'func':
                return o.func
            if name == 'args':
                return tuple(o.args)
            if name == 'keywords':
                return o.keywords
            raise PyExc(AttributeError(f"'functools.partial' object has no attribute {name!r}"), self.loc)
        if isinstance(o, ACache):
            if name in ('cache_clear', 'cache_info', '__wrapped__'):
                return AMethod(o, name) if name != '__wrapped__' else o.fn
            raise PyExc(AttributeError(name), self.loc)
        if isinstance(o, AMatch):
            if name == 'string':
                return o.string
            if name == 're':
                return o.re
            return AMethod(o, name)
        if isinstance(o, AProp):
            if name == 'setter':
                return HostFn('setter', lambda it, a, k: AProp(o.fget, a[0]))
            raise Unsupported('property object')
        if isinstance(o, Sym):
            return self.sym_attr(o, name)
        if isinstance(o, (ACallable,)):
            if name in ('__name__',):
                return getattr(o, 'name', 'fn')
            raise PyExc(AttributeError(f"'function' object has no attribute {name!r}"), self.loc)
        if isinstance(o, ASchema):
            return AMethod(o, name)
        if isinstance(o, _types.ModuleType):
            try:
                return getattr(o, name)
            except AttributeError as e:
                try:
                    return self.import_module(f'{o.__name__}.{name}', 0, None)
                except (PyExc, Unsupported):
                    raise PyExc(e, self.loc) from None
        if isinstance(o, type) and o in (datetime.datetime, datetime.date, dict, str, list, int, float, object) or isinstance(o, type) and issubclass(o, BaseException):
            if name.startswith('__') and name.endswith('__') and name not in ('__name__', '__doc__'):
                return AMethod(o, name)
            if not hasattr(o, name):
                raise PyExc(AttributeError(name), self.loc)
            return AMethod(o, name) if callable(getattr(o, name)) else getattr(o, name)
        if isinstance(o, BaseException):
            if name == 'args':
                return o.args
            if name == '__cause__':
                return self.causes.get(o)
            if name in ('__context__', '__traceback__', '__suppress_context__'):
                raise Unsupported(name)
        try:
            v = getattr(o, name)
        except AttributeError as e:
            raise PyExc(e, self.loc) from None
        if isinstance(v, (AFunc, AProp, AStatic)):
            return self.bound_native(o, v)
        if callable(v) and not isinstance(v, type):
            return AMethod(o, name)
        return v

    def bound_native(self, o, v):
        """A method or property of the program in a native class (a named tuple or an enumeration)"""
        if isinstance(v, AStatic):
            return v.fn if v.kind == 'staticmethod' else ABound(v.fn, o if isinstance(o, type) else type(o))
        if isinstance(o, type):
            return v
        return self.call(v.fget, [o], {}) if isinstance(v, AProp) else ABound(v, o)

    def sym_attr(self, o, name):
        t = self.ty(o)
        o = self.norm(o)
        if not isinstance(o, Sym):
            return self.getattr(o, name)
        if name == '__class__':
            return self.b_type([o], {})
        if t in ('datetime', 'datetime_aware', 'date'):
            if name in DT_FIELDS and not (t == 'date' and name in DT_ORDER[3:]):
                if o.op == 'datetime':
                    ix = DT_ORDER.index(name)
                    return o.args[ix] if ix < len(o.args) else 0
                r = term('dt.' + name, o, ty='int')
                self.facts.set_bounds(r, *DT_FIELDS[name])
                return r
            if name == 'tzinfo' and t != 'date':
                return None if t == 'datetime' else sym('tzinfo', 'other')
            if not hasattr(datetime.datetime if t != 'date' else datetime.date, name):
                raise PyExc(AttributeError(f'{t} has no attribute {name}'), self.loc)
            return AMethod(o, name)
        if t == 'timedelta':
            if name in ('days', 'seconds', 'microseconds'):
                return term('td.' + name, o, ty='int')
            return AMethod(o, name)
        if t in ('str', 'int', 'float', 'bool', 'list', 'dict', 'tuple', 'regex', 'bytes', 'match'):
            nat = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'dict': dict, 'tuple': tuple, 'regex': re.Pattern,
                   'bytes': bytes, 'match': re.Match}[t]
            if not hasattr(nat, name):
                raise PyExc(AttributeError(f"'{t}' object has no attribute '{name}'"), self.loc)
            if t == 'regex' and name in ('pattern', 'flags', 'groups'):
                return term('regex.' + name, o, ty='str' if name == 'pattern' else 'int')
            return AMethod(o, name)
        if t == 'func':
            raise PyExc(AttributeError(f"'function' object has no attribute '{name}'"), self.loc)
        if t == 'none':
            raise PyExc(AttributeError(f"'NoneType' object has no attribute '{name}'"), self.loc)
        return AMethod(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, AInst):
            if isinstance(o.cls, AClass):
                d, owner = o.cls.lookup(name)
                if isinstance(d, AProp):
                    if d.fset is None:
                        raise PyExc(AttributeError(f'property {name!r} has no setter'), self.loc)
                    self.call(d.fset, [o, v], {})
                    return
            o.attrs[name] = v
            return
        if isinstance(o, AClass):
            o.attrs[name] = v
            return
        if isinstance(o, AFunc):
            o.attrs[name] = v
            return
        if isinstance(o, AModule):
            o.env[name] = v
            return
        raise Unsupported(f'attribute assignment on {type(o).__name__}')

    # -- containers ------------------------------------------------------------------------------------
    def mutating(self, o, how):
        lab = self.frozen.get(id(o))
        if lab is not None:
            self.mutations.append((lab[0], how, self.loc))

    def freeze(self, o, label):
        """Report in-place changes of o (and of the containers in it)"""
        if isinstance(o, (list, dict, set)):
            if id(o) in self.frozen:
                return
            self.frozen[id(o)] = (label, o)
            for k, x in (o.items() if isinstance(o, dict) else enumerate(o)):
                self.freeze(x, f'{label}[{k!r}]')

    def hashable(self, k):
        k = self.norm(k)
        if isinstance(k, (list, dict, set)):
            raise PyExc(TypeError(f"unhashable type: '{type(k).__name__}'"), self.loc)
        if isinstance(k, Sym):
            t = self.types_of(k)
            if t <= {'list', 'dict', 'set'}:
                raise PyExc(TypeError(f"unhashable type: '{next(iter(t))}'"), self.loc)
            if t & {'list', 'dict'}:
                if self._has_type(k, frozenset(('list', 'dict'))):
                    raise PyExc(TypeError('unhashable type'), self.loc)
        if isinstance(k, tuple):
            for x in k:
                self.hashable(x)
        return k

    def dict_find(self, d, k):
        """(existing key,) equal to k, or None"""
        k = self.hashable(k)
        conc = deep_concrete(k)
        if conc:
            try:
                if k in d:
                    for k2 in ([k] if isinstance(k, (str, int)) else d):
                        if k2 == k:
                            return (k2,)
            except TypeError as e:
                raise PyExc(e, self.loc)
            for k2 in d:
                if type(k2) in (Sym, tuple) and not deep_concrete(k2):
                    if self.truth(self.eq(k, k2)):
                        return (k2,)
            return None
        if isinstance(k, (ACallable, AInst, AClass)) and not isinstance(k, Sym):
            if isinstance(k, AInst) and isinstance(k.cls, AClass) and k not in d and (self.inst_method(k, '__eq__') is not None or k.cls.fields):
                for k2 in list(d):
                    if isinstance(k2, AInst) and self.truth(self.eq(k, k2)):
                        return (k2,)
            return (k,) if k in d else None
        if isinstance(k, Sym) and k in d:
            return (k,)
        for k2 in list(d):
            if self.truth(self.eq(k, k2)):
                return (k2,)
        return None

    def dict_set(self, d, k, v):
        k2 = self.dict_find(d, k)
        d[k2[0] if k2 else self.norm(k)] = v

    def dict_update(self, d, src):
        src = self.norm(src)
        if isinstance(src, Sym) or isinstance(src, AInst) and self.inst_method(src, 'keys') is None:
            t = self.ty(src) if isinstance(src, Sym) else 'object'
            if t == 'dict':
                raise Unsupported('update from opaque dict')
            raise PyExc(TypeError(f"'{t}' object is not iterable"), self.loc)
        if isinstance(src, collections.abc.Mapping):
            for k, v in src.items():
                self.dict_set(d, k, v)
        else:
            for kv in self.iterate(src):
                k, v = self.iterate(kv)
                self.dict_set(d, k, v)

    def dict_items(self, d):
        d = self.norm(d)
        if isinstance(d, dict):
            return list(d.items())
        if isinstance(d, Sym):
            raise Unsupported('opaque mapping')
        raise PyExc(TypeError('not a mapping'), self.loc)

    def make_set(self, it):
        s = set()
        for x in self.iterate(it):
            self.set_add(s, x)
        return s

    def set_add(self, s, x):
        x = self.hashable(x)
        if not self.truth(self.contains(s, x)):
            s.add(x)

    def contains(self, c, x):
        c, x = self.norm(c), self.norm(x)
        if isinstance(c, collections.ChainMap):
            return any(self.dict_find(m, x) is not None for m in c.maps)
        if isinstance(c, dict) or isinstance(c, (collections.abc.KeysView,)):
            return self.dict_find(c, x) is not None
        if isinstance(c, (list, tuple, set, frozenset, collections.deque, collections.abc.ValuesView, collections.abc.ItemsView)):
            if isinstance(c, (set, frozenset)):
                self.hashable(x)
            if deep_concrete(x) and isinstance(c, (set, frozenset)):
                if x in c:
                    return True
                rest = [y for y in c if not deep_concrete(y)]
                return any(self.truth(self.eq(x, y)) for y in rest)
            for y in c:
                if x is y:
                    return True
                if self.truth(self.eq(y, x)):
                    return True
            return False
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Sym) or isinstance(c, str):
            t = self.ty(c)
            if t == 'str':
                if self.ty(x) != 'str':
                    raise PyExc(TypeError("'in <string>' requires string as left operand"), self.loc)
                x = self.norm(x)
                if x == '':
                    return True
                if isinstance(x, str) and any(isinstance(p, str) and x in p for p in self.pieces(c)):
                    return True
                if any(p is x for p in self.pieces(c)):
                    return True
                return term('in', x, c, ty='bool')
            if t in ('list', 'tuple', 'dict'):
                return term('in', _hk(x), c, ty='bool')
            raise PyExc(TypeError(f"argument of type '{t}' is not iterable"), self.loc)
        if isinstance(c, range):
            if isinstance(x, Sym):
                return any(self.truth(self.eq(x, y)) for y in c)
            return x in c
        if isinstance(c, AInst):
            m = self.inst_method(c, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [x], {}))
            return any(self.truth(self.eq(y, x)) for y in self.iterate(c))
        if isinstance(c, (ACallable, AModule, int, float, type(None), AMatch)):
            raise PyExc(TypeError('argument is not iterable'), self.loc)
        if isinstance(c, ASchema):
            return term('in', _hk(x), id(c), ty='bool')
        if isinstance(c, type) and issubclass(c, enum.Enum):
            return x in c
        if hasattr(c, '__iter__'):
            return any(self.truth(self.eq(y, x)) for y in c)
        raise Unsupported(f'in {type(c).__name__}')

    def iterate(self, v):
        v = self.norm(v)
        if isinstance(v, (list, tuple, dict, set, frozenset, range, str, bytes)):
            return _live(v)
        if isinstance(v, Sym):
            t = self.ty(v)
            v = self.norm(v)
            if not isinstance(v, Sym):
                return self.iterate(v)
            if t == 'str':
                if v.op == 'concat' and all(isinstance(p, str) for p in v.args):
                    return iter(''.join(v.args))
                raise Unsupported('iterating an opaque string')
            if t in ('list', 'dict', 'tuple', 'set', 'bytes', 'other', 'object'):
                raise Unsupported(f'iterating an opaque {t}')
            raise PyExc(TypeError(f"'{t}' object is not iterable"), self.loc)
        if isinstance(v, AInst):
            m = self.inst_method(v, '__iter__')
            if m is not None:
                r = self.call(m, [], {})
                if isinstance(r, AInst):
                    m = self.inst_method(r, '__next__')
                    if m is None:
                        raise PyExc(TypeError(f'iter() returned non-iterator of type {r.clsname()!r}'), self.loc)
                    return self._iter_next(m)
                return self.iterate(r)
            m = self.inst_method(v, '__next__')
            if m is not None:
                return self._iter_next(m)
            m = self.inst_method(v, '__getitem__')
            if m is not None:
                raise Unsupported('iteration through __getitem__')
            raise PyExc(TypeError(f'{v.clsname()!r} object is not iterable'), self.loc)
        if isinstance(v, (ACallable, AModule, AMatch, ASchema)) or v is None or isinstance(v, (int, float)):
            if isinstance(v, ASchema):
                raise Unsupported('iterating a schema')
            raise PyExc(TypeError(f"'{self._tyname(v)}' object is not iterable"), self.loc)
        try:
            return iter(v)
        except TypeError as e:
            raise PyExc(e, self.loc)

    def _iter_next(self, m):
        while True:
            try:
                v = self.call(m, [], {})
            except PyExc as e:
                if isinstance(e.inst, StopIteration):
                    return
                raise
            yield v

    def _tyname(self, v):
        if isinstance(v, Sym):
            t = self.types_of(v)
            return '/'.join(sorted(t))
        if v is None:
            return 'NoneType'
        if isinstance(v, ACallable):
            return 'function'
        if isinstance(v, AInst):
            return v.clsname()
        return type(v).__name__

    def index_of(self, k, n):
        """A concrete index into a sequence of length n"""
        k = self.norm(k)
        if isinstance(k, Sym):
            t = self.ty(k)
            k = self.norm(k)
            if isinstance(k, Sym):
                if t not in ('int', 'bool'):
                    raise PyExc(TypeError(f'list indices must be integers or slices, not {t}'), self.loc)
                if t == 'bool':
                    return self.index_of(int(self.truth(k)), n)
                if self.decide('>=', k, n) or self.decide('<', k, -n):
                    raise PyExc(IndexError('list index out of range'), self.loc)
                return self.concretize(k, -n, n - 1)
        if isinstance(k, bool):
            return int(k)
        if isinstance(k, AInst) and self.inst_method(k, '__index__') is not None:
            return self.index_of(self.call(self.inst_method(k, '__index__'), [], {}), n)
        if not isinstance(k, int):
            raise PyExc(TypeError(f'list indices must be integers or slices, not {self._tyname(k)}'), self.loc)
        if k >= n or k < -n:
            raise PyExc(IndexError('list index out of range'), self.loc)
        return k

    def slice_of(self, k, n):
        """A concrete slice of a sequence of length n"""
        step = self.norm(k.step)
        if isinstance(step, Sym):
            step = self.concretize(step, -n - 1, n + 1)
        elif step is not None and not isinstance(step, int):
            raise PyExc(TypeError('slice indices must be integers or None or have an __index__ method'), self.loc)
        if step == 0:
            raise PyExc(ValueError('slice step cannot be zero'), self.loc)
        return slice(self.slice_bound(k.start, n), self.slice_bound(k.stop, n), step)

    def slice_bound(self, k, n):
        k = self.norm(k)
        if k is None:
            return None
        if isinstance(k, Sym):
            t = self.ty(k)
            k = self.norm(k)
            if k is None:
                return None
            if isinstance(k, Sym):
                if t not in ('int', 'bool'):
                    raise PyExc(TypeError('slice indices must be integers or None or have an __index__ method'), self.loc)
                if self.decide('>=', k, n):
                    return n
                if self.decide('<', k, -n):
                    return -n - 1
                return self.concretize(k, -n, n - 1)
        if not isinstance(k, int):
            raise PyExc(TypeError('slice indices must be integers or None or have an __index__ method'), self.loc)
        return k

    def getitem(self, o, k):
        o, k = self.norm(o), self.norm(k)
        if isinstance(o, (list, tuple, str, range, bytes)):
            if isinstance(k, slice):
                n = len(o)
                return o[self.slice_of(k, n)]
            if isinstance(o, str) and isinstance(k, Sym) and self.ty(k) == 'int' and len(o) > 12:
                if self.decide('>=', k, len(o)) or self.decide('<', k, -len(o)):
                    raise PyExc(IndexError('string index out of range'), self.loc)
                return term('char', o, k, ty='str')
            return o[self.index_of(k, len(o))]
        if isinstance(o, dict):
            f = self.dict_find(o, k)
            if f is None:
                df = getattr(o, 'default_factory', None)
                if df is not None:
                    v = self.call(df, [], {})
                    o[k] = v
                    return v
                if isinstance(o, collections.Counter):
                    return 0
                raise PyExc(KeyError(k), self.loc)
            return o[f[0]]
        if isinstance(o, Sym):
            t = self.ty(o)
            o = self.norm(o)
            if not isinstance(o, Sym):
                return self.getitem(o, k)
            if t == 'str':
                return self.sym_str_item(o, k)
            if t in ('list', 'tuple', 'dict', 'bytes', 'match', 'other'):
                raise Unsupported(f'item of opaque {t}')
            raise PyExc(TypeError(f"'{t}' object is not subscriptable"), self.loc)
        if isinstance(o, AMatch):
            return self.match_group(o, k)
        if isinstance(o, AInst):
            m = self.inst_method(o, '__getitem__')
            if m is not None:
                return self.call(m, [k], {})
            raise PyExc(TypeError(f'{o.clsname()!r} object is not subscriptable'), self.loc)
        if isinstance(o, type) and issubclass(o, enum.Enum):
            return self.native(operator.getitem, [o, k], {})
        if isinstance(o, (AClass,)) or isinstance(o, type) or getattr(o, '__module__', '') == 'typing':
            return o
        if isinstance(o, ASchema):
            return term('schema.item', id(o), _hk(k), ty='any')
        if isinstance(o, (ACallable, AModule)) or o is None or isinstance(o, (int, float)):
            raise PyExc(TypeError(f"'{self._tyname(o)}' object is not subscriptable"), self.loc)
        if isinstance(o, collections.deque):
            return o[self.index_of(k, len(o))]
        if isinstance(o, collections.ChainMap):
            for m in o.maps:
                f = self.dict_find(m, k)
                if f is not None:
                    return m[f[0]]
            raise PyExc(KeyError(k), self.loc)
        if deep_concrete(k):
            return self.native(operator.getitem, [o, k], {})
        raise Unsupported(f'item of {type(o).__name__}')

    def sym_str_item(self, o, k):
        if isinstance(k, slice):
            if k.step is not None:
                return term('slice', o, _hk(k.start), _hk(k.stop), _hk(k.step), ty='str')
            n = self.length(o)
            a = 0 if k.start is None else self.norm(k.start)
            b = n if k.stop is None else self.norm(k.stop)
            for x in (a, b):
                if not isinstance(x, int) and not (isinstance(x, Sym) and self.ty(x) in ('int', 'bool')):
                    raise PyExc(TypeError('slice indices must be integers or None or have an __index__ method'), self.loc)
            if isinstance(a, int) and a < 0:
                a = self.num_op('+', n, a, 'int', 'int')
                if not self.decide('>=', a, 0):
                    a = 0
            if isinstance(b, int) and b < 0:
                b = self.num_op('+', n, b, 'int', 'int')
                if not self.decide('>=', b, 0):
                    b = 0
            if a == 0 and b is n:
                return o
            for x, nm in ((a, 'a'), (b, 'b')):
                if self.known('<', x, 0) is not False:
                    if self.decide('<', x, 0):
                        return term('slice', o, _hk(a), _hk(b), ty='str')
            if not self.decide('<=', b, n):
                b = n
            if not self.decide('<', a, b):
                return ''
            # known prefix
            ps = self.pieces(o)
            if isinstance(a, int) and ps and isinstance(ps[0], str) and len(ps[0]) >= a and self.known('==', b, n):
                return self.concat(ps[0][a:], *ps[1:])
            if isinstance(a, int) and isinstance(b, int) and ps and isinstance(ps[0], str) and len(ps[0]) >= b:
                return ps[0][a:b]
            if self.known('==', b, n) and isinstance(a, Sym):
                # a is the length of a prefix of pieces (plus a constant inside the next known piece)
                acc = 0
                for i in range(len(ps)):
                    acc = self.num_op('+', acc, len(ps[i]) if isinstance(ps[i], str) else self.length(ps[i]), 'int', 'int')
                    d = self.num_op('-', a, acc, 'int', 'int')
                    if isinstance(d, int):
                        if d == 0:
                            return self.concat(*ps[i + 1:])
                        if d > 0 and i + 1 < len(ps) and isinstance(ps[i + 1], str) and d <= len(ps[i + 1]):
                            return self.concat(ps[i + 1][d:], *ps[i + 2:])
                        if d < 0 and isinstance(ps[i], str) and -d <= len(ps[i]):
                            return self.concat(ps[i][d:], *ps[i + 1:])
            if self.known('==', b, n) is True:
                b = n
            if o.op == 'substr':
                return term('substr', o.args[0], self.num_op('+', o.args[1], a, 'int', 'int'), self.num_op('+', o.args[1], b, 'int', 'int'), ty='str')
            return term('substr', o, a, b, ty='str')
        k = self.norm(k)
        if not isinstance(k, (int, Sym)) or isinstance(k, Sym) and self.ty(k) not in ('int', 'bool'):
            raise PyExc(TypeError('string indices must be integers'), self.loc)
        n = self.length(o)
        if isinstance(k, int) and k < 0:
            if not self.decide('>=', n, -k):
                raise PyExc(IndexError('string index out of range'), self.loc)
            k = self.num_op('+', n, k, 'int', 'int')
        else:
            if not self.decide('<', k, n):
                raise PyExc(IndexError('string index out of range'), self.loc)
        ps = self.pieces(o)
        if isinstance(k, int) and ps and isinstance(ps[0], str) and k < len(ps[0]):
            return ps[0][k]
        r = term('char', o, k, ty='str')
        self.facts.set_bounds(term('len', r, ty='int'), 1, 1)
        return r

    def setitem(self, o, k, v):
        o = self.norm(o)
        if isinstance(o, list):
            self.mutating(o, '[]=')
            if isinstance(k, slice):
                n = len(o)
                o[self.slice_of(k, n)] = list(self.iterate(v))
                return
            o[self.index_of(k, len(o))] = v
            return
        if isinstance(o, dict):
            self.mutating(o, '[]=')
            self.dict_set(o, k, v)
            return
        if isinstance(o, AInst):
            m = self.inst_method(o, '__setitem__')
            if m is not None:
                self.call(m, [k, v], {})
                return
        if isinstance(o, Sym):
            t = self.ty(o)
            if t in ('dict', 'list', 'other'):
                self.effect('setitem', o, k, v)
                raise Unsupported(f'item assignment on opaque {t}')
            raise PyExc(TypeError(f"'{t}' object does not support item assignment"), self.loc)
        if isinstance(o, (str, tuple, int, float, type(None), bytes, ACallable)):
            raise PyExc(TypeError(f"'{self._tyname(o)}' object does not support item assignment"), self.loc)
        if isinstance(o, collections.deque):
            o[self.index_of(k, len(o))] = v
            return
        raise Unsupported(f'item assignment on {type(o).__name__}')

    def delitem(self, o, k):
        o = self.norm(o)
        if isinstance(o, list):
            self.mutating(o, 'del []')
            if isinstance(k, slice):
                n = len(o)
                del o[self.slice_of(k, n)]
                return
            del o[self.index_of(k, len(o))]
            return
        if isinstance(o, dict):
            self.mutating(o, 'del []')
            f = self.dict_find(o, k)
            if f is None:
                raise PyExc(KeyError(k), self.loc)
            del o[f[0]]
            return
        if isinstance(o, AInst):
            m = self.inst_method(o, '__delitem__')
            if m is not None:
                self.call(m, [k], {})
                return
        if isinstance(o, Sym) and self.ty(o) not in ('list', 'dict', 'other'):
            raise PyExc(TypeError("object doesn't support item deletion"), self.loc)
        raise Unsupported(f'item deletion on {type(o).__name__}')

    # -- text ------------------------------------------------------------------------------------------
    def str_of(self, v):
        v = self.norm(v)
        if isinstance(v, str):
            return v
        if isinstance(v, Sym):
            t = self.ty(v)
            v = self.norm(v)
            if not isinstance(v, Sym):
                return self.str_of(v)
            if t == 'str':
                return v
            if t == 'bool':
                return 'True' if self.truth(v) else 'False'
            if t == 'int' and v.op == 'flt':
                pass
            return term('str', v, ty='str')
        if isinstance(v, AInst):
            m = self.inst_method(v, '__str__')
            if m is not None:
                return self.call(m, [], {})
            if 'args' in v.attrs:
                a = v.attrs['args']
                return '' if not a else self.str_of(a[0]) if len(a) == 1 else self.repr_of(tuple(a))
            return self.repr_of(v)
        if isinstance(v, BaseException):
            a = v.args
            if isinstance(v, KeyError) and len(a) == 1:
                return self.repr_of(a[0])
            return '' if not a else self.str_of(a[0]) if len(a) == 1 else self.repr_of(tuple(a))
        if isinstance(v, (ACallable, AModule, AMatch, ASchema)):
            return term('str', _hk(v), ty='str')
        if not deep_concrete(v):
            return self.repr_of(v)
        return self.native(str, [v], {})

    def repr_of(self, v):
        v = self.norm(v)
        if isinstance(v, Sym):
            t = self.ty(v)
            v = self.norm(v)
            if not isinstance(v, Sym):
                return self.repr_of(v)
            if t == 'bool':
                return 'True' if self.truth(v) else 'False'
            if t in ('int', 'float'):
                return term('str', v, ty='str')
            return term('repr', v, ty='str')
        if isinstance(v, (list, tuple)):
            if deep_concrete(v):
                return repr(v)
            parts = []
            for i, x in enumerate(v):
                if i:
                    parts.append(', ')
                parts.append(self.repr_of(x))
            o, c = ('[', ']') if isinstance(v, list) else ('(', ',)' if len(v) == 1 else ')')
            return self.concat(o, *parts, c)
        if isinstance(v, AInst):
            m = self.inst_method(v, '__repr__')
            if m is not None:
                return self.call(m, [], {})
            return term('repr', _hk(v), ty='str')
        if isinstance(v, (ACallable, AModule, AMatch, ASchema)):
            return term('repr', _hk(v), ty='str')
        if not deep_concrete(v):
            return term('repr', _hk(v), ty='str')
        return self.native(repr, [v], {})

    def format_of(self, v, spec):
        v, spec = self.norm(v), self.norm(spec)
        if spec == '' and not (isinstance(v, AInst) and self.inst_method(v, '__format__') is not None):
            return self.str_of(v)
        if isinstance(v, Sym) or isinstance(spec, Sym):
            if isinstance(spec, str) and isinstance(v, Sym):
                t = self.ty(v)
                v = self.norm(v)
                if not isinstance(v, Sym):
                    return self.format_of(v, spec)
                code = spec[-1]
                if t == 'str' and code in 'dfeg%':
                    raise PyExc(ValueError(f"Unknown format code '{code}'"), self.loc)
                if t == 'float' and code in 'dxob':
                    raise PyExc(ValueError(f"Unknown format code '{code}' for object of type 'float'"), self.loc)
                if t in ('none', 'list', 'dict'):
                    raise PyExc(TypeError('unsupported format string'), self.loc)
            return term('fmt', _hk(v), spec, ty='str')
        if isinstance(v, AInst):
            m = self.inst_method(v, '__format__')
            if m is not None:
                return self.call(m, [spec], {})
        if isinstance(v, (ACallable, AInst)):
            raise PyExc(TypeError('unsupported format string'), self.loc)
        if isinstance(spec, str) and any(int(d) > 5000 for d in re.findall(r'\d+', spec)):
            raise Unsupported('huge format')
        return self.native(format, [v, spec], {})

    def str_percent(self, a, b):
        if isinstance(a, str) and re.fullmatch(r'(?:[^%]|%s|%%|%d)*', a):
            vals = list(b) if isinstance(b, tuple) else [b]
            out = []
            for p in re.split(r'(%s|%%|%d)', a):
                if p in ('%s', '%d'):
                    if not vals:
                        raise PyExc(TypeError('not enough arguments for format string'), self.loc)
                    out.append(self.str_of(vals.pop(0)))
                else:
                    out.append('%' if p == '%%' else p)
            return self.concat(*out)
        return term('str%', _hk(a), _hk(b), ty='str')

    def str_method(self, o, name, args, kw):
        if name == 'join':
            parts = []
            for i, x in enumerate(self.iterate(args[0])):
                x = self.norm(x)
                if isinstance(x, Sym) and self.ty(x) != 'str' or not isinstance(x, (str, Sym)):
                    raise PyExc(TypeError(f'sequence item {i}: expected str instance, {self._tyname(x)} found'), self.loc)
                if i:
                    parts.append(o)
                parts.append(x)
            return self.concat(*parts)
        args = [self.norm(a) for a in args]
        if isinstance(o, str) and all(deep_concrete(a) for a in args) and deep_concrete(kw):
            if any(isinstance(a, int) and abs(a) > 100000 for a in args):
                raise Unsupported('huge string')
            return self.native(getattr(o, name), args, kw)
        if name in ('startswith', 'endswith'):
            a = args[0]
            if isinstance(a, tuple):
                return any(self.truth(self.str_method(o, name, [x] + args[1:], kw)) for x in a)
            if self.ty(a) != 'str':
                raise PyExc(TypeError(f'{name} first arg must be str'), self.loc)
            a = self.norm(a)
            if len(args) == 1:
                if a == '':
                    return True
                r = self._affix(o, a, name == 'startswith')
                if r is not None:
                    return r
            return term('str.' + name, o, *[_hk(x) for x in args], ty='bool')
        if name == 'format':
            if isinstance(o, str) and not kw and re.fullmatch(r'(?:[^{}]|\{\})*', o):
                out = []
                vals = list(args)
                for p in re.split(r'(\{\})', o):
                    out.append(self.format_of(vals.pop(0), '') if p == '{}' else p)
                return self.concat(*out)
            if isinstance(o, str):
                out = []
                import string as _string
                auto = 0
                for lit, fld, spec, conv in _string.Formatter().parse(o):
                    out.append(lit)
                    if fld is None:
                        continue
                    if fld == '':
                        v = args[auto]
                        auto += 1
                    elif fld.isdigit():
                        v = args[int(fld)]
                    elif fld in kw:
                        v = kw[fld]
                    else:
                        raise Unsupported('format field')
                    if conv == 'r':
                        v = self.repr_of(v)
                    out.append(self.format_of(v, spec))
                return self.concat(*out)
            raise Unsupported('format')
        if name == '__len__':
            return self.length(o)
        ret = STR_RET.get(name)
        if ret is None:
            raise Unsupported(f'str.{name}')
        # argument types
        for i, a in enumerate(args):
            if isinstance(a, Sym) or a is None or isinstance(a, (int, float)):
                t = self.types_of(a)
                want_int = (name in ('find', 'rfind', 'index', 'rindex', 'count', 'startswith', 'endswith') and i >= 1) or \
                    (name == 'replace' and i == 2) or name in ('zfill', 'expandtabs') or (name in ('ljust', 'rjust', 'center') and i == 0) or \
                    (name in ('split', 'rsplit') and i == 1) or name == 'splitlines'
                if want_int:
                    if not t & {'int', 'bool', 'none'}:
                        raise PyExc(TypeError('slice indices must be integers or None'), self.loc)
                elif name in ('strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'encode', 'translate'):
                    if not t & {'str', 'none', 'dict'}:
                        raise PyExc(TypeError(f'{name} arg must be None or str'), self.loc)
                elif not t & {'str'}:
                    raise PyExc(TypeError(f'must be str, not {"/".join(sorted(t))}'), self.loc)
        if name in ('split', 'rsplit', 'partition', 'rpartition', 'index', 'rindex'):
            sep = args[0] if args else None
            if sep == '':
                raise PyExc(ValueError('empty separator'), self.loc)
            if isinstance(sep, Sym) and not self.nonempty(sep):
                raise PyExc(ValueError('empty separator'), self.loc)
        if name in ('split', 'rsplit') and len(args) == 1 and not kw and isinstance(args[0], str) and set(args[0]) <= {'\r', '\n'}:
            r = self.split_lines(lambda t: t.split(args[0]), o)
            if r is not None:
                return r
        if name == 'replace' and len(args) == 2 and isinstance(args[0], str) and args[0] and set(args[0]) <= {'\r', '\n'} and isinstance(args[1], str):
            r = self.split_lines(lambda t: [t.replace(args[0], args[1])], o)
            if r is not None:
                return r[0]
        r = term('str.' + name, o, *[_hk(x) for x in args], *[(k, _hk(v)) for k, v in sorted(kw.items())], ty=ret)
        if name in ('find', 'rfind'):
            self.facts.set_bounds(r, -1, math.inf)
        if name == 'count':
            self.facts.set_bounds(r, 0, math.inf)
        if name in ('index', 'rindex'):
            if not self.truth(self.contains(o, args[0])):
                raise PyExc(ValueError('substring not found'), self.loc)
            self.facts.set_bounds(r, 0, math.inf)
        return r

    def _affix(self, o, a, start):
        po, pa = self.pieces(o), self.pieces(a)
        if not start:
            po, pa = [p[::-1] if isinstance(p, str) else p for p in po[::-1]], [p[::-1] if isinstance(p, str) else p for p in pa[::-1]]
        while pa:
            if not po:
                if any(isinstance(p, str) for p in pa):
                    return False
                return None
            x, y = po[0], pa[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                po, pa = ([x[n:]] if x[n:] else []) + po[1:], ([y[n:]] if y[n:] else []) + pa[1:]
            elif x is y:
                po, pa = po[1:], pa[1:]
            else:
                return None
        return True

    # -- regular expressions ---------------------------------------------------------------------------
    def regex_call(self, p, name, args, kw):
        args = [self.norm(a) for a in args]
        if isinstance(p, Sym):
            if name in ('match', 'search', 'fullmatch'):
                if self.ty(args[0]) != 'str':
                    raise PyExc(TypeError('expected string or bytes-like object'), self.loc)
                r = self.truth(term('re.' + name, p, *[_hk(a) for a in args], ty='bool'))
                return AMatch(p, args[0], name) if r else None
            if name == 'sub':
                return term('re.sub', p, *[_hk(a) for a in args], *[(k, _hk(v)) for k, v in kw.items()], ty='str')
            if name == 'split':
                return term('re.split', p, *[_hk(a) for a in args], ty='list')
            raise Unsupported(f'opaque regex {name}')
        if name in ('match', 'search', 'fullmatch', 'split', 'findall', 'finditer'):
            s = args[0] if args else kw.get('string')
            if not isinstance(s, (str, Sym)) or isinstance(s, Sym) and self.ty(s) != 'str':
                raise PyExc(TypeError(f'expected string or bytes-like object, got {self._tyname(s)!r}'), self.loc)
            s = self.norm(s)
            if isinstance(s, str) and deep_concrete(args):
                return self.native(getattr(p, name), args, kw)
            if name in ('match', 'search', 'fullmatch'):
                if len(args) > 1:
                    raise Unsupported('regex position')
                key = term('re.' + name, p.pattern, p.flags, s, ty='bool')
                if key not in self.facts.bools:
                    d = regexlang.decide_match(self, p, name, s)
                    if d is not None:
                        self.facts.bools[key] = d
                if self.truth(key):
                    return AMatch(p, s, name)
                return None
            if name == 'split':
                if len(args) == 1 and regexlang.breaks_only(p):
                    r = self.split_lines(p.split, s)
                    if r is not None:
                        return r
                return term('re.split', p.pattern, p.flags, *[_hk(a) for a in args], ty='list')
            raise Unsupported(f'regex {name} on opaque text')
        if name in ('sub', 'subn'):
            repl, s = args[0], args[1] if len(args) > 1 else kw.get('string')
            if isinstance(s, Sym) and self.ty(s) != 'str' or not isinstance(s, (str, Sym)):
                raise PyExc(TypeError(f'expected string or bytes-like object, got {self._tyname(s)!r}'), self.loc)
            if deep_concrete(args):
                return self.native(getattr(p, name), args, kw)
            if name == 'sub':
                r = regexlang.decide_sub(self, p, repl, s, args[2:])
                if r is not None:
                    return r
                return term('re.sub', p.pattern, p.flags, _hk(repl), s, *[_hk(a) for a in args[2:]], ty='str')
            raise Unsupported('subn')
        if name in ('pattern', 'flags'):
            return getattr(p, name)
        raise Unsupported(f'regex.{name}')

    lines = frozenset()       # opaque strings assumed to hold no carriage return and no line feed

    def split_lines(self, split, s):
        """split(text) of a text made of constants and opaque lines, where only line breaks matter"""
        parts = list(s.args) if isinstance(s, Sym) and s.op == 'concat' else [s]
        text, back = '', {}
        for x in parts:
            if isinstance(x, Sym):
                if x not in self.lines:
                    return None
                c = chr(0xF0000 + len(back))
                back[c] = x
                text += c
            elif isinstance(x, str):
                text += x
            else:
                return None
        out = []
        for piece in split(text):
            ps, cur = [], ''
            for c in piece:
                if c in back:
                    if cur:
                        ps.append(cur)
                    ps.append(back[c])
                    cur = ''
                else:
                    cur += c
            if cur or not ps:
                ps.append(cur)
            out.append(self.concat(*ps) if len(ps) > 1 else ps[0])
        return out

    def match_group(self, m, k):
        if isinstance(m.re, re.Pattern) and isinstance(k, str) and k not in m.re.groupindex or isinstance(m.re, re.Pattern) and isinstance(k, int) and k > m.re.groups:
            raise PyExc(IndexError('no such group'), self.loc)
        if isinstance(m.re, re.Pattern):
            ix = m.re.groupindex[k] if isinstance(k, str) else k
            if regexlang.group_optional(m.re, ix):
                if self.truth(term('re.group-none', m.re.pattern, m.string, m.how, ix, ty='bool')):
                    return None
            r = term('group', m.re.pattern, m.re.flags, m.string, m.how, ix, ty='str')
            return r
        return term('group', m.re, m.string, m.how, _hk(k), ty='any')

    def match_call(self, m, name, args, kw):
        if name == 'group':
            if not args:
                return self.match_group(m, 0)
            if len(args) == 1:
                return self.match_group(m, args[0])
            return tuple(self.match_group(m, a) for a in args)
        if name == 'groups' and isinstance(m.re, re.Pattern):
            return tuple(self.match_group(m, i + 1) for i in range(m.re.groups))
        if name == 'groupdict' and isinstance(m.re, re.Pattern):
            return {k: self.match_group(m, k) for k in m.re.groupindex}
        if name in ('start', 'end'):
            k = args[0] if args else 0
            if name == 'start' and m.how in ('match', 'fullmatch') and k == 0:
                return 0
            if name == 'end' and k == 0 and m.how == 'match':
                return self.length(self.match_group(m, 0))
            return term('match.' + name, _mk(m), m.string, k, ty='int')
        if name == 'span':
            return (self.match_call(m, 'start', args, kw), self.match_call(m, 'end', args, kw))
        raise Unsupported(f'match.{name}')

    # -- method calls ----------------------------------------------------------------------------------
    def call_method(self, o, name, args, kw, fr=None):
        o = self.norm(o)
        if isinstance(o, (AModule, AInst, AClass, AFunc, APartial)):
            return self.call(self.getattr(o, name), args, kw)
        if isinstance(o, dict):
            return self.dict_method(o, name, args, kw)
        if type(o) is list:
            return self.list_method(o, name, args, kw)
        if isinstance(o, str):
            if not hasattr(o, name):
                raise PyExc(AttributeError(f"'str' object has no attribute '{name}'"), self.loc)
            return self.str_method(o, name, args, kw)
        if isinstance(o, _types.ModuleType):
            return self.call(self.getattr(o, name), args, kw)
        if isinstance(o, re.Pattern):
            return self.regex_call(o, name, args, kw)
        if isinstance(o, AMatch):
            return self.match_call(o, name, args, kw)
        if isinstance(o, Sym):
            t = self.ty(o)
            o = self.norm(o)
            if not isinstance(o, Sym):
                return self.call_method(o, name, args, kw)
            self.sym_attr(o, name)
            return self.sym_method(o, t, name, args, kw)
        if isinstance(o, ASuper):
            return self.super_call(o, name, args, kw)
        if isinstance(o, (set, frozenset)):
            return self.set_method(o, name, args, kw)
        if isinstance(o, ASchema):
            if name in ('items', 'keys', 'values'):
                raise Unsupported('schema contents')
            return term('schema.' + name, id(o), *[_hk(a) for a in args], ty='any')
        if isinstance(o, ACache):
            if name == 'cache_clear':
                o.store.clear()
                return None
            raise Unsupported('cache_info')
        if isinstance(o, tuple) and not hasattr(o, '_fields'):
            if name == 'index':
                for i, x in enumerate(o):
                    if self.truth(self.eq(x, args[0])):
                        return i
                raise PyExc(ValueError('not in tuple'), self.loc)
            if name == 'count':
                return sum(1 for x in o if self.truth(self.eq(x, args[0])))
        if isinstance(o, type):
            v = getattr(o, name, None)
            if isinstance(v, (AFunc, AStatic)):
                return self.call(self.bound_native(o, v), args, kw)
            return self.class_method(o, name, args, kw)
        if isinstance(o, (datetime.date, datetime.timedelta)):
            return self.native_dt_method(o, name, args, kw)
        if isinstance(o, ADispatch) and name == 'register':
            if len(args) == 2:
                return self.dispatch_register(o, args[0], args[1])
            a = args[0]
            if isinstance(a, AFunc):
                an = [p.annotation for p in a.node.args.posonlyargs + a.node.args.args][0]
                ty = self.cx(an, FuncInfo_module())(a.frame or _ModFrame(a.module))
                return self.dispatch_register(o, ty, a)
            return HostFn('register', lambda it, ar, k: it.dispatch_register(o, a, ar[0]))
        if isinstance(o, ACallable):
            return self.call(self.getattr(o, name), args, kw)
        if isinstance(o, pathlib.PurePath) and hasattr(pathlib.Path, name) and not hasattr(pathlib.PurePath, name):
            if name in ('read_text', 'read_bytes', 'open') and open in self.host_natives:
                fh = self.host_natives[open].fn(self, [str(o), *(args if name == 'open' else ['rb'] if name == 'read_bytes' else [])], kw if name == 'open' else {})
                return fh if name == 'open' else self.call(self.getattr(fh, 'read'), [], {})
            raise Unsupported(f'Path.{name}')
        if not hasattr(o, name):
            raise PyExc(AttributeError(f'{type(o).__name__!r} object has no attribute {name!r}'), self.loc)
        if (hasattr(o, '_fields') or isinstance(o, enum.Enum)) and isinstance(getattr(type(o), name, None), (AFunc, AProp, AStatic)):
            return self.call(self.getattr(o, name), args, kw)
        if isinstance(o, (float, int)) and name == 'is_integer':
            return o.is_integer()
        if isinstance(o, BaseException):
            if name == 'with_traceback':
                return o
            if name == 'add_note' and deep_concrete(args):
                return self.native(o.add_note, args, kw)
        if isinstance(o, contextlib.ExitStack):
            raise Unsupported('ExitStack')
        if isinstance(o, collections.ChainMap):
            if name == 'get':
                return self.getitem(o, args[0]) if self.contains(o, args[0]) else args[1] if len(args) > 1 else None
            if name in ('items', 'keys', 'values'):
                r = {}
                for m in reversed(o.maps):
                    self.dict_update(r, m)
                return getattr(r, name)()
            if name == 'new_child':
                return o.new_child(*args)
            raise Unsupported(f'ChainMap.{name}')
        if isinstance(o, collections.deque) and name in ('index', 'count', 'remove'):
            if name == 'remove':
                i = self.call_method(list(o), 'index', args, kw)
                del o[i]
                return None
            return self.call_method(list(o), name, args, kw)
        if isinstance(o, csv.DictReader) or isinstance(o, NATIVE_OK) or hasattr(o, '_fields') or isinstance(o, enum.Enum) or isinstance(o, _types.GeneratorType):
            return self.native(getattr(o, name), args, kw)
        if type(o).__module__ in ('json.encoder', 'json.decoder') and isinstance(o, json.JSONEncoder):
            if name == 'encode':
                return self.json_encode(args[0], {k: getattr(o, k) for k in ('allow_nan', 'indent', 'sort_keys', 'ensure_ascii', 'skipkeys')} |
                                        {'separators': (o.item_separator, o.key_separator)}, None)
        if isinstance(o, (int, float, bytes, bytearray, re.Match, complex, uuid.UUID)) or type(o).__module__ in ('decimal', 'fractions', 'random', 'string'):
            if isinstance(o, random.Random):
                self.effect('nondet', name)
                return self.fresh('random', 'float')
            if deep_concrete(args) and deep_concrete(kw):
                return self.native(getattr(o, name), args, kw)
        raise Unsupported(f'{type(o).__name__}.{name}()')

    def class_method(self, o, name, args, kw):
        """Method called through a native class"""
        if o is dict and name == 'fromkeys':
            d = {}
            for k in self.iterate(args[0]):
                self.dict_set(d, k, args[1] if len(args) > 1 else None)
            return d
        if issubclass(o, datetime.date) and name in ('now', 'today', 'utcnow', 'fromtimestamp'):
            if self.zone is not None and deep_concrete(args) and deep_concrete(kw):
                try:
                    v = self.zone_class(o, name, args, kw)
                except (OverflowError, ValueError) as e:
                    raise PyExc(e, self.loc) from None
                if v is not None:
                    return v
            self.effect('nondet', f'{o.__name__}.{name}') if name != 'fromtimestamp' else None
            if name == 'fromtimestamp':
                return term('fromtimestamp', *[_hk(a) for a in args], *[(k, _hk(v)) for k, v in kw.items()],
                            ty='datetime_aware' if len(args) > 1 or 'tz' in kw else 'datetime')
            return self.fresh('now', 'date' if o is datetime.date else 'datetime_aware' if args or kw else 'datetime')
        if issubclass(o, datetime.date) and name == 'fromisoformat':
            s = self.norm(args[0])
            if isinstance(s, str):
                return self.native(getattr(o, name), [s], kw)
            if self.nd(f'{o.__name__}.fromisoformat({show(s)}) fails'):
                raise PyExc(ValueError('Invalid isoformat string'), self.loc)
            return term('fromisoformat', s, ty='datetime_aware' if o is datetime.datetime else 'date')
        if issubclass(o, datetime.date) and name in ('strptime',):
            if deep_concrete(args):
                return self.native(getattr(o, name), args, kw)
            if self.nd('strptime fails'):
                raise PyExc(ValueError('time data does not match format'), self.loc)
            return term('strptime', *[_hk(a) for a in args], ty='datetime')
        if issubclass(o, datetime.date) and name in ('combine', 'fromordinal'):
            if deep_concrete(args):
                return self.native(getattr(o, name), args, kw)
            return term(name, *[_hk(a) for a in args], ty='datetime' if o is datetime.datetime else 'date')
        if name == '__init__' and issubclass(o, BaseException):
            args[0].attrs['args'] = tuple(args[1:])
            return None
        if name == '__new__':
            raise Unsupported('__new__')
        if o in (str, list, dict, float, int, set, bytes) or issubclass(o, datetime.date):
            if args and name not in ('maketrans', 'fromhex', 'from_bytes'):
                return self.call_method(args[0], name, args[1:], kw)
            return self.native(getattr(o, name), args, kw)
        if issubclass(o, pathlib.PurePath) or o in (itertools.chain, collections.Counter, collections.OrderedDict):
            if name == 'from_iterable':
                return itertools.chain.from_iterable(self.iterate(x) for x in self.iterate(args[0]))
            raise Unsupported(f'{o.__name__}.{name}')
        raise Unsupported(f'{o.__name__}.{name}')

    def super_call(self, o, name, args, kw):
        mro = o.self_.cls.mro if isinstance(o.self_, AInst) else o.self_.mro
        i = mro.index(o.owner) + 1
        for c in mro[i:]:
            if isinstance(c, AClass):
                if name in c.attrs:
                    return self.call(c.attrs[name], [o.self_] + args, kw)
            elif name in c.__dict__:
                if name == '__init__':
                    if issubclass(c, BaseException):
                        o.self_.attrs['args'] = tuple(args)
                    elif issubclass(c, json.JSONEncoder):
                        o.self_.attrs['__cfg__'] = dict(kw)
                    elif c is not object:
                        raise Unsupported(f'super().__init__ of {c.__name__}')
                    return None
                if issubclass(c, json.JSONEncoder):
                    if name == 'default':
                        raise PyExc(TypeError(f'Object of type {self._tyname(args[0])} is not JSON serializable'), self.loc)
                    if name in ('encode', 'iterencode'):
                        return self.native_inst_method(o.self_, c, name, args, kw)
                if name in ('__str__', '__repr__') and issubclass(c, BaseException):
                    a = o.self_.attrs.get('args', ())
                    return '' if not a else self.str_of(a[0]) if len(a) == 1 else self.repr_of(a)
                if name == '__setattr__':
                    o.self_.attrs[args[0]] = args[1]
                    return None
                if name == '__init_subclass__' and c is object:
                    return None
                raise Unsupported(f'super().{name} of {c.__name__}')
        raise PyExc(AttributeError(f"'super' object has no attribute {name!r}"), self.loc)

    def native_inst_method(self, inst, cls, name, args, kw):
        """A native base-class method called on an instance of an analysed class"""
        if issubclass(cls, json.JSONEncoder):
            cfg = inst.attrs.get('__cfg__', {})
            if name == 'encode':
                d = self.inst_method(inst, 'default')
                return self.json_encode(args[0], cfg, d)
            if name == 'iterencode':
                d = self.inst_method(inst, 'default')
                return [self.json_encode(args[0], cfg, d)]
            if name == 'default':
                raise PyExc(TypeError('not JSON serializable'), self.loc)
        if issubclass(cls, BaseException):
            if name == 'with_traceback':
                return inst
            if name == '__str__':
                return self.str_of(inst)
            if name == '__init__':
                inst.attrs['args'] = tuple(args)
                return None
        if name == '__eq__':
            return inst is args[0]
        raise Unsupported(f'{cls.__name__}.{name}')

    def dict_method(self, o, name, args, kw):
        args = [self.norm(a) if isinstance(a, Sym) else a for a in args]
        if name in MUTATORS[dict]:
            self.mutating(o, name)
        if name == 'get':
            f = self.dict_find(o, args[0])
            return o[f[0]] if f else (args[1] if len(args) > 1 else None)
        if name in ('items', 'keys', 'values'):
            return getattr(o, name)()
        if name == 'update':
            for a in args:
                self.dict_update(o, a)
            for k, v in kw.items():
                self.dict_set(o, k, v)
            return None
        if name == 'pop':
            f = self.dict_find(o, args[0])
            if f:
                return o.pop(f[0])
            if len(args) > 1:
                return args[1]
            raise PyExc(KeyError(args[0]), self.loc)
        if name == 'setdefault':
            f = self.dict_find(o, args[0])
            if f:
                return o[f[0]]
            v = args[1] if len(args) > 1 else None
            o[args[0]] = v
            return v
        if name == 'copy':
            return copy.copy(o)
        if name == 'clear':
            return o.clear()
        if name == 'popitem' and not args:
            return self.native(o.popitem, [], {})
        if name == '__contains__':
            return self.dict_find(o, args[0]) is not None
        if name == '__getitem__':
            return self.getitem(o, args[0])
        if name == '__setitem__':
            return self.setitem(o, args[0], args[1])
        if name == '__len__':
            return len(o)
        if isinstance(o, (collections.OrderedDict, collections.Counter)) and name in ('move_to_end', 'most_common', 'elements'):
            return self.native(getattr(o, name), args, kw)
        if not hasattr(o, name):
            raise PyExc(AttributeError(f"'dict' object has no attribute '{name}'"), self.loc)
        raise Unsupported(f'dict.{name}')

    def list_method(self, o, name, args, kw):
        if name in MUTATORS[list]:
            self.mutating(o, name)
        if name == 'append':
            if len(args) != 1:
                raise PyExc(TypeError('append() takes exactly one argument'), self.loc)
            o.append(args[0])
            return None
        if name == 'extend':
            o.extend(list(self.iterate(args[0])))
            return None
        if name == 'insert':
            k = self.slice_bound(args[0], len(o))
            o.insert(k, args[1])
            return None
        if name == 'pop':
            if not o:
                raise PyExc(IndexError('pop from empty list'), self.loc)
            return o.pop(self.index_of(args[0], len(o)) if args else -1)
        if name in ('index', 'remove', 'count'):
            hits = []
            rng = range(len(o))
            if name == 'index' and len(args) > 1:
                a = self.slice_bound(args[1], len(o))
                b = self.slice_bound(args[2], len(o)) if len(args) > 2 else len(o)
                rng = range(len(o))[slice(a, b)]
            for i in rng:
                if o[i] is args[0] or self.truth(self.eq(o[i], args[0])):
                    hits.append(i)
                    if name != 'count':
                        break
            if name == 'count':
                return len(hits)
            if not hits:
                raise PyExc(ValueError('value is not in list'), self.loc)
            if name == 'index':
                return hits[0]
            del o[hits[0]]
            return None
        if name == 'sort':
            key = kw.get('key')
            rev = self.truth(kw.get('reverse', False))
            items = self.sort_list(list(o), key, rev)
            o[:] = items
            return None
        if name == 'reverse':
            o.reverse()
            return None
        if name == 'copy':
            return list(o)
        if name == 'clear':
            o.clear()
            return None
        if name == '__len__':
            return len(o)
        if name == '__contains__':
            return self.contains(o, args[0])
        if name == '__getitem__':
            return self.getitem(o, args[0])
        if name == '__setitem__':
            return self.setitem(o, args[0], args[1])
        if not hasattr(o, name):
            raise PyExc(AttributeError(f"'list' object has no attribute '{name}'"), self.loc)
        raise Unsupported(f'list.{name}')

    def sort_list(self, items, key, rev):
        """Stable insertion sort (the order it produces is the one every stable sort produces)"""
        keys = [self.call(key, [x], {}) if key is not None else x for x in items]
        pairs = list(zip(keys, items))
        if rev:
            pairs.reverse()
        out = []
        for p in pairs:
            i = len(out)
            while i > 0 and self.truth(self.compare('<', p[0], out[i - 1][0])):
                i -= 1
            out.insert(i, p)
        if rev:
            out.reverse()
        return [x for _, x in out]

    def set_method(self, o, name, args, kw):
        if name in MUTATORS[set]:
            self.mutating(o, name)
        if name == 'add':
            self.set_add(o, args[0])
            return None
        if name == 'update':
            for a in args:
                for x in self.iterate(a):
                    self.set_add(o, x)
            return None
        if name in ('discard', 'remove'):
            for x in list(o):
                if self.truth(self.eq(x, args[0])):
                    o.discard(x)
                    return None
            if name == 'remove':
                raise PyExc(KeyError(args[0]), self.loc)
            return None
        if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'copy', 'clear', 'isdisjoint', 'symmetric_difference', 'pop'):
            if name == 'pop' and o:
                x = set_order(o)[0]
                o.discard(x)
                return x
            sets = [self.make_set(a) for a in args]
            if deep_concrete(o) and all(deep_concrete(s) for s in sets):
                return self.native(getattr(o, name), sets, {})
            if name == 'copy':
                return set(o)
            if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
                r = set(o)
                for s in sets:
                    r = self.set_algebra({'union': '|', 'intersection': '&', 'difference': '-', 'symmetric_difference': '^'}[name], r, s)
                return r
            if name == 'clear':
                o.clear()
                return None
            if name in ('issubset', 'issuperset'):
                return self.set_order('<=' if name == 'issubset' else '>=', o, sets[0])
            if name == 'isdisjoint':
                return not self.set_algebra('&', o, sets[0])
        if name in ('difference_update', 'intersection_update', 'symmetric_difference_update'):
            r = set(o)
            for a in args:
                r = self.set_algebra({'d': '-', 'i': '&', 's': '^'}[name[0]], r, self.make_set(a))
            o.clear()
            o.update(r)
            return None
        raise Unsupported(f'set.{name}')

    def sym_method(self, o, t, name, args, kw):
        if t == 'str':
            return self.str_method(o, name, args, kw)
        if t in ('datetime', 'datetime_aware', 'date'):
            return self.dt_method(o, t, name, args, kw)
        if t == 'timedelta':
            if name == 'total_seconds':
                return term('td.total_seconds', o, ty='float')
            raise Unsupported(f'timedelta.{name}')
        if t == 'regex':
            return self.regex_call(o, name, args, kw)
        if t in ('float', 'int', 'bool'):
            if name == 'is_integer':
                if t != 'float' or o.op == 'flt':
                    return True
                return self.truth(self.eq(term('int', o, ty='int'), o))
            if name == 'bit_length':
                return term('bit_length', o, ty='int')
            raise Unsupported(f'{t}.{name}')
        if t == 'bytes' and name == 'decode':
            if o.op == 'str.encode':
                return o.args[0]
            return term('decode', o, ty='str')
        if t in ('dict', 'list'):
            if name in MUTATORS[dict if t == 'dict' else list]:
                self.effect('mutate', o, name, tuple(args))
            raise Unsupported(f'opaque {t}.{name}')
        raise Unsupported(f'{t}.{name}')

    def dt_method(self, o, t, name, args, kw):
        if name == 'astimezone':
            if t == 'date':
                raise PyExc(AttributeError('astimezone'), self.loc)
            return term('astimezone', o, *[_hk(a) for a in args], *[(k, _hk(v)) for k, v in kw.items()], ty='datetime_aware')
        if name == 'replace':
            if set(kw) == {'tzinfo'} and not args:
                tz = self.norm(kw['tzinfo'])
                if tz is None:
                    return o if t == 'datetime' else term('naive', o, ty='datetime')
                return term('withtz', o, _hk(tz), ty='datetime_aware')
            if 'tzinfo' in kw:
                tz = self.norm(kw['tzinfo'])
                base = self.dt_method(o, t, 'replace', [], {'tzinfo': tz})
                rest = {k: v for k, v in kw.items() if k != 'tzinfo'}
                return self.dt_method(base, self.ty(base), 'replace', args, rest)
            if o.op == 'datetime' and not args:
                a = list(o.args) + [0] * (7 - len(o.args))
                for k, v in kw.items():
                    a[DT_ORDER.index(k)] = v
                return term('datetime', *a, ty=t)
            return term('dt.replace', o, *[_hk(a) for a in args], *[(k, _hk(v)) for k, v in sorted(kw.items())], ty=t)
        if name == 'isoformat':
            return term('isoformat', o, *[_hk(a) for a in args], *[(k, _hk(v)) for k, v in sorted(kw.items())], ty='str')
        if name == 'date':
            return term('dt.date', o, ty='date')
        if name in ('timestamp',):
            return term('dt.timestamp', o, ty='float')
        if name in ('weekday', 'isoweekday', 'toordinal'):
            return term('dt.' + name, o, ty='int')
        if name in ('strftime', '__format__', 'ctime'):
            return term('dt.' + name, o, *[_hk(a) for a in args], ty='str')
        if name in ('utcoffset',):
            return None if t == 'datetime' else term('utcoffset', o, ty='timedelta')
        raise Unsupported(f'datetime.{name}')

    def native_dt_method(self, o, name, args, kw):
        if isinstance(o, datetime.datetime) and name in ('astimezone', 'timestamp') and not (o.tzinfo is not None and (args or kw or name == 'timestamp')):
            # depends on the process time zone
            if self.zone is not None and deep_concrete(args) and deep_concrete(kw):
                found, v = self.zone_dt(o, name, args, kw)
                if found:
                    return v
                if found is False:
                    raise PyExc(v, self.loc)
            t = 'datetime_aware' if o.tzinfo is not None else 'datetime'
            return self.dt_method(term('dtconst', o, ty=t), t, name, args, kw)
        if deep_concrete(args) and deep_concrete(kw):
            return self.native(getattr(o, name), args, kw)
        if isinstance(o, datetime.datetime):
            t = 'datetime_aware' if o.tzinfo is not None else 'datetime'
            return self.dt_method(term('datetime', o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond, ty=t), t, name, args, kw)
        raise Unsupported(f'datetime.{name} with opaque arguments')

    # -- other calls -----------------------------------------------------------------------------------
    def dispatch_register(self, o, ty, fn):
        for t in (ty if isinstance(ty, tuple) else typing.get_args(ty) if isinstance(ty, _types.UnionType) else (ty,)):
            o.table[type(None) if t is None else t] = fn
        return fn

    def dispatch_find(self, o, v):
        """The implementation for the type of v: the registered class nearest to it"""
        v = self.norm(v)
        if isinstance(v, Sym):
            for t in (bool, int, float, str, dict, list, type(None)):
                if self.is_instance(v, t):
                    cls = t
                    break
            else:
                cls = self.b_type([v], {})
        else:
            cls = self.b_type([v], {})
        for c in (cls.mro if isinstance(cls, AClass) else cls.__mro__):
            if c in o.table:
                return o.table[c]
        if any(isinstance(t, type) and t.__module__ in ('collections.abc', 'numbers', 'typing') for t in o.table):
            raise Unsupported('dispatch on an abstract base class')
        return o.fn

    def native(self, fn, args, kw):
        try:
            return fn(*args, **kw)
        except PyExc:
            raise
        except RecursionError:
            raise Unsupported('recursion') from None
        except (TypeError, AttributeError, NotImplementedError) as e:
            if not (deep_concrete(args) and deep_concrete(kw)):
                # a native function met an analysis value: its answer says nothing about the program
                raise Unsupported(f'{getattr(fn, "__name__", fn)}: {e}') from None
            raise PyExc(e, self.loc) from None
        except Exception as e:
            raise PyExc(e, self.loc) from None

    def call_other(self, f, args, kw):
        if isinstance(f, Sym):
            f = self.norm(f)
            if isinstance(f, Sym):
                t = self.ty(f)
                if t != 'func':
                    raise PyExc(TypeError(f"'{t}' object is not callable"), self.loc)
                self.effect('call', f, tuple(args))
                if self.exc_forks and self.nd('opaque function raises'):
                    raise PyExc(self.fresh('exc', 'other'), self.loc)
                return self.fresh('ret', 'any')
            return self.call(f, args, kw)
        if isinstance(f, AClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, AMethod):
            if isinstance(f.obj, AInst):
                cls = next(c for c in (f.obj.cls.mro if isinstance(f.obj.cls, AClass) else f.obj.cls.__mro__)
                           if isinstance(c, type) and f.name in c.__dict__)
                return self.native_inst_method(f.obj, cls, f.name, args, kw)
            return self.call_method(f.obj, f.name, args, kw)
        if isinstance(f, AInst):
            m = self.inst_method(f, '__call__')
            if m is None:
                raise PyExc(TypeError(f'{f.clsname()!r} object is not callable'), self.loc)
            return self.call(m, args, kw)
        if isinstance(f, AKeyMaker):
            return AKey(f.fn, args[0])
        if isinstance(f, ACache):
            key = tuple(self.hashable(a) for a in args) + tuple(sorted((k, self.hashable(v)) for k, v in kw.items()))
            hit = self.dict_find(f.store, key)
            if hit is not None:
                return f.store[hit[0]]
            v = self.call(f.fn, args, kw)
            f.store[key] = v
            return v
        if isinstance(f, ADispatch):
            return self.call(self.dispatch_find(f, args[0]), args, kw)
        if isinstance(f, AUnknown):
            raise Unsupported(f'{f.name}: {f.why}')
        if isinstance(f, CtxMaker):
            return ACtx(self.call(f.fn, args, kw))
        if isinstance(f, AStatic):
            return self.call(f.fn, args, kw)
        hashable = _hashable_native(f)
        if hashable and self.host_natives and f in self.host_natives:
            return self.host_natives[f].fn(self, args, kw)
        m = BUILTINS.get(f) if hashable else None
        if m is not None:
            return getattr(self, m)(args, kw)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        if f is None or isinstance(f, (int, float, str, list, dict, tuple, set, AModule, AMatch, ASchema)):
            raise PyExc(TypeError(f"'{self._tyname(f)}' object is not callable"), self.loc)
        mod = getattr(f, '__module__', None) or ''
        name = getattr(f, '__name__', str(f))
        if mod == 'time' and self.zone is not None and deep_concrete(args) and not kw:
            try:
                v = self.zone_time(name, args)
            except (OverflowError, ValueError, TypeError) as e:
                raise PyExc(e, self.loc) from None
            if v is not None:
                return v
        if mod == 'sys' and name == 'exit':
            raise PyExc(SystemExit(*args), self.loc)
        if mod in NONDET_MODULES or isinstance(getattr(f, '__self__', None), random.Random):
            self.effect('nondet', f'{mod}.{name}')
            return self.fresh(f'{mod}.{name}', 'float' if name in ('random', 'time', 'uniform', 'perf_counter', 'monotonic') else 'any')
        if mod in EFFECT_MODULES or mod in ('posix', 'nt', '_io', 'io') and name not in ('StringIO',) or f in (os.getcwd, os.getenv):
            self.effect('io', f'{mod}.{name}', tuple(_hk(a) for a in args))
            raise Unsupported(f'effect {mod}.{name}')
        if isinstance(f, operator.itemgetter):
            keys = f.__reduce__()[1]
            vals = tuple(self.getitem(args[0], k) for k in keys)
            return vals[0] if len(keys) == 1 else vals
        if isinstance(f, operator.attrgetter):
            vals = []
            for path in f.__reduce__()[1]:
                v = args[0]
                for p in path.split('.'):
                    v = self.getattr(v, p)
                vals.append(v)
            return vals[0] if len(vals) == 1 else tuple(vals)
        if isinstance(f, operator.methodcaller):
            r = f.__reduce__()
            if r[0] is operator.methodcaller:
                return self.call_method(args[0], r[1][0], list(r[1][1:]), {})
            raise Unsupported('methodcaller with keywords')
        if mod in ('heapq', '_heapq', 'bisect', '_bisect') and not deep_concrete(args) and any(
                isinstance(x, (list, tuple, dict)) for a in args if isinstance(a, (list, tuple)) for x in a):
            raise Unsupported(f'{mod}.{name} of abstract tuples')
        if mod in ('itertools', 'functools', '_functools', 'operator', '_operator', 'heapq', '_heapq', 'bisect', '_bisect', 'copy', 'collections', 'dataclasses'):
            return self.native(f, args, kw)
        if deep_concrete(args) and deep_concrete(kw):
            if any(isinstance(a, int) and abs(a) > 10 ** 6 for a in args) and name in ('pow', 'factorial', 'comb', 'perm'):
                raise Unsupported('huge computation')
            return self.native(f, args, kw)
        if mod == 'math':
            return self.math_term(f, name, args)
        if mod in ('posixpath', 'ntpath', 'os.path', 'genericpath'):
            return self.path_term(name, args)
        if mod in ('urllib.parse',):
            return term(f'{mod}.{name}', *[_hk(a) for a in args], *[(k, _hk(v)) for k, v in sorted(kw.items())], ty='str')
        if mod == 'statistics':
            if any(isinstance(a, (list, tuple)) and len(a) == 0 for a in args):
                raise PyExc(statistics.StatisticsError('no data'), self.loc)
            vals = args[0]
            for x in self.iterate(vals) if not isinstance(vals, Sym) else []:
                if self.types_of(x) & set(NUM) == set():
                    raise PyExc(TypeError("can't convert type to numerator/denominator"), self.loc)
            return term(f'statistics.{name}', tuple(_hk(x) for x in args[0]), *[_hk(a) for a in args[1:]], ty='float')
        if mod == 'calendar' and name == 'monthrange':
            y, m_ = args
            n = term('monthdays', _hk(y), _hk(m_), ty='int')
            self.facts.set_bounds(n, 28, 31)
            return (term('weekday', _hk(y), _hk(m_), ty='int'), n)
        if mod in ('json', 'json.encoder', 'json.decoder', 're', 'html', 'textwrap', 'string', 'unicodedata', 'calendar', 'json.scanner'):
            return term(f'{mod}.{name}', *[_hk(a) for a in args], *[(k, _hk(v)) for k, v in sorted(kw.items())], ty='any')
        raise Unsupported(f'call of {mod}.{name}')

    def math_term(self, f, name, args):
        args = [self.norm(a) for a in args]
        for a in args:
            t = self.types_of(a)
            if t & set(NUM) and not t <= set(NUM) and not self._has_type(a, frozenset(NUM)):
                t = frozenset()
            if not t & set(NUM) and name not in ('fsum', 'prod', 'hypot'):
                raise PyExc(TypeError(f'must be real number, not {self._tyname(a)}'), self.loc)
        if name in ('floor', 'ceil', 'trunc'):
            u = self._unflt(args[0])
            if self.ty(u) == 'int':
                return u
            if self.known('==', term('int', u, ty='int'), u):
                return term('int', u, ty='int')
            return term('math.' + name, args[0], ty='int')
        if name in ('isnan', 'isinf', 'isfinite'):
            a = args[0]
            if isinstance(a, Sym) and a.op in ('float', 'nonfinite', 'jsonnum') or self.exc_forks:
                if name == 'isfinite':
                    return not (self.truth(term('isnan', a, ty='bool')) or self.truth(term('isinf', a, ty='bool')))
                if name == 'isinf' and self.facts.bools.get(term('isnan', a, ty='bool')):
                    return False
                if name == 'isnan' and self.facts.bools.get(term('isinf', a, ty='bool')):
                    return False
                return self.truth(term(name, a, ty='bool'))
            return name == 'isfinite'
        if name == 'fabs':
            return self.b_float([self.b_abs([args[0]], {})], {})
        if self.exc_forks and self.nd(f'math.{name} domain error'):
            raise PyExc(ValueError('math domain error'), self.loc)
        return term('math.' + name, *[self._unflt(a) for a in args], ty='int' if name in ('gcd', 'lcm', 'isqrt', 'comb', 'perm', 'factorial') else 'float')

    def path_term(self, name, args):
        args = [self.norm(a) for a in args]
        if name == 'dirname' and isinstance(args[0], Sym):
            ps = self.pieces(args[0])
            if isinstance(ps[-1], Sym) and ps[-1].op.startswith('file') and len(ps) > 1 and isinstance(ps[-2], str) and ps[-2].endswith('/'):
                head = ps[-2][:-1] if ps[-2] != '/' or len(ps) > 2 else '/'
                return self.concat(*ps[:-2], head)
        if name == 'join':
            out = args[0]
            for a in args[1:]:
                pa = self.pieces(a)
                if pa and isinstance(pa[0], str) and pa[0].startswith('/'):
                    out = a
                    continue
                if not pa or isinstance(pa[0], str) or pa[0].op.startswith('rel'):
                    po = self.pieces(out)
                    if not po:
                        out = a
                    elif isinstance(po[-1], str):
                        out = self.concat(out, '' if po[-1].endswith('/') else '/', a)
                    elif po[-1].op.startswith('dir'):
                        out = self.concat(out, '/', a)
                    else:
                        return term('os.path.join', *args, ty='str')
                else:
                    return term('os.path.join', *args, ty='str')
            return out
        if name in ('isabs', 'exists', 'isfile', 'isdir'):
            return term('os.path.' + name, *[_hk(a) for a in args], ty='bool')
        if name in ('split', 'splitext', 'splitdrive'):
            return (term(f'os.path.{name}.0', *args, ty='str'), term(f'os.path.{name}.1', *args, ty='str'))
        return term('os.path.' + name, *[_hk(a) for a in args], ty='str')

    def construct(self, cls, args, kw):
        """Instantiate a native class"""
        if issubclass(cls, BaseException):
            try:
                return cls(*args, **kw)
            except TypeError as e:
                raise PyExc(e, self.loc)
        if cls is datetime.datetime or cls is datetime.date:
            a = [self.norm(x) for x in args]
            k = {n: self.norm(x) for n, x in kw.items()}
            for x in list(a) + [v for n, v in k.items() if n not in ('tzinfo', 'fold')]:
                t = self.types_of(x)
                if isinstance(x, Sym) and not t & {'int', 'bool'} or not isinstance(x, (int, Sym)):
                    if not (len(a) > 7 and x is a[7]):
                        raise PyExc(TypeError(f"'{self._tyname(x)}' object cannot be interpreted as an integer"), self.loc)
            if deep_concrete(a) and deep_concrete(k):
                return self.native(cls, a, k)
            if k:
                for n in DT_ORDER[len(a):]:
                    if n in k:
                        while len(a) < DT_ORDER.index(n):
                            a.append(0)
                        a.append(k[n])
            tz = k.get('tzinfo')
            if self.exc_forks or any(isinstance(x, Sym) and x.op == 'int' and len(x.args) == 2 for x in a):
                if not self.dt_fields_valid(a) and self.nd('date components out of range'):
                    raise PyExc(ValueError('day is out of range for month'), self.loc)
            if cls is datetime.date:
                return term('date', *a, ty='date')
            return term('datetime', *(a + [0] * (7 - len(a))), ty='datetime' if tz is None else 'datetime_aware')
        if cls is datetime.timedelta:
            a = [self.norm(x) for x in args]
            k = {n: self.norm(x) for n, x in kw.items()}
            for x in list(a) + list(k.values()):
                if not self.types_of(x) & set(NUM):
                    raise PyExc(TypeError(f'unsupported type for timedelta component: {self._tyname(x)}'), self.loc)
            if deep_concrete(a) and deep_concrete(k):
                return self.native(cls, a, k)
            if self.exc_forks and self.nd('timedelta overflow'):
                raise PyExc(OverflowError('Python int too large to convert to C int'), self.loc)
            names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
            d = dict(zip(names, a))
            d.update(k)
            return term('timedelta', *[(n, self._unflt(v)) for n, v in sorted(d.items())], ty='timedelta')
        if issubclass(cls, pathlib.PurePath):
            a = [self.norm(x) for x in args]
            if all(isinstance(x, (str, pathlib.PurePath)) for x in a):
                return self.native(pathlib.PurePosixPath, a, {})
            if len(a) == 1 and isinstance(a[0], Sym):
                return term('Path', a[0], ty='other')
            raise Unsupported('Path')
        if issubclass(cls, json.JSONEncoder):
            return AInst(_json_encoder_class(cls), {'__cfg__': dict(kw)})
        if cls is collections.defaultdict:
            return collections.defaultdict(args[0] if args else None, *[dict(a) for a in args[1:]])
        if cls is collections.OrderedDict or cls is collections.Counter:
            r = cls()
            if args and cls is collections.Counter and not isinstance(args[0], dict):
                for x in self.iterate(args[0]):
                    f = self.dict_find(r, x)
                    if f:
                        r[f[0]] += 1
                    else:
                        r[x] = 1
                return r
            for a in args:
                self.dict_update(r, a)
            for k, v in kw.items():
                r[k] = v
            return r
        if cls in (collections.deque,):
            size = self.norm(args[1] if len(args) > 1 else kw.get('maxlen'))
            if size is not None and not isinstance(size, int):
                raise Unsupported('deque of opaque length')
            return cls(self.iterate(args[0]) if args else (), size)
        if cls is collections.ChainMap or cls in (itertools.count, itertools.repeat, itertools.cycle, io.StringIO):
            return cls(*args, **kw)
        if cls is itertools.chain:
            return itertools.chain(*[self.iterate(a) for a in args])
        if cls.__module__ == 'itertools':
            a = [self.iterate(x) if hasattr(x, '__iter__') and not isinstance(x, Sym) else (self.truth_fn(x) if isinstance(x, ACallable) else x) for x in args]
            return self.native(cls, a, kw)
        if cls in (operator.itemgetter, operator.attrgetter, operator.methodcaller):
            a = list(args)
            if cls is operator.itemgetter:
                return HostFn('itemgetter', lambda it, x, k: it.getitem(x[0], a[0]) if len(a) == 1 else tuple(it.getitem(x[0], y) for y in a))
            if cls is operator.attrgetter and len(a) == 1:
                return HostFn('attrgetter', lambda it, x, k: it.getattr(x[0], a[0]))
            if cls is operator.methodcaller:
                return HostFn('methodcaller', lambda it, x, k: it.call_method(x[0], a[0], a[1:], kw))
        if issubclass(cls, enum.Enum):
            return self.native(cls, args, kw)
        if issubclass(cls, tuple) and hasattr(cls, '_fields'):
            return self.native(cls, args, kw)
        if cls is csv.DictReader or cls.__module__ in ('csv', '_csv'):
            a = [list(self.iterate(args[0]))] + list(args[1:]) if args else args
            if deep_concrete(a) and deep_concrete(kw):
                return self.native(cls, a, kw)
            raise Unsupported('csv reader on opaque text')
        if cls is uuid.UUID or cls.__module__ in ('decimal', 'fractions', '_pydecimal', 'zoneinfo') or cls in (bytes, complex, slice, bytearray, datetime.timezone, datetime.time, frozenset):
            if deep_concrete(args) and deep_concrete(kw):
                return self.native(cls, args, kw)
            raise Unsupported(f'{cls.__name__}()')
        if cls is object:
            return AInst(_OBJECT)
        if cls is contextlib.suppress:
            return ASuppress(tuple(args))
        if cls is contextlib.nullcontext:
            return ASuppress(())
        if cls is _types.SimpleNamespace:
            return AInst(_NAMESPACE, dict(kw))
        if cls is _types.MappingProxyType:
            return args[0]
        if cls is functools.partial:
            return APartial(args[0], list(args[1:]), dict(kw))
        raise Unsupported(f'{cls.__module__}.{cls.__name__}()')

    def truth_fn(self, f):
        return f

    def cm_methods(self, cm):
        if isinstance(cm, ASuppress):
            return (lambda: None), (lambda inst: inst is not None and self.exc_matches(inst, cm.classes))
        if isinstance(cm, AInst):
            en, ex = self.inst_method(cm, '__enter__'), self.inst_method(cm, '__exit__')
            if en is not None and ex is not None:
                def leave(inst):
                    return self.call(ex, [None, None, None] if inst is None else [inst.cls if isinstance(inst, AInst) else type(inst), inst, None], {})
                return (lambda: self.call(en, [], {})), leave
        if isinstance(cm, ACtx):
            it = cm.gen

            def enter():
                return next(it)

            def leave(inst):
                if inst is None:
                    try:
                        next(it)
                    except StopIteration:
                        pass
                    return False
                try:
                    it.throw(PyExc(inst, self.loc))
                except StopIteration:
                    return True
                return True
            return enter, leave
        if isinstance(cm, HostObj):
            return (lambda: cm), (lambda inst: False)
        if isinstance(cm, io.StringIO):
            return (lambda: cm), (lambda inst: False)
        raise Unsupported(f'with {type(cm).__name__}')

    def special_class(self, name, bases, env, mod):
        fields = env.pop('__fields__', [])
        names = [getattr(b, '__name__', '') for b in bases]
        if 'NamedTuple' in names:
            defaults = [env[f] for f in fields if f in env]
            extra = {k: v for k, v in env.items() if isinstance(v, (AFunc, AProp, AStatic))}
            if any(k.startswith('__') for k in extra):
                raise Unsupported('NamedTuple with special methods')
            cls = collections.namedtuple(name, fields, defaults=defaults)
            return type(name, (cls,), {'__slots__': (), **extra}) if extra else cls
        if any(n in ('Enum', 'IntEnum', 'StrEnum', 'Flag') for n in names):
            extra = {k: v for k, v in env.items() if isinstance(v, (AFunc, AProp, AStatic))}
            members = {k: v for k, v in env.items() if not k.startswith('_') and k not in extra}
            if not deep_concrete(members) or any(k.startswith('_') and k.endswith('_') for k in extra):
                raise Unsupported('enum with special methods')
            base = next(b for b in bases if getattr(b, '__name__', '') in ('Enum', 'IntEnum', 'StrEnum', 'Flag'))
            if str in bases:
                base = enum.StrEnum
            cls = base(name, members)
            for k, v in extra.items():
                setattr(cls, k, v)
            return cls
        if 'Protocol' in names or 'TypedDict' in names:
            return AClass(name, [], env, mod)
        raise Unsupported(f'class {name}')

    def decorate_class(self, d, cls):
        n = getattr(d, '__name__', '') or getattr(d, 'name', '')
        if n in ('dataclass', 'dataclass-args'):
            if isinstance(cls, AClass):
                fields = []
                for c in reversed(cls.mro):
                    if isinstance(c, AClass):
                        for f in c.attrs.get('__fields__', []):
                            if f not in fields:
                                fields.append(f)
                cls.fields = fields
                cls.compared = [f for f in fields if getattr(cls.lookup(f)[0], 'compare', True) is not False]
                for f in fields:
                    if getattr(cls.lookup(f)[0], 'init', True) is False or getattr(cls.lookup(f)[0], 'kw_only', False) is True:
                        raise Unsupported('dataclass field options')
            return cls
        if n in ('total_ordering', 'runtime_checkable', 'final', 'unique'):
            if n == 'total_ordering':
                raise Unsupported('total_ordering')
            return cls
        return self.call(d, [cls], {})

    def init_fields(self, cls, inst, args, kw):
        if len(args) > len(cls.fields):
            raise PyExc(TypeError(f'{cls.name}() takes {len(cls.fields)} arguments'), self.loc)
        vals = dict(zip(cls.fields, args))
        for k, v in kw.items():
            if k not in cls.fields or k in vals:
                raise PyExc(TypeError(f'{cls.name}() got an unexpected argument {k!r}'), self.loc)
            vals[k] = v
        for f in cls.fields:
            if f not in vals:
                v, owner = cls.lookup(f)
                if owner is None:
                    raise PyExc(TypeError(f'{cls.name}() missing argument {f!r}'), self.loc)
                if type(v).__name__ == 'Field':
                    import dataclasses as _dc
                    if v.default_factory is not _dc.MISSING:
                        v = self.call(v.default_factory, [], {})
                    else:
                        v = v.default
                vals[f] = v
            inst.attrs[f] = vals[f]
        post, _ = cls.lookup('__post_init__')
        if isinstance(post, AFunc):
            self.call(post, [inst], {})

    # -- JSON ------------------------------------------------------------------------------------------
    def json_encode(self, value, cfg, default):
        """json.JSONEncoder(**cfg).encode(value): a text whose opaque leaves are json.str / json.num holes"""
        cfg = dict(cfg)
        allow_nan = cfg.get('allow_nan', True)
        indent = self.norm(cfg.get('indent'))
        sort_keys = self.truth(cfg.get('sort_keys', False))
        ascii_ = cfg.get('ensure_ascii', True)
        seps = cfg.get('separators')
        if isinstance(indent, Sym):
            raise Unsupported('opaque indent')
        if indent is not None and not isinstance(indent, str):
            if isinstance(indent, float):
                raise PyExc(TypeError("can't multiply sequence by non-int of type 'float'"), self.loc)
            indent = ' ' * int(indent)
        if seps is None:
            seps = (', ', ': ') if indent is None else (',', ': ')
        isep, ksep = seps
        out = []
        active = []

        def fmt(v):
            if isinstance(v, float):
                if v != v or v in (math.inf, -math.inf):
                    if not allow_nan:
                        raise PyExc(ValueError('Out of range float values are not JSON compliant'), self.loc)
                return json.dumps(v)
            return json.dumps(v, ensure_ascii=ascii_)

        def enc(v, lvl):
            v = self.norm(v)
            if isinstance(v, Sym):
                t = self.ty(v)
                v = self.norm(v)
                if not isinstance(v, Sym):
                    return enc(v, lvl)
                if t == 'str':
                    out.append(term('json.str', v, ty='str') if ascii_ is True else term('json.str', v, 'utf8', ty='str'))
                elif t == 'bool':
                    out.append('true' if self.truth(v) else 'false')
                elif t == 'int':
                    out.append(term('str', v, ty='str'))
                elif t == 'float':
                    if self.exc_forks and not allow_nan and self.nd('non-finite number'):
                        raise PyExc(ValueError('Out of range float values are not JSON compliant'), self.loc)
                    if v.op == 'flt':
                        out.append(term('str', v.args[0], ty='str'))
                        out.append('.0')
                    else:
                        out.append(term('str', v, ty='str'))
                elif t in ('list', 'dict'):
                    out.append(term('json', (isep, ksep, indent, lvl if indent is not None else 0, sort_keys), v, ty='str'))
                else:
                    if default is None:
                        raise PyExc(TypeError(f'Object of type {t} is not JSON serializable'), self.loc)
                    enc(self.call(default, [v], {}), lvl)
                return
            if v is None or isinstance(v, (bool, int, float, str)):
                out.append(fmt(v))
                return
            if isinstance(v, (list, tuple, dict)):
                if any(x is v for x in active):
                    raise PyExc(ValueError('Circular reference detected'), self.loc)
                active.append(v)
                isd = isinstance(v, dict)
                if not v:
                    out.append('{}' if isd else '[]')
                    active.pop()
                    return
                out.append('{' if isd else '[')
                nl = '' if indent is None else '\n' + indent * (lvl + 1)
                items = list(v.items()) if isd else [(None, x) for x in v]
                if isd and sort_keys:
                    items = self.sort_list(items, None, False) if not all(isinstance(k, str) for k, _ in items) else sorted(items, key=lambda kv: kv[0])
                first = True
                for k, x in items:
                    if not first:
                        out.append(isep)
                    out.append(nl)
                    first = False
                    if isd:
                        k = self.norm(k)
                        if isinstance(k, Sym):
                            if self.ty(k) != 'str':
                                raise Unsupported('opaque JSON key')
                            out.append(term('json.str', k, ty='str') if ascii_ is True else term('json.str', k, 'utf8', ty='str'))
                        elif isinstance(k, str):
                            out.append(fmt(k))
                        elif k is None or isinstance(k, (bool, int, float)):
                            out.append('"' + fmt(k) + '"')
                        else:
                            raise PyExc(TypeError('keys must be str, int, float, bool or None'), self.loc)
                        out.append(ksep)
                    enc(x, lvl + 1)
                if indent is not None:
                    out.append('\n' + indent * lvl)
                out.append('}' if isd else ']')
                active.pop()
                return
            if default is None:
                raise PyExc(TypeError(f'Object of type {self._tyname(v)} is not JSON serializable'), self.loc)
            if any(x is v for x in active):
                raise PyExc(ValueError('Circular reference detected'), self.loc)
            active.append(v)
            enc(self.call(default, [v], {}), lvl)
            active.pop()
        enc(value, 0)
        return self.concat(*out)

    # -- builtin functions -----------------------------------------------------------------------------
    def b_isinstance(self, args, kw):
        return self.is_instance(args[0], args[1])

    def b_issubclass(self, args, kw):
        a, b = args
        bs = b if isinstance(b, tuple) else (b,)
        if isinstance(a, AClass):
            return any(x in a.mro for x in bs)
        return self.native(issubclass, [a, tuple(x for x in bs if isinstance(x, type))], {})

    def b_len(self, args, kw):
        return self.length(args[0])

    def dt_fields_valid(self, a):
        """The components of an existing date, with time components within their ranges"""
        if len(a) < 3 or not all(isinstance(x, Sym) and x.op == 'dt.' + n for x, n in zip(a[:3], DT_ORDER)) or len({x.args[0] for x in a[:3]}) != 1:
            return False
        for x, n in zip(a[3:7], DT_ORDER[3:]):
            lo, hi = DT_FIELDS[n]
            xlo, xhi = (x, x) if isinstance(x, int) else self._interval(x)
            if xlo < lo or xhi > hi:
                return False
        return True

    def b_range(self, args, kw):
        out = []
        for a in args:
            a = self.norm(a)
            if isinstance(a, Sym):
                t = self.ty(a)
                a = self.norm(a)
                if isinstance(a, Sym):
                    if t not in ('int', 'bool'):
                        raise PyExc(TypeError(f"'{t}' object cannot be interpreted as an integer"), self.loc)
                    if t == 'bool':
                        a = int(self.truth(a))
            elif not isinstance(a, int):
                raise PyExc(TypeError(f"'{self._tyname(a)}' object cannot be interpreted as an integer"), self.loc)
            out.append(a)
        start, stop, step = (0, out[0], 1) if len(out) == 1 else (*out, 1) if len(out) == 2 else out
        if isinstance(step, Sym):
            step = self.concretize(step, -3, 3)
        if step == 0:
            raise PyExc(ValueError('range() arg 3 must not be zero'), self.loc)
        if isinstance(start, Sym) or isinstance(stop, Sym):
            # nothing to count; or the distance is decided; the ends themselves need not be
            if not self.decide('<' if step > 0 else '>', start, stop):
                return range(0)
            if isinstance(start, Sym) and isinstance(stop, Sym) or isinstance(start, Sym) and not -20 < stop < 20 or isinstance(stop, Sym) and not -20 < start < 20:
                lo, hi = self._interval(start) if isinstance(start, Sym) else (start, start)
                start = self.concretize(start, -6 if lo < -20 else lo, 6 if hi > 20 else hi)
            if isinstance(start, Sym):
                lo, hi = self._interval(start)
                start = self.concretize(start, lo if lo > -20 else min(stop, 0) - 6, hi if hi < 20 else max(stop, 0) + 6)
            if isinstance(stop, Sym):
                lo, hi = self._interval(stop)
                stop = self.concretize(stop, lo if lo > -20 else min(start, 0) - 6, hi if hi < 20 else max(start, 0) + 6)
        r = self.native(range, [int(start), int(stop), int(step)], {})
        if isinstance(r, range) and abs(r.stop - r.start) // abs(r.step) > 1000000:
            raise Unsupported('huge range')
        if len(r) > 200000:
            raise Unsupported('huge range')
        return r

    def b_str(self, args, kw):
        if len(args) > 1 or kw:
            return self.native(str, args, kw)
        return self.str_of(args[0]) if args else ''

    def b_repr(self, args, kw):
        return self.repr_of(args[0])

    def b_format(self, args, kw):
        return self.format_of(args[0], args[1] if len(args) > 1 else '')

    def b_int(self, args, kw):
        if args and isinstance(args[0], AInst):
            for n in ('__int__', '__index__'):
                if self.inst_method(args[0], n) is not None:
                    return self.call(self.inst_method(args[0], n), [], {})
        if not args:
            return 0
        v = self.norm(args[0])
        base = self.norm(args[1]) if len(args) > 1 else self.norm(kw.get('base'))
        if isinstance(v, Sym) or isinstance(base, Sym):
            t = self.ty(v)
            v = self.norm(v)
            if not isinstance(v, Sym) and not isinstance(base, Sym):
                return self.b_int([v] + list(args[1:]), kw)
            if base is not None:
                if not self.types_of(base) & {'int', 'bool'}:
                    raise PyExc(TypeError(f"'{self._tyname(base)}' object cannot be interpreted as an integer"), self.loc)
                if t != 'str':
                    raise PyExc(TypeError("int() can't convert non-string with explicit base"), self.loc)
            if t == 'int':
                return v
            if t == 'bool':
                return term('int', v, ty='int')
            if t == 'float':
                u = self._unflt(v)
                if self.ty(u) == 'int':
                    return u
                if self.exc_forks or v.op in ('float', 'nonfinite'):
                    if self.truth(term('isnan', v, ty='bool')):
                        raise PyExc(ValueError('cannot convert float NaN to integer'), self.loc)
                    if self.truth(term('isinf', v, ty='bool')):
                        raise PyExc(OverflowError('cannot convert float infinity to integer'), self.loc)
                return term('int', v, ty='int')
            if t == 'str':
                if isinstance(v, Sym) and v.op == 'str' and self.ty(v.args[0]) == 'int' and base in (None, 10):
                    return v.args[0]
                if not self._digits(v) and not self.truth(term('is-int-text', v, base if base is not None else 10, ty='bool')):
                    raise PyExc(ValueError('invalid literal for int() with base 10'), self.loc)
                return term('int', v, base if base is not None else 10, ty='int')
            raise PyExc(TypeError(f"int() argument must be a string, a bytes-like object or a real number, not '{t}'"), self.loc)
        if isinstance(v, (ACallable, AInst)):
            raise PyExc(TypeError('int() argument must be a string or a number'), self.loc)
        if isinstance(v, str) and len(v) > 4000:
            raise Unsupported('huge integer')
        a = [v] if base is None else [v, base]
        return self.native(int, a, {})

    def _digits(self, v):
        if isinstance(v, Sym) and v.op == 'group':
            return regexlang.group_is_digits(v.args[0], v.args[1], v.args[4])
        if isinstance(v, Sym) and v.op == 'substr':
            return False
        return False

    def b_float(self, args, kw):
        if args and isinstance(args[0], AInst) and self.inst_method(args[0], '__float__') is not None:
            return self.call(self.inst_method(args[0], '__float__'), [], {})
        if not args:
            return 0.0
        v = self.norm(args[0])
        if isinstance(v, Sym):
            t = self.ty(v)
            v = self.norm(v)
            if not isinstance(v, Sym):
                return self.b_float([v], kw)
            if t == 'float':
                return v
            if t == 'int':
                if self.exc_forks and self.nd(f'{show(v)} too large for a float'):
                    raise PyExc(OverflowError('int too large to convert to float'), self.loc)
                return term('flt', v, ty='float')
            if t == 'bool':
                return 1.0 if self.truth(v) else 0.0
            if t == 'str':
                if v.op == 'str' and self.ty(v.args[0]) == 'float':
                    return v.args[0]
                if not self.truth(term('is-float-text', v, ty='bool')):
                    raise PyExc(ValueError('could not convert string to float'), self.loc)
                return term('float', v, ty='float')
            raise PyExc(TypeError(f"float() argument must be a string or a real number, not '{t}'"), self.loc)
        if isinstance(v, (ACallable, AInst)):
            raise PyExc(TypeError('float() argument must be a string or a number'), self.loc)
        return self.native(float, [v], {})

    def b_bool(self, args, kw):
        return self.truth(args[0]) if args else False

    def b_abs(self, args, kw):
        v = self.norm(args[0])
        if isinstance(v, Sym):
            t = self.ty(v)
            if t not in NUM:
                raise PyExc(TypeError(f"bad operand type for abs(): '{t}'"), self.loc)
            if t == 'bool':
                return term('int', v, ty='int')
            return self.unary('-', v) if self.decide('<', v, 0) else v
        if isinstance(v, (ACallable, AInst)):
            raise PyExc(TypeError('bad operand type for abs()'), self.loc)
        return self.native(abs, [v], {})

    def b_round(self, args, kw):
        v = self.norm(args[0])
        nd = self.norm(args[1]) if len(args) > 1 else self.norm(kw.get('ndigits'))
        if isinstance(v, Sym) or isinstance(nd, Sym):
            if nd is not None and not self.types_of(nd) & {'int', 'bool', 'none'}:
                raise PyExc(TypeError(f"'{self._tyname(nd)}' object cannot be interpreted as an integer"), self.loc)
            if not self.types_of(v) & set(NUM):
                raise PyExc(TypeError("type doesn't define __round__ method"), self.loc)
            u = self._unflt(v)
            if nd is None or nd == 0:
                if self.ty(u) == 'int':
                    return u if nd is None or self.ty(v) == 'int' else v
            return term('round', u, _hk(nd), ty='int' if nd is None or self.ty(v) == 'int' else 'float')
        a = [v] if nd is None else [v, nd]
        return self.native(round, a, {})

    def b_callable(self, args, kw):
        v = self.norm(args[0])
        if isinstance(v, Sym):
            return self._has_type(v, frozenset(('func',)))
        if isinstance(v, AInst):
            return isinstance(v.cls, AClass) and v.cls.lookup('__call__')[1] is not None and isinstance(v.cls.lookup('__call__')[0], AFunc)
        return isinstance(v, ACallable) or callable(v)

    def b_type(self, args, kw):
        if len(args) != 1:
            raise Unsupported('type()')
        v = self.norm(args[0])
        if isinstance(v, AInst):
            return v.cls
        if isinstance(v, Sym):
            t = self.ty(v)
            m = {'int': int, 'float': float, 'str': str, 'bool': bool, 'none': type(None), 'list': list, 'dict': dict, 'regex': re.Pattern,
                 'datetime': datetime.datetime, 'datetime_aware': datetime.datetime, 'date': datetime.date, 'func': _types.FunctionType,
                 'tuple': tuple, 'timedelta': datetime.timedelta}
            if t in m:
                return m[t]
            raise Unsupported('type of opaque value')
        if isinstance(v, ACallable):
            return functools.partial if isinstance(v, APartial) else _types.FunctionType
        return type(v)

    def b_list(self, args, kw):
        return list(self.iterate(args[0])) if args else []

    def b_tuple(self, args, kw):
        return tuple(self.iterate(args[0])) if args else ()

    def b_set(self, args, kw):
        return self.make_set(args[0]) if args else set()

    def b_frozenset(self, args, kw):
        return frozenset(self.make_set(args[0])) if args else frozenset()

    def b_dict(self, args, kw):
        d = {}
        for a in args:
            self.dict_update(d, a)
        for k, v in kw.items():
            self.dict_set(d, k, v)
        return d

    def b_enumerate(self, args, kw):
        return enumerate(self.iterate(args[0]), args[1] if len(args) > 1 else kw.get('start', 0))

    def b_zip(self, args, kw):
        kw = dict(kw)
        return zip(*[self.iterate(a) for a in args], **kw)

    def b_map(self, args, kw):
        f = args[0]
        return (self.call(f, list(xs), {}) for xs in zip(*[self.iterate(a) for a in args[1:]]))

    def b_filter(self, args, kw):
        f = args[0]
        return (x for x in self.iterate(args[1]) if self.truth(x if f is None else self.call(f, [x], {})))

    def b_reversed(self, args, kw):
        v = self.norm(args[0])
        if isinstance(v, (list, tuple, range, dict, str)) or isinstance(v, collections.deque):
            return self.native(reversed, [v], {})
        if isinstance(v, AInst):
            m = self.inst_method(v, '__reversed__')
            if m is not None:
                return self.iterate(self.call(m, [], {}))
            if self.inst_method(v, '__len__') is not None:
                raise Unsupported('reversed of an instance')
        if isinstance(v, Sym):
            raise Unsupported('reversed opaque')
        raise PyExc(TypeError('object is not reversible'), self.loc)

    def b_iter(self, args, kw):
        if len(args) == 1:
            v = self.iterate(args[0])
            return iter(v)
        if len(args) == 2:
            def until(fn, end):
                while True:
                    v = self.call(fn, [], {})
                    if self.truth(self.eq(v, end)):
                        return
                    yield v
            return until(*args)
        raise Unsupported('iter')

    def b_next(self, args, kw):
        v = args[0]
        if isinstance(v, AInst):
            m = self.inst_method(v, '__next__')
            try:
                return self.call(m, [], {})
            except PyExc as e:
                if isinstance(e.inst, StopIteration) and len(args) > 1:
                    return args[1]
                raise
        if not hasattr(v, '__next__'):
            raise PyExc(TypeError(f"'{self._tyname(v)}' object is not an iterator"), self.loc)
        try:
            return next(v)
        except StopIteration:
            if len(args) > 1:
                return args[1]
            raise PyExc(StopIteration(), self.loc) from None
        except RuntimeError as e:
            raise PyExc(e, self.loc)

    def b_any(self, args, kw):
        return any(self.truth(x) for x in self.iterate(args[0]))

    def b_all(self, args, kw):
        return all(self.truth(x) for x in self.iterate(args[0]))

    def b_sum(self, args, kw):
        acc = args[1] if len(args) > 1 else kw.get('start', 0)
        for x in self.iterate(args[0]):
            acc = self.binop('+', acc, x)
        return acc

    def _minmax(self, args, kw, op):
        items = list(self.iterate(args[0])) if len(args) == 1 else list(args)
        key = kw.get('key')
        if not items:
            if 'default' in kw:
                return kw['default']
            raise PyExc(ValueError('iterable argument is empty'), self.loc)
        best = items[0]
        bk = self.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            xk = self.call(key, [x], {}) if key is not None else x
            if self.truth(self.compare(op, xk, bk)):
                best, bk = x, xk
        return best

    def b_min(self, args, kw):
        return self._minmax(args, kw, '<')

    def b_max(self, args, kw):
        return self._minmax(args, kw, '>')

    def b_sorted(self, args, kw):
        return self.sort_list(list(self.iterate(args[0])), kw.get('key'), self.truth(kw.get('reverse', False)))

    def b_getattr(self, args, kw):
        try:
            return self.getattr(args[0], args[1])
        except PyExc as e:
            if len(args) > 2 and isinstance(e.inst, AttributeError):
                return args[2]
            raise

    def b_hasattr(self, args, kw):
        try:
            self.getattr(args[0], args[1])
            return True
        except PyExc as e:
            if isinstance(e.inst, AttributeError):
                return False
            raise

    def b_setattr(self, args, kw):
        self.setattr(*args)

    def b_print(self, args, kw):
        self.effect('print', tuple(args))
        return None

    def b_id(self, args, kw):
        v = args[0]
        return term('id', _hk(v), ty='int') if isinstance(v, Sym) else term('id', id(v), ty='int')

    def b_hash(self, args, kw):
        self.hashable(args[0])
        return term('hash', _hk(args[0]), ty='int')

    def b_ord(self, args, kw):
        v = self.norm(args[0])
        if isinstance(v, Sym):
            if self.ty(v) != 'str':
                raise PyExc(TypeError('ord() expected string of length 1'), self.loc)
            return term('ord', v, ty='int')
        return self.native(ord, [v], {})

    def b_chr(self, args, kw):
        v = self.norm(args[0])
        if isinstance(v, Sym):
            t = self.ty(v)
            if t not in ('int', 'bool'):
                raise PyExc(TypeError(f"'{t}' object cannot be interpreted as an integer"), self.loc)
            if v.op == 'ord':
                return v.args[0]
            if self.exc_forks and self.nd('chr() out of range'):
                raise PyExc(ValueError('chr() arg not in range(0x110000)'), self.loc)
            return term('chr', v, ty='str')
        return self.native(chr, [v], {})

    def b_pow(self, args, kw):
        if len(args) == 2:
            return self.binop('**', args[0], args[1])
        return self.native(pow, args, kw)

    def b_divmod(self, args, kw):
        return (self.binop('//', *args), self.binop('%', *args))

    def b_open(self, args, kw):
        self.effect('io', 'open', tuple(_hk(a) for a in args))
        raise Unsupported('open')

    def b_property(self, args, kw):
        return AProp(args[0])

    def b_super(self, args, kw):
        return ASuper(args[0], args[1])

    def b_partial(self, args, kw):
        return APartial(args[0], list(args[1:]), dict(kw))

    def b_cmp_to_key(self, args, kw):
        return AKeyMaker(args[0])

    def b_reduce(self, args, kw):
        it = iter(self.iterate(args[1]))
        if len(args) > 2:
            acc = args[2]
        else:
            try:
                acc = next(it)
            except StopIteration:
                raise PyExc(TypeError('reduce() of empty iterable with no initial value'), self.loc) from None
        for x in it:
            acc = self.call(args[0], [acc, x], {})
        return acc

    def b_singledispatch(self, args, kw):
        return ADispatch(args[0])

    def b_identity(self, args, kw):
        return args[0]

    def b_typing(self, args, kw):
        return typing.Any

    def b_newtype(self, args, kw):
        return HostFn(args[0], lambda it, a, k: a[0])

    def b_assert_never(self, args, kw):
        raise PyExc(AssertionError('Expected code to be unreachable'), self.loc)

    def b_auto(self, args, kw):
        return enum.auto()

    def b_logger(self, args, kw):
        return ALogger()

    def b_noop(self, args, kw):
        return None

    def b_wraps(self, args, kw):
        return HostFn('wraps', lambda it, a, k: a[0])

    def b_lru_cache(self, args, kw):
        if args and isinstance(args[0], (AFunc, ABound)):
            return ACache(args[0])
        return HostFn('lru_cache', lambda it, a, k: ACache(a[0]))

    def b_contextmanager(self, args, kw):
        return CtxMaker(args[0])

    def b_dataclass(self, args, kw):
        if args:
            return self.decorate_class(_DATACLASS, args[0])

        def deco(it, a, k):
            cls = it.decorate_class(_DATACLASS, a[0])
            cls.ordered = kw.get('order') is True
            if kw.get('eq') is False:
                cls.compared = None
            return cls
        return HostFn('dataclass-made', deco)

    def b_dc_replace(self, args, kw):
        o = args[0]
        if not isinstance(o, AInst) or not isinstance(o.cls, AClass) or o.cls.fields is None:
            raise Unsupported('dataclasses.replace')
        return self.call(o.cls, [], {**{f: o.attrs[f] for f in o.cls.fields}, **kw})

    def b_dc_asdict(self, args, kw):
        def conv(v):
            if isinstance(v, AInst) and isinstance(v.cls, AClass) and v.cls.fields is not None:
                return {f: conv(v.attrs[f]) for f in v.cls.fields}
            if isinstance(v, (list, tuple)):
                return type(v)(conv(x) for x in v)
            return {conv(k): conv(x) for k, x in v.items()} if isinstance(v, dict) else v
        if kw:
            raise Unsupported('asdict')
        return conv(args[0])

    def b_field(self, args, kw):
        import dataclasses as _dc
        return _dc.field(**kw)

    def b_import_module(self, args, kw):
        name = args[0]
        if isinstance(name, str):
            if name.startswith('.'):
                return self.import_module(name.lstrip('.'), 1, self.modules[args[1]] if len(args) > 1 and args[1] in self.modules else AModule(self.package + '.x', '', {}))
            return self.import_module(name, 0, None)
        raise Unsupported('import_module')

    def b_re_compile(self, args, kw):
        p = self.norm(args[0])
        flags = self.norm(args[1]) if len(args) > 1 else self.norm(kw.get('flags', 0))
        if isinstance(p, re.Pattern):
            return p
        if isinstance(p, str) and isinstance(flags, int):
            return self.native(re.compile, [p, flags], {})
        if not self.types_of(p) & {'str', 'regex'}:
            raise PyExc(TypeError('first argument must be string or compiled pattern'), self.loc)
        if isinstance(p, Sym) and self.types_of(p) == {'regex'}:
            return p
        if self.exc_forks and self.nd('invalid pattern'):
            raise PyExc(re.error('bad pattern'), self.loc)
        return term('re.compile', p, _hk(flags), ty='regex')

    def _re_fn(self, name, args, kw):
        n = {'sub': 3, 'subn': 3, 'split': 2, 'findall': 2, 'finditer': 2, 'match': 2, 'search': 2, 'fullmatch': 2}[name]
        kw = dict(kw)
        flags = kw.pop('flags', 0)
        if name in ('match', 'search', 'fullmatch', 'findall', 'finditer') and len(args) > 2:
            flags = args[2]
            args = args[:2]
        p = self.b_re_compile([args[0], flags], {})
        return self.regex_call(p, name, list(args[1:]), kw)

    def b_re_match(self, args, kw):
        return self._re_fn('match', args, kw)

    def b_re_search(self, args, kw):
        return self._re_fn('search', args, kw)

    def b_re_fullmatch(self, args, kw):
        return self._re_fn('fullmatch', args, kw)

    def b_re_sub(self, args, kw):
        return self._re_fn('sub', args, kw)

    def b_re_split(self, args, kw):
        return self._re_fn('split', args, kw)

    def b_re_findall(self, args, kw):
        return self._re_fn('findall', args, kw)

    def b_re_finditer(self, args, kw):
        return self._re_fn('finditer', args, kw)

    def b_re_escape(self, args, kw):
        s = self.norm(args[0])
        if isinstance(s, str):
            return re.escape(s)
        if self.ty(s) != 'str':
            raise PyExc(TypeError('expected string'), self.loc)
        return term('re.escape', s, ty='str')

    def b_json_dumps(self, args, kw):
        kw = dict(kw)
        cls = kw.pop('cls', None)
        default = kw.pop('default', None)
        if cls is not None:
            inst = self.call(cls, [], kw)
            return self.call_method(inst, 'encode', [args[0]], {})
        return self.json_encode(args[0], kw, default)

    def b_json_loads(self, args, kw):
        s = self.norm(args[0])
        if isinstance(s, str) and deep_concrete(kw):
            return self.native(json.loads, [s], kw)
        if isinstance(s, Sym):
            if self.ty(s) != 'str':
                raise PyExc(TypeError('the JSON object must be str, bytes or bytearray'), self.loc)
            if not kw:
                found, v = self.json_template(s)
                if found:
                    return v
            if self.truth(term('is-json', s, ty='bool')):
                return term('json.loads', s, *[(k, _hk(v)) for k, v in sorted(kw.items())], ty='any')
            raise PyExc(json.JSONDecodeError('Expecting value', '', 0), self.loc)
        raise PyExc(TypeError('the JSON object must be str'), self.loc)

    def json_template(self, s, hook=None):
        """Decode a text made of constant JSON pieces and exactly encoded opaque leaves: (True, value) or (False, None)"""
        pieces = s.args if s.op == 'concat' else (s,)
        out, holes = [], {}
        for p in pieces:
            if isinstance(p, str):
                out.append(p)
                continue
            if not isinstance(p, Sym):
                return False, None
            i = len(holes)
            if p.op == 'json.str':
                mark = f'\ue000{i}\ue001'
                out.append(f'"{mark}"')
                holes[mark] = p.args[0]
            elif p.op in ('str', 'repr') and self.types_of(p.args[0]) <= {'int', 'float'} or p.op == 'fmt' and p.args[1] in ('.0f', '0.0f') and self.known('==', term('int', p.args[0], ty='int'), p.args[0]):
                mark = 918273645000 + i
                out.append(str(mark))
                holes[mark] = p.args[0]
            else:
                return False, None
        text = ''.join(out)
        try:
            v = json.loads(text, object_pairs_hook=hook)
        except ValueError:
            return False, None
        used = []

        def back(x):
            if isinstance(x, list):
                return type(x)(back(y) for y in x)
            if isinstance(x, tuple):
                return tuple(back(y) for y in x)
            if isinstance(x, dict):
                return {back(k): back(y) for k, y in x.items()}
            if isinstance(x, (str, int, float)) and not isinstance(x, bool) and x in holes:
                h = holes[x]
                if isinstance(x, float):
                    if self.ty(h) != 'int':
                        return x
                    h = term('flt', h, ty='float')
                used.append(x)
                return h
            return x
        v = back(v)
        if len(used) != len(holes):
            return False, None
        return True, v

    def b_copy(self, args, kw):
        v = args[0]
        if isinstance(v, AInst):
            return AInst(v.cls, dict(v.attrs))
        if isinstance(v, (Sym, ACallable)):
            return v
        return copy.copy(v)

    def b_deepcopy(self, args, kw):
        return self._deepcopy(args[0], {})

    def _deepcopy(self, v, memo):
        if id(v) in memo:
            return memo[id(v)]
        if type(v) is list:
            r = memo[id(v)] = []
            r.extend(self._deepcopy(x, memo) for x in v)
            return r
        if type(v) is dict:
            r = memo[id(v)] = {}
            for k, x in v.items():
                r[k] = self._deepcopy(x, memo)
            return r
        if type(v) is tuple:
            return tuple(self._deepcopy(x, memo) for x in v)
        if isinstance(v, AInst):
            r = memo[id(v)] = AInst(v.cls)
            r.attrs = {k: self._deepcopy(x, memo) for k, x in v.attrs.items()}
            return r
        return v

    def b_op(name):   # operator module functions
        def f(self, args, kw):
            if name in ('<', '<=', '==', '!=', '>', '>='):
                return self.compare(name, args[0], args[1])
            if name == 'not':
                return self.unary('not', args[0])
            if name == 'neg':
                return self.unary('-', args[0])
            if name == 'getitem':
                return self.getitem(args[0], args[1])
            if name == 'truth':
                return self.truth(args[0])
            if name == 'contains':
                return self.contains(args[0], args[1])
            return self.binop(name, args[0], args[1])
        return f
    o_lt, o_le, o_eq, o_ne, o_gt, o_ge = b_op('<'), b_op('<='), b_op('=='), b_op('!='), b_op('>'), b_op('>=')
    o_add, o_sub, o_mul, o_div, o_fdiv, o_mod, o_pow = b_op('+'), b_op('-'), b_op('*'), b_op('/'), b_op('//'), b_op('%'), b_op('**')
    o_not, o_neg, o_getitem, o_truth, o_contains = b_op('not'), b_op('neg'), b_op('getitem'), b_op('truth'), b_op('contains')

    def b_namedtuple(self, args, kw):
        return self.native(collections.namedtuple, args, kw)

    def b_typing_passthrough(self, args, kw):
        return args[-1] if args else None

    def b_islice(self, args, kw):
        return itertools.islice(self.iterate(args[0]), *[self.concretize(a, 0, 20) if a is not None else None for a in args[1:]])

    def b_takewhile(self, args, kw):
        return itertools.takewhile(lambda x: self.truth(self.call(args[0], [x], {})), self.iterate(args[1]))

    def b_dropwhile(self, args, kw):
        return itertools.dropwhile(lambda x: self.truth(self.call(args[0], [x], {})), self.iterate(args[1]))

    def b_filterfalse(self, args, kw):
        return (x for x in self.iterate(args[1]) if not self.truth(self.call(args[0], [x], {}) if args[0] is not None else x))

    def b_groupby(self, args, kw):
        key = args[1] if len(args) > 1 else kw.get('key')
        groups = []
        for x in self.iterate(args[0]):
            k = self.call(key, [x], {}) if key is not None else x
            if groups and self.truth(self.eq(groups[-1][0], k)):
                groups[-1][1].append(x)
            else:
                groups.append((k, [x]))
        return iter([(k, iter(g)) for k, g in groups])

    def b_attr_noop(self, args, kw):
        return None


def _dataclass_marker(cls):
    return cls


_dataclass_marker.__name__ = 'dataclass'
_DATACLASS = _dataclass_marker
_OBJECT = AClass('object', [], {}, None)
_NAMESPACE = AClass('SimpleNamespace', [], {}, None)
_JSON_CLASSES = {}


def _json_encoder_class(cls):
    if cls not in _JSON_CLASSES:
        _JSON_CLASSES[cls] = AClass(cls.__name__, [cls], {}, None)
    return _JSON_CLASSES[cls]


def _hashable_native(f):
    try:
        hash(f)
        return not isinstance(f, (Sym,))
    except TypeError:
        return False


def _hk(v):
    """v as a term argument"""
    if isinstance(v, list):
        return ('list', tuple(_hk(x) for x in v))
    if isinstance(v, tuple):
        return tuple(_hk(x) for x in v)
    if isinstance(v, dict):
        return ('dict', tuple((_hk(k), _hk(x)) for k, x in v.items()))
    if isinstance(v, (AInst, AMatch, ASchema, ACallable)) or isinstance(v, slice):
        return ('obj', id(v))
    return v


def _mk(m):
    return (m.re.pattern, m.re.flags, m.how) if isinstance(m.re, re.Pattern) else (m.re, m.how)


def _live(v):
    if isinstance(v, list):
        return _grow(v)
    if isinstance(v, (set, frozenset)) and len(v) > 1:
        return iter(_unordered(v))
    return iter(v)


def _grow(v):
    """A list's iterator; a loop that keeps the list growing ahead of it has no end"""
    n = len(v)
    i = 0
    for x in v:
        i += 1
        if i > n + 3000 and len(v) - i >= n - 1:
            raise Endless('the loop goes over a list that it keeps growing')
        yield x


def set_order(v):
    """The elements of a set in the order of this run: not fixed for strings, whose hashes differ from process to process"""
    try:
        out = sorted(v, key=lambda x: (type(x).__name__, x if isinstance(x, (str, int, float)) else repr(x)))
    except TypeError:
        out = sorted(v, key=lambda x: (type(x).__name__, repr(x)))
    if CUR[0] is not None and CUR[0].set_flip and not all(isinstance(x, (int, float)) for x in v):
        out.reverse()
    return out


def _unordered(v):
    n = len(v)
    for x in set_order(v):
        if len(v) != n:
            raise PyExc(RuntimeError('Set changed size during iteration'))
        yield x


import dataclasses as _dataclasses  # noqa: E402

BUILTINS = {
    isinstance: 'b_isinstance', issubclass: 'b_issubclass', len: 'b_len', range: 'b_range', str: 'b_str', repr: 'b_repr', format: 'b_format',
    int: 'b_int', float: 'b_float', bool: 'b_bool', abs: 'b_abs', round: 'b_round', callable: 'b_callable', type: 'b_type', list: 'b_list',
    tuple: 'b_tuple', set: 'b_set', frozenset: 'b_frozenset', dict: 'b_dict', enumerate: 'b_enumerate', zip: 'b_zip', map: 'b_map',
    filter: 'b_filter', reversed: 'b_reversed', iter: 'b_iter', next: 'b_next', any: 'b_any', all: 'b_all', sum: 'b_sum', min: 'b_min',
    max: 'b_max', sorted: 'b_sorted', getattr: 'b_getattr', hasattr: 'b_hasattr', setattr: 'b_setattr', print: 'b_print', id: 'b_id',
    hash: 'b_hash', ord: 'b_ord', chr: 'b_chr', pow: 'b_pow', divmod: 'b_divmod', open: 'b_open', property: 'b_property', super: 'b_super',
    functools.partial: 'b_partial', functools.cmp_to_key: 'b_cmp_to_key', functools.reduce: 'b_reduce', functools.wraps: 'b_wraps',
    functools.lru_cache: 'b_lru_cache', functools.cache: 'b_lru_cache', contextlib.contextmanager: 'b_contextmanager',
    _dataclasses.dataclass: 'b_dataclass', _dataclasses.field: 'b_field',
    __import__('importlib').import_module: 'b_import_module',
    re.compile: 'b_re_compile', re.match: 'b_re_match', re.search: 'b_re_search', re.fullmatch: 'b_re_fullmatch', re.sub: 'b_re_sub',
    re.split: 'b_re_split', re.findall: 'b_re_findall', re.finditer: 'b_re_finditer', re.escape: 'b_re_escape',
    json.dumps: 'b_json_dumps', json.loads: 'b_json_loads', copy.copy: 'b_copy', copy.deepcopy: 'b_deepcopy',
    operator.lt: 'o_lt', operator.le: 'o_le', operator.eq: 'o_eq', operator.ne: 'o_ne', operator.gt: 'o_gt', operator.ge: 'o_ge',
    operator.add: 'o_add', operator.sub: 'o_sub', operator.mul: 'o_mul', operator.truediv: 'o_div', operator.floordiv: 'o_fdiv',
    operator.mod: 'o_mod', operator.pow: 'o_pow', operator.not_: 'o_not', operator.neg: 'o_neg', operator.getitem: 'o_getitem',
    operator.truth: 'o_truth', operator.contains: 'o_contains', math.pow: 'o_pow',
    collections.namedtuple: 'b_namedtuple', typing.cast: 'b_typing_passthrough', itertools.islice: 'b_islice',
    _dataclasses.replace: 'b_dc_replace', _dataclasses.asdict: 'b_dc_asdict',
    functools.singledispatch: 'b_singledispatch', abc.abstractmethod: 'b_identity', typing.overload: 'b_identity', typing.final: 'b_identity',
    typing.no_type_check: 'b_identity', typing.runtime_checkable: 'b_identity', typing.override: 'b_identity',
    logging.getLogger: 'b_logger', logging.debug: 'b_noop', logging.info: 'b_noop', logging.warning: 'b_noop', logging.error: 'b_noop',
    logging.exception: 'b_noop', logging.log: 'b_noop', typing.assert_never: 'b_assert_never',
    typing.TypeVar: 'b_typing', typing.NewType: 'b_newtype', typing.ParamSpec: 'b_typing',
    enum.auto: 'b_auto',
    itertools.takewhile: 'b_takewhile', itertools.dropwhile: 'b_dropwhile', itertools.filterfalse: 'b_filterfalse', itertools.groupby: 'b_groupby',
}
del BUILTINS[math.pow]
