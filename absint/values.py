"""Abstract values of the analyser.

Known scalars and containers are represented by Python's own scalars and containers (whose elements may be
abstract); everything unknown is a `Sym`: an interned term over opaque symbols, with a Python type tag.
Nothing here (or anywhere in /verif) imports, compiles or executes code of the analysed repository.
"""

import datetime
import re
import types

CUR = [None]   # the active interpreter (for native operations that touch abstract values)


class Unsupported(BaseException):
    """The analysis gives up on this path: the cell is undecided."""


class Diverged(Unsupported):
    """Step budget exhausted on this path."""


class Endless(BaseException):
    """The analysed program does not end on this path."""


class PyExc(Exception):
    """The analysed program raises `inst` on this path."""

    def __init__(self, inst, loc=None):
        super().__init__(inst)
        self.inst = inst
        self.loc = loc


NoneType = type(None)

TY_NATIVE = {
    'none': NoneType, 'bool': bool, 'int': int, 'float': float, 'str': str, 'bytes': bytes,
    'datetime': datetime.datetime, 'datetime_aware': datetime.datetime, 'date': datetime.date,
    'timedelta': datetime.timedelta,
    'list': list, 'dict': dict, 'tuple': tuple, 'func': types.FunctionType, 'regex': re.Pattern, 'match': re.Match,
    'object': object, 'complex': complex,
}
ALL_TYPES = frozenset(['none', 'bool', 'int', 'float', 'str', 'datetime', 'datetime_aware', 'date', 'list', 'dict', 'func', 'regex'])
NUM = ('int', 'float', 'bool')


class Sym:
    """An interned opaque symbol or term"""
    __slots__ = ('op', 'args', 'ty', '_h', '_r', '_d', '__weakref__')
    _intern = {}

    def __new__(cls, op, args=(), ty='any'):
        key = (op, ty, tuple((type(a).__name__, a) for a in args))
        try:
            r = cls._intern.get(key)
        except TypeError:
            # unhashable argument: key by identity
            key = (op, ty, tuple((type(a).__name__, a if _hashable(a) else ('id', id(a), _Keep(a))) for a in args))
            r = cls._intern.get(key)
        if r is None:
            r = object.__new__(cls)
            r.op = op
            r.args = tuple(args)
            r.ty = ty
            r._h = hash(key)
            r._r = None
            r._d = 1 + max((a._d for a in args if isinstance(a, Sym)), default=0)
            if r._d > 60:
                raise Diverged('a term grows without bound')
            cls._intern[key] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        if not self.args:
            return str(self.op)
        r = self._r
        if r is None:
            r = f'{self.op}({", ".join(show(a) for a in self.args)})'
            if len(r) > 3000:
                # terms share sub-terms: keep the text of a long one bounded (and distinct)
                r = f'{r[:1500]}...#{self._h & 0xffffffffff:x}'
            if all(isinstance(a, (Sym, str, int, float, bool, type(None))) for a in self.args):
                self._r = r
        return r

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # Native operations on abstract values are routed to the interpreter
    def __bool__(self):
        return CUR[0].truth(self)

    def __lt__(self, o):
        return CUR[0].truth(CUR[0].compare('<', self, o))

    def __le__(self, o):
        return CUR[0].truth(CUR[0].compare('<=', self, o))

    def __gt__(self, o):
        return CUR[0].truth(CUR[0].compare('>', self, o))

    def __ge__(self, o):
        return CUR[0].truth(CUR[0].compare('>=', self, o))

    def __add__(self, o):
        return CUR[0].binop('+', self, o)

    def __radd__(self, o):
        return CUR[0].binop('+', o, self)

    def __sub__(self, o):
        return CUR[0].binop('-', self, o)

    def __rsub__(self, o):
        return CUR[0].binop('-', o, self)

    def __mul__(self, o):
        return CUR[0].binop('*', self, o)

    def __rmul__(self, o):
        return CUR[0].binop('*', o, self)

    def __call__(self, *args, **kwargs):
        return CUR[0].call(self, list(args), kwargs)


class _Keep:
    def __init__(self, o):
        self.o = o

    def __hash__(self):
        return id(self.o)

    def __eq__(self, other):
        return isinstance(other, _Keep) and self.o is other.o


def _hashable(a):
    try:
        hash(a)
        return True
    except TypeError:
        return False


def sym(name, ty='any'):
    return Sym(name, (), ty)


def term(op, *args, ty='any'):
    return Sym(op, args, ty)


def show(v, depth=0):
    """Readable rendering of an abstract value"""
    if depth > 6:
        return '...'
    if isinstance(v, Sym):
        return repr(v)
    if isinstance(v, dict):
        return '{' + ', '.join(f'{show(k, depth + 1)}: {show(x, depth + 1)}' for k, x in v.items()) + '}'
    if isinstance(v, list):
        return '[' + ', '.join(show(x, depth + 1) for x in v) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, depth + 1) for x in v) + ')'
    return repr(v)


def is_abs(v):
    return isinstance(v, Sym)


def deep_concrete(v, seen=None):
    """True if v contains no abstract value"""
    if isinstance(v, (Sym, ACallable, AInst, AKey, AModule)):
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        if seen is None:
            seen = set()
        if id(v) in seen:
            return True
        seen.add(id(v))
        return all(deep_concrete(x, seen) for x in v)
    if isinstance(v, dict):
        if seen is None:
            seen = set()
        if id(v) in seen:
            return True
        seen.add(id(v))
        return all(deep_concrete(k, seen) and deep_concrete(x, seen) for k, x in v.items())
    return True


class ACallable:
    """Base of abstract callables: natively callable through the active interpreter"""

    def __call__(self, *args, **kwargs):
        return CUR[0].call(self, list(args), kwargs)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class AFunc(ACallable):
    """A function of the analysed program"""

    def __init__(self, node, module, frame, name, info, defaults, kw_defaults):
        self.node = node
        self.module = module
        self.frame = frame        # defining frame (closure)
        self.name = name
        self.info = info          # FuncInfo
        self.defaults = defaults
        self.kw_defaults = kw_defaults
        self.owner = None         # the defining class
        self.attrs = {}

    def __repr__(self):
        return f'<fn {self.name}>'


class APartial(ACallable):
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.keywords = kwargs

    def __repr__(self):
        return f'<partial {self.func!r} {len(self.args)}>'


class ABound(ACallable):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return f'<bound {self.func!r}>'


class AMethod(ACallable):
    """A method of an abstract value: handled by the interpreter's models"""

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return f'<method {self.obj!r}.{self.name}>'


class HostFn(ACallable):
    """A host function supplied by a check: fn(interp, args, kwargs)"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'<host {self.name}>'


class HostObj(ACallable):
    """An object supplied by a check (a file, a namespace): attributes only"""

    def __init__(self, name, **attrs):
        self.name = name
        self.attrs = attrs

    def __repr__(self):
        return f'<{self.name}>'


class AKey:
    """functools.cmp_to_key wrapper"""

    def __init__(self, fn, value):
        self.fn = fn
        self.value = value

    def __lt__(self, other):
        it = CUR[0]
        return it.truth(it.compare('<', it.call(self.fn, [self.value, other.value], {}), 0))

    def __gt__(self, other):
        it = CUR[0]
        return it.truth(it.compare('>', it.call(self.fn, [self.value, other.value], {}), 0))


class AUnknown(ACallable):
    """A module-level name whose definition the analyser does not model: any use of it is undecided"""

    def __init__(self, name, why):
        self.name = name
        self.why = why

    def __repr__(self):
        return f'<unmodelled {self.name}>'


class ADispatch(ACallable):
    """functools.singledispatch"""

    def __init__(self, fn):
        self.fn = fn
        self.name = fn.name if isinstance(fn, AFunc) else 'fn'
        self.table = {}
        self.attrs = {}

    def __repr__(self):
        return f'<dispatch {self.name}>'


class AKeyMaker(ACallable):
    def __init__(self, fn):
        self.fn = fn


class AClass(ACallable):
    def __init__(self, name, bases, attrs, module):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module
        self.mro = self._mro()
        self.fields = None        # dataclass fields

    def _mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro if isinstance(b, AClass) else b.__mro__):
                if c in out:
                    out.remove(c)
                out.append(c)
        if object in out:
            out.remove(object)
        out.append(object)
        return out

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, AClass):
                if name in c.attrs:
                    return c.attrs[name], c
            elif name in c.__dict__:
                return c.__dict__[name], c
        return None, None

    def __repr__(self):
        return f'<class {self.name}>'


class AInst:
    """An instance of an analysed class, or of a native exception class"""

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __call__(self, *args, **kwargs):
        return CUR[0].call(self, list(args), kwargs)

    def __bool__(self):
        return CUR[0].truth(self)

    def __lt__(self, other):
        return CUR[0].truth(CUR[0].compare('<', self, other))

    def __iter__(self):
        return CUR[0].iterate(self)

    def __repr__(self):
        n = self.cls.name if isinstance(self.cls, AClass) else self.cls.__name__
        a = self.attrs.get('args')
        return f'{n}{show(a) if a is not None else ""}'

    def clsname(self):
        return self.cls.name if isinstance(self.cls, AClass) else self.cls.__name__


class AProp:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class AStatic:
    def __init__(self, fn, kind):
        self.fn = fn
        self.kind = kind


class ASuper:
    def __init__(self, owner, self_):
        self.owner = owner
        self.self_ = self_


class AModule:
    def __init__(self, name, path, env, source=None):
        self.name = name
        self.path = path
        self.env = env
        self.source = source

    def __repr__(self):
        return f'<module {self.name}>'


class AMatch:
    """A successful match of a known regex on an abstract string"""

    def __init__(self, pattern, string, how):
        self.re = pattern
        self.string = string
        self.how = how


class ASchema:
    """The result of parse_schema_markdown on known text"""

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return f'<schema {len(self.text) if isinstance(self.text, str) else "?"}>'
