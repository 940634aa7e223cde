"""C15 Array, object and string functions obey their sequence/map/string contracts"""

import copy
import datetime
import itertools
import random
import urllib.parse

try:
    from re import _constants as sre_constants, _parser as sre_parser
except ImportError:  # pragma: no cover
    import sre_constants
    import sre_parse as sre_parser

from absint.values import HostFn, Sym, show, sym

from .c11 import RefCompare
from .common import Check
from .lab import fcall, var

TECHNIQUE = ('abstract interpretation of every array, object and string function against a reference list/dict/str model: single calls on containers of opaque elements over all index positions, all kinds of wrong, missing and '
             'surplus arguments, and call histories over aliased pools, comparing results and the whole reachable heap up to isomorphism; structural rule: no hidden state')
NOTE = ('Elements are opaque (so the result holds for any value), containers have up to 4 elements, indices run over -2..len+2 in float and int spelling and 0.5 fractions. After each call the heap of every pool variable and '
        'of the result must be isomorphic (aliases included) to that of the reference model. Histories: all sequences of length 2 (length 3 over a smaller set) and fixed pseudo-random ones of length 30 over aliased containers; since no '
        'call changes interpreter-wide state (rule), longer histories compose from single calls. Python\'s str methods and urllib quoting on opaque strings are trusted library terms.')


class Fail(Exception):
    def __init__(self, value=None):
        super().__init__()
        self.value = value


class Any:
    """One of several allowed values"""

    def __init__(self, *values):
        self.values = values


def isnum(it, v):
    if isinstance(v, Sym):
        return it.types_of(v) <= {'int', 'float'}
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def isstr(it, v):
    return it.types_of(v) <= {'str'} if isinstance(v, Sym) else isinstance(v, str)


def isfn(v):
    return isinstance(v, HostFn)


ABSENT = object()

# name -> (argument kinds, failure value); kinds: array object string any fn? index(=required) index0(default 0) index?(nullable) count, any* rest
SPEC = {
    'arrayCopy': (['array'], None), 'arrayDelete': (['array', 'index'], None), 'arrayExtend': (['array', 'array'], None), 'arrayGet': (['array', 'index'], None), 'arrayIndexOf': (['array', 'any', 'index0'], -1),
    'arrayJoin': (['array', 'string'], None), 'arrayLastIndexOf': (['array', 'any', 'index?'], -1), 'arrayLength': (['array'], 0), 'arrayNew': (['any*'], None), 'arrayNewSize': (['index0', 'value0'], None), 'arrayPop': (['array'], None),
    'arrayPush': (['array', 'any*'], None), 'arraySet': (['array', 'index', 'any'], None), 'arrayShift': (['array'], None), 'arraySlice': (['array', 'index0', 'index?'], None), 'arraySort': (['array', 'fn?'], None),
    'objectAssign': (['object', 'object'], None), 'objectCopy': (['object'], None), 'objectDelete': (['object', 'string'], None), 'objectGet': (['object', 'string', 'any'], None), 'objectHas': (['object', 'string'], False),
    'objectKeys': (['object'], None), 'objectNew': (['any*'], None), 'objectSet': (['object', 'string', 'any'], None),
    'stringCharCodeAt': (['string', 'index'], None), 'stringEndsWith': (['string', 'string'], Any(None, False)), 'stringFromCharCode': (['any*'], None), 'stringIndexOf': (['string', 'string', 'index0'], -1),
    'stringLastIndexOf': (['string', 'string', 'index?'], -1), 'stringLength': (['string'], 0), 'stringLower': (['string'], None), 'stringNew': (['any'], None), 'stringRepeat': (['string', 'index'], None),
    'stringReplace': (['string', 'string', 'string'], None), 'stringSlice': (['string', 'index', 'index?'], None), 'stringSplit': (['string', 'string'], None), 'stringStartsWith': (['string', 'string'], Any(None, False)),
    'stringTrim': (['string'], None), 'stringUpper': (['string'], None), 'regexEscape': (['string'], None), 'urlEncode': (['string'], None), 'urlEncodeComponent': (['string'], None),
}
MUTATORS = ('arrayDelete', 'arrayExtend', 'arrayPop', 'arrayPush', 'arraySet', 'arrayShift', 'arraySort', 'objectAssign', 'objectDelete', 'objectSet')


class Model:
    """The reference list/dict/str model; leaves may be opaque"""

    def __init__(self, it, ref, call):
        self.it, self.ref, self.callfn = it, ref, call

    def eq(self, a, b):
        return self.ref(self.it, a, b) == 0

    def truth(self, v):
        """The truth of a value in the language"""
        if v is None or isinstance(v, (bool, int, float, str, list)):
            return bool(v)
        if isinstance(v, Sym) and v.ty in ('bool', 'int', 'float', 'str', 'list'):
            return self.it.truth(v)
        return True

    def validate(self, name, args):
        kinds, fail = SPEC[name]
        if name == 'objectGet':
            fail = args[2] if len(args) >= 3 else None
        if kinds[-1] != 'any*' and len(args) > len(kinds):
            raise Fail(Any(None, fail) if name == 'objectGet' else fail)
        out = []
        for i, k in enumerate(kinds):
            if k == 'any*':
                out.append(list(args[i:]))
                break
            if i >= len(args):
                if k == 'any':
                    out.append(None)
                elif k in ('index0', 'value0'):
                    out.append(0)
                elif k.endswith('?'):
                    out.append(None)
                else:
                    raise Fail(fail)
                continue
            v = args[i]
            base = k.rstrip('?0')
            if v is None and k.endswith('?') or base in ('any', 'value'):
                out.append(v)
                continue
            good = {'array': isinstance(v, list), 'object': isinstance(v, dict), 'string': isstr(self.it, v), 'fn': isfn(v),
                    'index': isnum(self.it, v) and not isinstance(v, Sym) and v == v and abs(v) != float('inf') and v == int(v) and v >= 0}[base]
            if not good:
                raise Fail(fail)
            out.append(int(v) if base == 'index' else v)
        return out, fail

    def call(self, name, args):
        try:
            vals, fail = self.validate(name, args)
            return getattr(self, name)(fail, *vals)
        except Fail as e:
            return e.value

    # arrays
    def arrayCopy(self, fail, a):
        return list(a)

    def arrayDelete(self, fail, a, i):
        if i >= len(a):
            raise Fail(fail)
        v = a.pop(i)
        return Any(None, v)       # documented as the element; null on the pinned tree

    def arrayExtend(self, fail, a, b):
        a.extend(list(b))
        return a

    def arrayGet(self, fail, a, i):
        if i >= len(a):
            raise Fail(fail)
        return a[i]

    def arrayIndexOf(self, fail, a, v, i):
        for j in range(i, len(a)):
            if self.truth(self.callfn(v, [a[j]])) if isfn(v) else self.eq(a[j], v):
                return j
        return -1

    def arrayLastIndexOf(self, fail, a, v, i):
        if i is None:
            i = len(a) - 1
        if i >= len(a):
            return -1
        for j in range(i, -1, -1):
            if self.truth(self.callfn(v, [a[j]])) if isfn(v) else self.eq(a[j], v):
                return j
        return -1

    def arrayJoin(self, fail, a, s):
        out = []
        for i, v in enumerate(a):
            out += ([s] if i else []) + [self.text(v)]
        return self.it.concat(*out) if out else ''

    def text(self, v):
        if isinstance(v, (str, Sym)):
            return v
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if v is None:
            return 'null'
        if isinstance(v, (int, float)):
            return str(int(v)) if v == int(v) else repr(v)
        raise AssertionError(v)

    def arrayLength(self, fail, a):
        return len(a)

    def arrayNew(self, fail, vals):
        return vals

    def arrayNewSize(self, fail, n, v):
        return [v] * n

    def arrayPop(self, fail, a):
        if not a:
            raise Fail(fail)
        return a.pop()

    def arrayPush(self, fail, a, vals):
        a.extend(vals)
        return a

    def arraySet(self, fail, a, i, v):
        if i >= len(a):
            raise Fail(fail)
        a[i] = v
        return v

    def arrayShift(self, fail, a):
        if not a:
            raise Fail(fail)
        return a.pop(0)

    def arraySlice(self, fail, a, s, e):
        e = len(a) if e is None else e
        if s > len(a) or e > len(a):
            raise Fail(fail)
        return a[s:e]

    def arraySort(self, fail, a, f):
        out = []
        for x in a:                   # stable insertion
            i = len(out)
            while i > 0 and (self.it.truth(self.it.compare('<', self.callfn(f, [x, out[i - 1]]), 0)) if f is not None else self.ref(self.it, x, out[i - 1]) < 0):
                i -= 1
            out.insert(i, x)
        a[:] = out
        return a

    # objects
    def objectAssign(self, fail, o, p):
        o.update(p)
        return o

    def objectCopy(self, fail, o):
        return dict(o)

    def objectDelete(self, fail, o, k):
        o.pop(k, None)

    def objectGet(self, fail, o, k, d):
        return o.get(k, d)

    def objectHas(self, fail, o, k):
        return k in o

    def objectKeys(self, fail, o):
        return list(o)

    def objectNew(self, fail, kv):
        out = {}
        for i in range(0, len(kv), 2):
            if not isinstance(kv[i], str):
                raise Fail(None)
            out[kv[i]] = kv[i + 1] if i + 1 < len(kv) else None
        return out

    def objectSet(self, fail, o, k, v):
        o[k] = v
        return v

    # strings (constants only)
    def stringCharCodeAt(self, fail, s, i):
        if i >= len(s):
            raise Fail(fail)
        return ord(s[i])

    def stringEndsWith(self, fail, s, t):
        return len(t) <= len(s) and s[len(s) - len(t):] == t

    def stringStartsWith(self, fail, s, t):
        return s[:len(t)] == t

    def stringFromCharCode(self, fail, codes):
        out = ''
        for c in codes:
            if not isnum(self.it, c) or c != int(c) or not 0 <= c < 0x110000:
                raise Fail(None)
            out += chr(int(c))
        return out

    def stringIndexOf(self, fail, s, t, i):
        if i >= len(s):
            return Any(-1, s.find(t, i)) if t == '' else -1
        for j in range(i, len(s) - len(t) + 1):
            if s[j:j + len(t)] == t:
                return j
        return -1

    def stringLastIndexOf(self, fail, s, t, i):
        if i is None:
            i = len(s) - 1
            if t == '':
                return Any(-1, i, i + 1)
        if i >= len(s):
            return -1
        for j in range(min(i, len(s) - len(t)), -1, -1):
            if s[j:j + len(t)] == t:
                return j
        return -1

    def stringLength(self, fail, s):
        return len(s)

    def stringLower(self, fail, s):
        return s.lower()

    def stringUpper(self, fail, s):
        return s.upper()

    def stringNew(self, fail, v):
        return self.text(v)

    def stringRepeat(self, fail, s, n):
        return s * n

    def stringReplace(self, fail, s, t, u):
        return s.replace(t, u)

    def stringSlice(self, fail, s, i, j):
        j = len(s) if j is None else j
        if i > len(s) or j > len(s):
            raise Fail(fail)
        return s[i:j]

    def stringSplit(self, fail, s, t):
        if t == '':
            return Any(None, list(s))
        return s.split(t)

    def stringTrim(self, fail, s):
        return s.strip()


def iso(it, got, want, fwd, bwd):
    """Three-valued isomorphism of two heaps from two roots"""
    if isinstance(want, Any):
        out = False
        for w in want.values:
            f, b = dict(fwd), dict(bwd)
            r = iso(it, got, w, f, b)
            if r is True:
                fwd.update(f)
                bwd.update(b)
                return True
            if r is None:
                out = None
        return out
    if isinstance(want, (list, dict)):
        if not isinstance(got, type(want)) and not (isinstance(want, list) and isinstance(got, list)):
            return it.same(got, want) if isinstance(got, Sym) else False
        if id(got) in fwd or id(want) in bwd:
            return fwd.get(id(got)) == id(want) and bwd.get(id(want)) == id(got)
        fwd[id(got)], bwd[id(want)] = id(want), id(got)
        if isinstance(want, list):
            if len(got) != len(want):
                return False
            pairs = list(zip(got, want))
        else:
            if list(got) != list(want):
                return False
            pairs = [(got[k], want[k]) for k in want]
        out = True
        for x, y in pairs:
            r = iso(it, x, y, fwd, bwd)
            if r is False:
                return False
            if r is None:
                out = None
        return out
    if isinstance(got, (list, dict)):
        return False
    if isinstance(want, Sym) or isinstance(got, Sym):
        return it.same(got, want)
    if isinstance(want, bool) or isinstance(got, bool) or want is None or got is None:
        return got is want
    if isinstance(want, (int, float)):
        return isinstance(got, (int, float)) and (got == want or got != got and want != want)
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    return got is want or (type(got) is type(want) and got == want)


def literal_pattern(pattern):
    """The string that a pattern made only of literals matches, or None"""
    try:
        p = sre_parser.parse(pattern)
    except Exception:
        return None
    if p.state.flags & ~sre_constants.SRE_FLAG_UNICODE:
        return None
    out = ''
    for op, arg in p:
        if op is not sre_constants.LITERAL:
            return None
        out += chr(arg)
    return out


def run(prop, tier):
    ck = Check(prop, tier, 'result and reachable heap of each call or history isomorphic to the reference model')
    lib = ck.fn('library', 'SCRIPT_FUNCTIONS')
    ev = ck.fn('runtime', 'evaluate_expression')
    for name in SPEC:
        if name not in lib:
            ck.bad('R0 library', name, 'src/bare_script/library.py SCRIPT_FUNCTIONS', f'the library function {name} is missing')
    funcs = {k: v for k, v in SPEC.items() if k in lib}
    ref = RefCompare(ck)

    def model(it):
        return Model(it, ref, lambda f, args: it.call(f, [args, None], {}))

    def lcall(it, name, args, g=None):
        """Call a library function from an expression: args are values or ('var', pool variable)"""
        g = dict(g or {})
        exprs = []
        for i, a in enumerate(args):
            if isinstance(a, tuple):
                exprs.append(var(a[1]))
            else:
                g[f'__a{i}'] = a
                exprs.append(var(f'__a{i}'))
        return it.call(ev, [fcall(name, *exprs), {'globals': {**g, name: lib[name]}}, None, False], {})

    def spell(v):
        return float(v) if isinstance(v, int) and not isinstance(v, bool) else v

    def run_ops(rule, cell, mkpool, ops, construct, max_paths=200):
        """Run a history over a pool in both worlds and compare results and pools"""
        def thunk(it):
            mine, theirs = mkpool(), mkpool()
            m = model(it)
            got, want = [], []
            for step, (name, args) in enumerate(ops):
                def val(a, pool, results):
                    if isinstance(a, tuple):
                        return pool[a[1]] if a[0] == 'var' else results[a[1]]
                    return a
                mine_args = [val(a, mine, got) for a in args]
                g = lcall(it, name, mine_args)
                ref_args = [val(a, theirs, want) for a in args]
                ref_args = [r.values[0] if isinstance(r, Any) else r for r in ref_args]
                w = m.call(name, ref_args)
                if isinstance(w, Any):
                    fwd, bwd = {}, {}
                    pick = [x for x in w.values if iso(it, g, x, dict(fwd), dict(bwd)) is True]
                    w = pick[0] if pick else w.values[0]
                got.append(g)
                want.append(w)
            return mine, theirs, got, want

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            mine, theirs, got, want = p.value
            it = ck.it
            fwd, bwd = {}, {}
            out = True
            for k in theirs:
                r = iso(it, mine[k], theirs[k], fwd, bwd)
                if r is False:
                    return False, f'after {describe(ops)} the variable {k} is {show(mine[k])[:200]}, expected {show(theirs[k])[:200]} (aliases: {list(theirs)})'
                out = out if r is True else None
            for i, (g, w) in enumerate(zip(got, want)):
                r = iso(it, g, w, fwd, bwd)
                if r is False:
                    return False, f'{describe(ops[:i + 1])} gives {show(g)[:200]}, expected {show(w)[:200]} (in content or identity)'
                out = out if r is True else None
            return out, ''
        ck.cell(rule, cell, construct, thunk, judge, max_paths=max_paths)

    def describe(ops):
        def d(a):
            return (a[1] if a[0] == 'var' else f'r{a[1]}') if isinstance(a, tuple) else show(a)[:60]
        return '; '.join(f'{n}({", ".join(d(a) for a in args)})' for n, args in ops[-4:])

    # R1 single calls on containers of opaque elements
    s = sym
    E = [s('e0', 'float'), s('e1', 'str'), s('e2', 'int'), s('e3', 'float')]
    arrays = {f'A{n}': (lambda n=n: list(E[:n])) for n in range(0, 5)}
    arrays |= {'constants': lambda: [1.0, 'a', None, True, 1.0], 'nested': lambda: (lambda c: [c, [c], c])([1.0]), 'objects': lambda: [{'a': 1.0}, {}, {'a': [E[0]]}]}
    objects = {'O0': dict, 'O1': lambda: {'a': E[0]}, 'O2': lambda: {'b': E[1], 'a': E[0]}, 'O3': lambda: {'a': [E[0]], 'b': None, '': 0.0, '10': False}}
    values = [E[0], 'a', None, True, 1.0, 1, 0, False, '', 2.5]
    strings = ['', 'a', 'abcabc', 'aaaa', ' x ', 'aXbXc', 'é\U0001f600z', 'İSSß', '\t\u2003x\n', 'a.b*c', 'ab' * 5]
    subs = ['', 'a', 'b', 'bc', 'abc', 'X', 'z', 'aa', 'abcabc', '\U0001f600', ' ', 'abcabcd', 'c']

    def positions(n):
        out = []
        for i in range(-2, n + 3):
            out += [float(i), i]
        return out + [0.5, n - 0.5, 1e300, -0.0]

    def one(name, args, cell, mk):
        run_ops('R1 single call', f'{name} {cell}', mk, [(name, args)], ck.where(lib[name]))
    for an, mk in arrays.items():
        pool = lambda mk=mk: (lambda a: {'a': a, 'alias': a, 'other': [E[0]], 'o': {'k': a}})(mk())  # noqa: E731
        n = len(mk())
        A = ('var', 'a')
        for name in ('arrayCopy', 'arrayLength', 'arrayPop', 'arrayShift'):
            if name in funcs:
                one(name, [A], an, pool)
        for name in ('arrayGet', 'arrayDelete', 'arraySlice'):
            for i in positions(n):
                one(name, [A, i], f'{an} {i!r}', pool)
        for i in positions(n):
            for v in (E[3], None, A, ('var', 'other')):
                one('arraySet', [A, i, v], f'{an} {i!r} {show(v)}', pool)
            for j in positions(n) if ck.thorough or isinstance(i, float) else positions(n)[::3]:
                one('arraySlice', [A, i, j], f'{an} {i!r} {j!r}', pool)
            for v in (values if ck.thorough else values[:7]):
                if an not in ('nested', 'objects'):
                    one('arrayIndexOf', [A, v, i], f'{an} {show(v)} {i!r}', pool)
                    one('arrayLastIndexOf', [A, v, i], f'{an} {show(v)} {i!r}', pool)
        for v in values + [[1.0], {'a': 1.0}, {}, []]:
            one('arrayIndexOf', [A, v], f'{an} {show(v)}', pool)
            one('arrayLastIndexOf', [A, v], f'{an} {show(v)}', pool)
            one('arrayLastIndexOf', [A, v, None], f'{an} {show(v)} null', pool)
        for vs in ([], [E[3]], [E[3], None], [A], [('var', 'other'), ('var', 'other')], [1.0, 2.0, 3.0, 4.0]):
            one('arrayPush', [A] + vs, f'{an} {show(vs)}', pool)
        for b in (A, ('var', 'other'), ('var', 'alias')):
            one('arrayExtend', [A, b], f'{an} {b[1]}', pool)
            one('arrayExtend', [('var', 'other'), b], f'other {an} {b[1]}', pool)
        if n < 5 and an not in ('nested', 'objects'):
            if an == 'constants' or n <= (4 if ck.thorough else 3):
                one('arraySort', [A], an, pool)
            one('arraySort', [A, None], an + ' null', pool) if n <= 3 else None
        for pick in ('first', 'second', 'none', 'all', 'opaque'):
            f = HostFn(pick, lambda it, args, kw, pick=pick: {'first': True, 'second': 'yes', 'none': None, 'all': 1.0, 'opaque': s('m', 'bool')}[pick])
            one('arrayIndexOf', [A, f], f'{an} function {pick}', pool)
            one('arrayLastIndexOf', [A, f], f'{an} function {pick}', pool)
            for i in range(0, n):
                one('arrayIndexOf', [A, f, float(i)], f'{an} function {pick} {i}', pool)
                one('arrayLastIndexOf', [A, f, float(i)], f'{an} function {pick} {i}', pool)
    # match functions that return every type of value
    matchers = {'null': None, 'false': False, 'true': True, '0': 0, '0.0': 0.0, '-0.0': -0.0, '1': 1, '-1.5': -1.5, "''": '', "'0'": '0', "'false'": 'false', '[]': [], '[0]': [0], '[[]]': [[]], '{}': {}, '{a: null}': {'a': None},
                'datetime': datetime.datetime(2024, 1, 1), 'midnight': datetime.datetime.min, 'date': datetime.date(2024, 1, 1), 'function': HostFn('g', lambda it, a, k: None), 'regex': sym('r', 'regex'), 'datetime symbol': sym('d', 'datetime')}
    for rn, rv in matchers.items():
        f = HostFn(rn, lambda it, args, kw, rv=rv: rv)
        for nm in ('arrayIndexOf', 'arrayLastIndexOf'):
            for arr in ([1.0], [1.0, 2.0, 3.0], []):
                one(nm, [('var', 'a'), f], f'{show(arr)} function gives {rn}', lambda arr=arr: {'a': list(arr)})
                one(nm, [('var', 'a'), f, 0.0], f'{show(arr)} function gives {rn}, from 0', lambda arr=arr: {'a': list(arr)})
                one(nm, [('var', 'a'), f, 1], f'{show(arr)} function gives {rn}, from 1', lambda arr=arr: {'a': list(arr)})
            # only the last element gives this value, the others null
            g = HostFn(rn + ' of 2', lambda it, args, kw, rv=rv: rv if args[0][0] == 2.0 else None)
            one(nm, [('var', 'a'), g], f'function gives {rn} for one element', lambda: {'a': [1.0, 2.0, 3.0, 2.0, 1.0]})
    for v in ([], [1.0, 'a', None, True, 0.5, 100.0], ['x'], ['x', 'y'], [E[1], 'z', E[1]], [None], ['', '', ''], [False, -1.0, 1e21]):
        for sep in ('', ',', ', ', 'ab', '\n'):
            one('arrayJoin', [('var', 'a'), sep], f'{show(v)} {sep!r}', lambda v=v: {'a': list(v)})
    for n in (0, 1, 2, 3, 7):
        for sp in (float, int):
            one('arrayNewSize', [sp(n)], f'{sp(n)!r}', dict)
            for v in (E[0], None, ('var', 'a'), 'x', False, 0.0):
                one('arrayNewSize', [sp(n), v], f'{sp(n)!r} {show(v)}', lambda: {'a': [1.0]})
    one('arrayNewSize', [], 'no argument', dict)
    for n in (-1.0, -1, 0.5, 2.5):
        one('arrayNewSize', [n, 1.0], f'{n!r}', dict)
    for vs in ([], [E[0]], [None], [E[0], E[1], None, ('var', 'a'), ('var', 'a')], [1.0] * 6):
        one('arrayNew', vs, show(vs), lambda: {'a': [1.0]})
    single = {'array': ('var', 'a'), 'empty array': [], 'object': ('var', 'o'), 'empty object': {}, 'nested': ('var', 'n'), 'string': 'ab', 'zero': 0.0, 'false': False, 'datetime': datetime.datetime(2024, 1, 2), 'function': ('var', 'f')}
    cont = lambda: (lambda a, o: {'a': a, 'o': o, 'n': [a, o], 'f': FN})([1.0, [2.0]], {'a': 1.0, 'k': 'v'})  # noqa: E731
    FN = HostFn('some function', lambda it, args, kw: None)
    for n1, v in single.items():
        one('arrayNew', [v], n1, cont)
        one('arrayNew', [v, v], f'{n1} twice', cont)
        one('arrayNewSize', [2.0, v], n1, cont)
        one('arrayPush', [('var', 'a'), v], n1, cont)
        one('arraySet', [('var', 'a'), 0.0, v], n1, cont)
        one('objectNew', ['k', v], n1, cont)
        one('objectSet', [('var', 'o'), 'k', v], n1, cont)
        one('objectGet', [('var', 'o'), 'missing', v], n1, cont)
        one('objectGet', [('var', 'o'), 'k', v], n1, cont)
        for n2, v2 in single.items():
            one('arrayNew', [v, v2], f'{n1} {n2}', cont)
            one('arrayPush', [('var', 'a'), v, v2], f'{n1} {n2}', cont)
            one('objectNew', ['k', v, 'l', v2], f'{n1} {n2}', cont)
    # compare functions: key order given by the host function, must be a stable sort, the array is not disturbed during it
    for items in ([3.0, 1.0, 2.0], [2.0, 2.5, 1.0, 1.5, 2.2], [1.0], [], [5.0, 4.0, 3.0, 2.0, 1.0], ['b', 'a', 'c']):
        for fname, fn in (('by integer part', lambda x, y: float(int(x) - int(y)) if not isinstance(x, str) else float((x > y) - (x < y))), ('descending', lambda x, y: float((x < y) - (x > y))), ('constant', lambda x, y: 0.0), ('int result', lambda x, y: (x > y) - (x < y)),
                          ('fraction', lambda x, y: ((x > y) - (x < y)) * 0.25), ('tiny', lambda x, y: ((x > y) - (x < y)) * 5e-324), ('huge', lambda x, y: ((x > y) - (x < y)) * 1e300), ('infinite', lambda x, y: ((x > y) - (x < y)) * 1e300 * 1e10 if x != y else 0.0),
                          ('boolean', lambda x, y: x > y), ('only greater', lambda x, y: 0.5 if x > y else 0.0), ('only less', lambda x, y: -0.5 if x < y else 0.0)):
            f = HostFn(fname, lambda it, args, kw, fn=fn: fn(*args[0]))
            one('arraySort', [('var', 'a'), f], f'{items!r} {fname}', lambda items=items: (lambda a: {'a': a, 'alias': a, 'box': [a]})(list(items)))

    def sort_seen():
        for items in ([3.0, 1.0, 2.0], [2.0, 1.0], [E[0], E[3]]):
            def thunk(it, items=items):
                a = list(items)
                seen = []
                lcall(it, 'arraySort', [a, HostFn('cmp', lambda i2, args, kw: (seen.append(len(a)), 0.0)[1])])
                return seen
            ck.cell('R1 single call', f'arraySort: {show(items)} seen by the compare function', ck.where(lib['arraySort']), thunk,
                    lambda p, items=items: (p.kind == 'return' and all(n == len(items) for n in p.value), f'the compare function sees the array with the lengths {p!r}'))

            def failing(it, items=items):
                a = list(items)
                calls = []

                def cmp(i2, args, kw):
                    calls.append(1)
                    return 'x' if len(calls) == len(items) - 1 else -1.0
                r = lcall(it, 'arraySort', [a, HostFn('cmp', cmp)])
                return r, a
            ck.cell('R1 single call', f'arraySort: {show(items)} with a failing compare function', ck.where(lib['arraySort']), failing,
                    lambda p, items=items: (p.kind == 'return' and p.value[0] is None and ck.it.same(p.value[1], items), f'a failed sort leaves {p!r}'))
    sort_seen()
    for on, mk in objects.items():
        pool = lambda mk=mk: (lambda o: {'o': o, 'alias': o, 'p': {'a': E[2], 'c': None}, 'arr': [o]})(mk())  # noqa: E731
        O = ('var', 'o')
        for name in ('objectCopy', 'objectKeys'):
            one(name, [O], on, pool)
        for k in ('a', 'b', 'c', '', '10', 'A'):
            one('objectGet', [O, k], f'{on} {k!r}', pool)
            one('objectGet', [O, k, E[3]], f'{on} {k!r} default', pool)
            one('objectGet', [O, k, None], f'{on} {k!r} null default', pool)
            one('objectHas', [O, k], f'{on} {k!r}', pool)
            one('objectDelete', [O, k], f'{on} {k!r}', pool)
            for v in (E[3], None, O, ('var', 'arr'), False):
                one('objectSet', [O, k, v], f'{on} {k!r} {show(v)}', pool)
            one('objectSet', [O, k], f'{on} {k!r} missing value', pool)
        for p in ('o', 'p', 'alias'):
            one('objectAssign', [O, ('var', p)], f'{on} {p}', pool)
            one('objectAssign', [('var', 'p'), O], f'p {on} {p}', pool)
    for kv in ([], ['a'], ['a', E[0]], ['a', E[0], 'b'], ['a', 1.0, 'a', 2.0], ['b', 1.0, 'a', ('var', 'x')], ['a', 1.0, 1.0, 2.0], [None, 1.0], ['a', 1.0, None], ['a', 1.0, True, 1.0], ['', 1.0], [[], 1.0], ['a', 1.0, 'b', 2.0, 'c', 3.0, 'a', 4.0]):
        one('objectNew', kv, show(kv), lambda: {'x': [1.0]})
    for st in strings:
        for name in ('stringLength', 'stringLower', 'stringUpper', 'stringTrim', 'stringNew'):
            one(name, [st], repr(st), dict)
        for i in positions(len(st)):
            one('stringCharCodeAt', [st, i], f'{st!r} {i!r}', dict)
            one('stringSlice', [st, i], f'{st!r} {i!r}', dict)
            if len(st) <= 4 or isinstance(i, float):
                for j in positions(len(st))[::2 if not ck.thorough else 1]:
                    one('stringSlice', [st, i, j], f'{st!r} {i!r} {j!r}', dict)
            one('stringSlice', [st, i, None], f'{st!r} {i!r} null', dict)
            if abs(i) < 100 and i <= 3:
                one('stringRepeat', [st, i], f'{st!r} {i!r}', dict)
            for t in subs:
                one('stringIndexOf', [st, t, i], f'{st!r} {t!r} {i!r}', dict)
                one('stringLastIndexOf', [st, t, i], f'{st!r} {t!r} {i!r}', dict)
        for t in subs:
            for name in ('stringIndexOf', 'stringLastIndexOf', 'stringStartsWith', 'stringEndsWith', 'stringSplit'):
                one(name, [st, t], f'{st!r} {t!r}', dict)
            one('stringLastIndexOf', [st, t, None], f'{st!r} {t!r} null', dict)
            for u in ('', 'Q', 'aa', '\\1', '$1'):
                one('stringReplace', [st, t, u], f'{st!r} {t!r} {u!r}', dict)
    for codes in ([], [97.0], [97, 98.0], [0.0], [1114111.0], [128512.0, 97.0], [-1.0], [1114112.0], [1e300], [97.5], ['a'], [None], [True], [97.0, 'b'], [97.0, None], [[]], [65.0] * 5, [97.0, 98.0, -1.0]):
        one('stringFromCharCode', codes, repr(codes), dict)
    for v in (None, True, False, 0.0, 1.0, -2.5, 'x', E[1], ''):
        one('stringNew', [v], show(v), dict)
    # opaque strings: the exact library operation, applied once to the string itself
    x, y, z = s('x', 'str'), s('y', 'str'), s('z', 'str')
    TERMS = [
        ('stringLength', [x], lambda it: it.call_builtin_len(x) if hasattr(it, 'call_builtin_len') else None), ('stringLower', [x], lambda it: it.call_method(x, 'lower', [], {})), ('stringUpper', [x], lambda it: it.call_method(x, 'upper', [], {})),
        ('stringTrim', [x], lambda it: it.call_method(x, 'strip', [], {})), ('stringReplace', [x, y, z], lambda it: it.call_method(x, 'replace', [y, z], {})), ('stringStartsWith', [x, y], lambda it: it.call_method(x, 'startswith', [y], {})),
        ('stringEndsWith', [x, y], lambda it: it.call_method(x, 'endswith', [y], {})), ('stringNew', [x], lambda it: x),
    ]
    for name, args, want in TERMS:
        def thunk(it, name=name, args=args, want=want):
            return lcall(it, name, args), want(it)

        def judge(p):
            if p.kind != 'return':
                return (None if p.imprecise else False), f'raises {p.value!r}'
            got, w = p.value
            if w is None:
                return True if isinstance(got, Sym) else None
            r = ck.it.same(got, w)
            return (True if r is True else None), f'{show(got)} against {show(w)}'
        ck.cell('R1 opaque strings', name, ck.where(lib[name]), thunk, judge)

    # R2 wrong, missing and surplus arguments
    DT = datetime.datetime(2024, 2, 29, 12)
    wrong = [('null', lambda: None), ('true', lambda: True), ('false', lambda: False), ('string', lambda: 'x'), ('empty string', lambda: ''), ('number', lambda: 1.0), ('zero', lambda: 0), ('negative', lambda: -1.0), ('fraction', lambda: 0.5), ('array', lambda: [E[0], 'q']), ('empty array', list),
             ('object', lambda: {'a': E[0]}), ('empty object', dict), ('datetime', lambda: DT), ('function', lambda: HostFn('f', lambda it, a, k: None)), ('regex', lambda: s('re', 'regex')), ('opaque string', lambda: s('os', 'str')), ('opaque boolean', lambda: s('ob', 'bool'))]
    good = {'array': lambda: [E[0], E[1]], 'object': lambda: {'a': E[0], 'b': E[1]}, 'string': lambda: 'abcab', 'index': lambda: 1.0, 'any': lambda: 'v', 'fn': lambda: HostFn('cmp', lambda it, a, k: 0.0), 'value': lambda: 7.0}

    def fits(k, v):
        base = k.rstrip('?0*')
        if base in ('any', 'value'):
            return True
        if v is None:
            return k.endswith('?')
        if isinstance(v, Sym):
            return show(v) == 'os' and base == 'string'
        return {'array': isinstance(v, list), 'object': isinstance(v, dict), 'string': isinstance(v, str), 'fn': isinstance(v, HostFn), 'index': isinstance(v, (int, float)) and not isinstance(v, bool) and v >= 0 and v == int(v)}[base]

    def failure(rule, cell, name, mk):
        def thunk(it):
            args, want = mk()
            before = copy_heap(args)
            orig = list(args)
            got = lcall(it, name, args)
            return got, want, orig, before

        def judge(p):
            if p.kind != 'return':
                return False, f'{name} raises {p.value!r}'
            got, want, orig, before = p.value
            for i, (a, b) in enumerate(zip(orig, before)):
                r = iso(ck.it, a, b, {}, {})
                if r is not True:
                    return r, f'the failed call changes argument {i}: {show(a)}, was {show(b)}'
            r = iso(ck.it, got, want, {}, {})
            return r, f'{name}({", ".join(show(a)[:40] for a in orig)}) gives {show(got)[:100]}, expected the failure value {show(want.values if isinstance(want, Any) else want)}'
        ck.cell(rule, cell, ck.where(lib[name]), thunk, judge)

    def copy_heap(args):
        return [dict(a) if isinstance(a, dict) else list(a) if isinstance(a, list) else a for a in args]
    for name, (kinds, fail) in funcs.items():
        fixed = [k for k in kinds if k != 'any*']

        def failvalue(args, name=name, fail=fail):
            return fail if name != 'objectGet' else Any(*{id(v): v for v in [None] + args[2:3]}.values())
        for i, k in enumerate(fixed):
            for wn, mkv in wrong:
                if not fits(k, mkv()):
                    def mk(i=i, mkv=mkv, fixed=fixed):
                        args = [good[q.rstrip('?0')]() for q in fixed]
                        args[i] = mkv()
                        return args, failvalue(args)
                    failure('R2 wrong argument', f'{name} argument {i} {wn}', name, mk)
                    if len(fixed) > i + 1:
                        def mk1(i=i, mkv=mkv, fixed=fixed):
                            args = [good[q.rstrip('?0')]() for q in fixed][:i] + [mkv()]
                            return args, failvalue(args)
                        failure('R2 wrong argument', f'{name} argument {i} {wn}, the others missing', name, mk1)
                    if 'any*' in kinds:
                        def mk2(i=i, mkv=mkv, fixed=fixed):
                            args = [good[q.rstrip('?0')]() for q in fixed]
                            args[i] = mkv()
                            return args + ['more', 1.0], failvalue(args)
                        failure('R2 wrong argument', f'{name} argument {i} {wn} with more', name, mk2)
        for n in range(0, len(fixed)):
            if any(k in ('array', 'object', 'string', 'index') for k in fixed[n:]) and not (name in ('arrayGet',) and False):
                def mk(n=n, fixed=fixed):
                    args = [good[q.rstrip('?0')]() for q in fixed[:n]]
                    return args, failvalue(args)
                failure('R2 missing argument', f'{name} with {n} arguments', name, mk)
        if 'any*' not in kinds:
            for extra in ([None], ['x'], [1.0], [[]], [{}], [None, None], [1.0, 2.0, 3.0]):
                def mk(extra=extra, fixed=fixed):
                    args = [good[q.rstrip('?0')]() for q in fixed] + copy.copy(extra)
                    return args, failvalue(args)
                failure('R2 surplus argument', f'{name} with surplus {extra!r}', name, mk)
    for an in ('arrayGet', 'arrayDelete', 'arraySet', 'arraySlice', 'stringSlice', 'stringCharCodeAt'):
        for big in (3.0, 5.0, 1e9, 1e17, -1.0, 1.5, float('inf'), float('-inf'), float('nan')):
            def mk(an=an, big=big):
                args = [[E[0], E[1]] if an.startswith('array') else 'ab', big] + ([E[2]] if an == 'arraySet' else [])
                return args, None
            failure('R2 out of range', f'{an} {big!r}', an, mk)

    # R3 histories over aliased containers
    def pool():
        a = [1.0, 'a']
        b = [a, 2.0]
        o = {'a': a, 'k': 1.0}
        return {'a': a, 'a2': a, 'b': b, 'c': [], 'o': o, 'p': {'a': b}, 'o2': o}
    A, A2, B, C, O, P = [('var', n) for n in ('a', 'a2', 'b', 'c', 'o', 'p')]
    R = ('res', 0)
    OPS = [
        ('arrayPush', [A, 3.0]), ('arrayPush', [B, A]), ('arrayPush', [C, 'x', 'y']), ('arrayPop', [A]), ('arrayPop', [B]), ('arrayShift', [A2]), ('arrayShift', [B]), ('arraySet', [A, 0.0, 'z']), ('arraySet', [B, 1.0, O]),
        ('arrayDelete', [A, 0.0]), ('arrayDelete', [A, 1.0]), ('arrayExtend', [A, A2]), ('arrayExtend', [B, A]), ('arrayExtend', [C, B]), ('arrayCopy', [A]), ('arrayCopy', [B]), ('arraySlice', [A]), ('arraySlice', [B, 0.0, 1.0]), ('arraySlice', [A, 1.0]),
        ('arrayGet', [B, 0.0]), ('arrayGet', [A, 1.0]), ('arrayNew', [A, O]), ('arrayNewSize', [2.0, A]), ('arrayLength', [A]), ('arrayIndexOf', [A, 'a']), ('arrayLastIndexOf', [A, 1.0]),
        ('objectSet', [O, 'k', A]), ('objectSet', [P, 'o', O]), ('objectSet', [O, 'new', 5.0]), ('objectGet', [O, 'a']), ('objectGet', [P, 'a']), ('objectGet', [P, 'zz', C]), ('objectCopy', [O]), ('objectAssign', [O, P]), ('objectAssign', [P, O]), ('objectDelete', [O, 'a']),
        ('objectDelete', [P, 'a']), ('objectKeys', [O]), ('objectNew', ['x', A, 'y', O]), ('objectHas', [O, 'new']), ('arraySet', [A, 9.0, 'bad']), ('arrayPush', [None, 1.0]), ('objectSet', [O, None, 1.0]),
    ]
    ONRES = [('arrayPush', [R, 'r']), ('arrayPop', [R]), ('arraySet', [R, 0.0, 's']), ('arrayExtend', [R, A]), ('arrayShift', [R]), ('arrayDelete', [R, 0.0]), ('objectSet', [R, 'k', 'r']), ('objectDelete', [R, 'a']), ('objectAssign', [R, P]), ('arrayExtend', [A, R]), ('arrayPush', [A, R]), ('objectSet', [O, 'r', R])]
    runtime_where = ck.where(ev)
    for i, first in enumerate(OPS):
        for j, second in enumerate(OPS + ONRES):
            run_ops('R3 histories of two calls', f'{i}.{j} {describe([first, second])}', pool, [first, second], ck.where(lib[second[0]]))
    small = [OPS[i] for i in (0, 1, 3, 5, 7, 9, 11, 14, 17, 19, 21, 26, 27, 32, 33, 35)] + ONRES[:3] + ONRES[6:7] if not ck.thorough else OPS[:40:2] + ONRES
    for f1, f2, f3 in itertools.product([o for o in small if not any(isinstance(a, tuple) and a[0] == 'res' for a in o[1])], small, small):
        run_ops('R3 histories of three calls', f'{describe([f1, f2, f3])}', pool, [f1, f2, f3], ck.where(lib[f3[0]]))
    rnd = random.Random(15)
    for h in range(400 if ck.thorough else 120):
        ops = []
        for step in range(30):
            name, args = rnd.choice(OPS + ONRES)
            args = [('res', rnd.randrange(step)) if isinstance(a, tuple) and a[0] == 'res' and step else (A if isinstance(a, tuple) and a[0] == 'res' else a) for a in args]
            args = [('res', rnd.randrange(step)) if isinstance(a, tuple) and step and rnd.random() < 0.3 else a for a in args]
            args = [float(rnd.randrange(-1, 5)) if isinstance(a, float) and name.startswith('array') and rnd.random() < 0.5 else a for a in args]
            ops.append((name, args))
        run_ops('R3 histories of thirty calls', f'{h}', pool, ops, runtime_where)
    # strings are immutable and calls on them independent
    for first, second in itertools.product([('stringReplace', ['abab', 'a', 'x']), ('stringSplit', ['a,b', ',']), ('stringUpper', ['abab']), ('stringSlice', ['abab', 1.0]), ('stringRepeat', ['ab', 2.0]), ('stringTrim', [' ab '])], repeat=2):
        run_ops('R3 histories of two calls', f'{describe([first, second, first])}', dict, [first, second, first], ck.where(lib[second[0]]))
    run_ops('R3 histories of two calls', 'split twice', dict, [('stringSplit', ['a,b', ',']), ('arrayPush', [R, 'c']), ('stringSplit', ['a,b', ','])], ck.where(lib['stringSplit']))
    run_ops('R3 histories of two calls', 'keys twice', pool, [('objectKeys', [O]), ('arrayPush', [R, 'c']), ('objectKeys', [O])], ck.where(lib['objectKeys']))

    # R4 regexEscape and URL encoding
    chars = [chr(c) for c in range(0, 256)] + ['\u0130', '\u2028', '\U0001f600', '\U0010ffff', 'ſ', 'K', '\uffff', '\u0300']
    texts = chars + ['', 'a.b', 'a*b+c?', '[x]', '(a|b)', '{2}', '^a$', '\\d', '\\\\', 'a b', 'a#b', 'a-b', '\n\t', 'x' * 50, '.*', '(?i)a', '\\', 'A~b_c', '%41', '100%', '%%', 'a+b&c=d', 'http://x/y?z=1&w=%20#f', 'é%C3', "it's", 'a/b:c;d,e', '%2525', '+', ' ', '%zz']
    for a, b in itertools.product('.*\\[](){}^$|?+-#& a\n%/1', repeat=2):
        texts.append(a + b)
    for t in texts:
        def thunk(it, t=t):
            return lcall(it, 'regexEscape', [t])

        def judge(p, t=t):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            if not isinstance(p.value, str):
                return (None if isinstance(p.value, Sym) else False), f'gives {show(p.value)}'
            lit = literal_pattern(p.value)
            return lit == t, f'regexEscape({t!r}) is the pattern {p.value!r}, which matches {"exactly " + repr(lit) if lit is not None else "not exactly one literal text"}'
        ck.cell('R4 regexEscape', repr(t)[:80], ck.where(lib['regexEscape']), thunk, judge)
        for name in ('urlEncode', 'urlEncodeComponent'):
            def judge2(p, t=t, name=name):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                v = p.value
                if not isinstance(v, str):
                    return (None if isinstance(v, Sym) else False), f'gives {show(v)}'
                try:
                    back = urllib.parse.unquote(v, errors='strict')
                except UnicodeDecodeError:
                    back = None
                if back != t:
                    return False, f'{name}({t!r}) gives {v!r}, which percent-decodes to {back!r}'
                return v.isascii() and all(33 <= ord(c) < 127 for c in v), f'{name}({t!r}) gives {v!r}, which holds characters that are not part of a URL'
            ck.cell('R4 URL encoding', f'{name} {t!r}'[:100], ck.where(lib[name]), lambda it, t=t, name=name: lcall(it, name, [t]), judge2)

    # R5 no hidden state: a call changes nothing but its documented container
    for name, (kinds, fail) in funcs.items():
        for case in ('good', 'wrong'):
            def thunk(it, kinds=kinds, name=name, case=case):
                args = [good[q.rstrip('?0')]() for q in kinds if q != 'any*']
                if case == 'wrong' and args:
                    args[0] = DT
                lcall(it, name, args)
                return it.state_changes()

            def judge(p, name=name):
                if p.kind != 'return':
                    return None, f'{p!r}'
                return (True if not p.value else None), f'{name} changes module state: {p.value!r}'
            ck.cell('R5 no hidden state', f'{name} {case}', ck.where(lib[name]), thunk, judge)
    return ck.finish()
