"""C11 Value comparison is a total preorder and every consumer agrees with it"""

import datetime
import itertools

from absint.values import HostFn, Sym, show, sym

from .common import Check
from .lab import COMPARE, binary, fcall, num, string, var

TECHNIQUE = ('abstract interpretation of value_compare and its consumers over type-cell pairs and triples with opaque operands (order facts kept in a point algebra), '
             'against a reference lexicographic preorder')
NOTE = ('Every ordered pair of cells (nine types, int/float spelling, opaque numbers/strings/datetimes, containers to depth 3, boundary constants) gives the sign of a reference preorder that is '
        'lexicographic over total orders; antisymmetry and transitivity are also decided directly on opaque pairs and triples. Consumers (six operators, systemCompare, mathMin/Max, '
        'arrayIndexOf/LastIndexOf, arraySort, dataSort) are run on opaque lists up to 3-4 elements and judged by the reference. Containers are bounded to 3 elements; NaN is excluded.')

UTC = datetime.timezone.utc
TYPES = {'none': 'null', 'str': 'string', 'bool': 'boolean', 'int': 'number', 'float': 'number', 'datetime': 'datetime', 'datetime_aware': 'datetime', 'date': 'datetime', 'dict': 'object',
         'list': 'array', 'func': 'function', 'regex': 'regex'}


class RefCompare:
    """The reference preorder"""

    def __init__(self, ck):
        self.normdt = ck.fn('value', 'value_normalize_datetime')

    @staticmethod
    def type(it, v):
        if v is None:
            return 'null'
        if isinstance(v, Sym):
            return TYPES[it.ty(v)]
        if isinstance(v, bool):
            return 'boolean'
        if isinstance(v, (int, float)):
            return 'number'
        if isinstance(v, str):
            return 'string'
        if isinstance(v, datetime.date):
            return 'datetime'
        if isinstance(v, list):
            return 'array'
        if isinstance(v, dict):
            return 'object'
        return 'function'

    @staticmethod
    def less(it, a, b):
        if it.truth(it.compare('<', a, b)):
            return -1
        return 0 if it.truth(it.compare('==', a, b)) else 1

    def dt(self, it, v):
        if type(v) is datetime.date:
            return datetime.datetime(v.year, v.month, v.day)
        if isinstance(v, datetime.datetime) and v.tzinfo is None:
            return v
        return it.call(self.normdt, [v], {})

    def __call__(self, it, a, b):
        ta, tb = self.type(it, a), self.type(it, b)
        if ta != tb:
            if ta == 'null':
                return -1
            if tb == 'null':
                return 1
            return -1 if ta < tb else 1
        if ta in ('null', 'function', 'regex'):
            return 0
        if ta in ('number', 'string'):
            return self.less(it, a, b)
        if ta == 'boolean':
            return int(it.truth(a)) - int(it.truth(b))
        if ta == 'datetime':
            return self.less(it, self.dt(it, a), self.dt(it, b))
        if ta == 'array':
            for x, y in zip(a, b):
                c = self(it, x, y)
                if c:
                    return c
            return (len(a) > len(b)) - (len(a) < len(b))
        ka, kb = sorted(a), sorted(b)
        for x, y in zip(ka, kb):
            c = (x > y) - (x < y) or self(it, a[x], b[y])
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))


def scalars(n):
    """Opaque and boundary scalars"""
    return [
        ('null', lambda: None), ('true', lambda: True), ('false', lambda: False), ('boolean', lambda: sym(n, 'bool')),
        ('int', lambda: sym(n, 'int')), ('float', lambda: sym(n, 'float')), ('string', lambda: sym(n, 'str')),
        ('datetime', lambda: sym(n, 'datetime')), ('date', lambda: sym(n, 'date')), ('aware', lambda: sym(n, 'datetime_aware')),
        ('function', lambda: HostFn(n, lambda it, a, k: None)), ('regex', lambda: sym(n, 'regex')),
    ]


def containers(n):
    s = lambda i, t: sym(f'{n}{i}', t)  # noqa: E731
    return [
        ('[]', list), ('[n]', lambda: [s(0, 'float')]), ('[i]', lambda: [s(0, 'int')]), ('[n, n]', lambda: [s(0, 'float'), s(1, 'float')]), ('[s, n]', lambda: [s(0, 'str'), s(1, 'int')]),
        ('[null]', lambda: [None]), ('[true]', lambda: [True]), ('[n, null]', lambda: [s(0, 'float'), None]), ('[d]', lambda: [s(0, 'datetime')]), ('[date]', lambda: [s(0, 'date')]),
        ('[[n], s]', lambda: [[s(0, 'float')], s(1, 'str')]), ('[[], []]', lambda: [[], []]), ('[[[n]]]', lambda: [[[s(0, 'int')]]]), ('[{a: n}]', lambda: [{'a': s(0, 'float')}]),
        ('{}', dict), ('{a: n}', lambda: {'a': s(0, 'float')}), ('{a: s}', lambda: {'a': s(0, 'str')}), ('{b: n}', lambda: {'b': s(0, 'int')}), ('{b: n, a: n}', lambda: {'b': s(1, 'float'), 'a': s(0, 'float')}),
        ('{a: n, b: n}', lambda: {'a': s(0, 'int'), 'b': s(1, 'float')}), ('{a: null}', lambda: {'a': None}), ('{a: [n]}', lambda: {'a': [s(0, 'float')]}), ('{a: {b: [n]}}', lambda: {'a': {'b': [s(0, 'int')]}}),
        ('{a: {c: 1}}', lambda: {'a': {'c': 1}}), ('{A: n}', lambda: {'A': s(0, 'float')}), ('{aa: n}', lambda: {'aa': s(0, 'float')}), ("{'': n}", lambda: {'': s(0, 'float')}),
        ('{c: n, a: s, b: null}', lambda: {'c': s(0, 'float'), 'a': s(1, 'str'), 'b': None}),
    ]


def constants():
    vals = [0, 0.0, -0.0, 1, 1.0, True, False, -1, 2 ** 53, 2.0 ** 53, 2 ** 53 + 1, 1e300, -1e300, 10 ** 400, float('inf'), float('-inf'), 0.1, 0.30000000000000004, 5e-324, 10, 9, '', 'a', 'A', 'b', 'aa', '10', '9', 'null', 'é', '￿', '\U00010000', ' ', 'a\0',
            datetime.date(2024, 2, 29), datetime.datetime(2024, 2, 29), datetime.datetime(2024, 2, 29, 0, 0, 0, 1), datetime.datetime(2024, 2, 28, 23, 59, 59, 999999), datetime.datetime(2024, 2, 29, 12), datetime.datetime.min, datetime.datetime.max, datetime.date.min,
            datetime.datetime(2024, 2, 29, 12, tzinfo=UTC), datetime.datetime(2024, 2, 29, 13, tzinfo=datetime.timezone(datetime.timedelta(hours=1)))]
    out = [(repr(v), lambda v=v: v) for v in vals]
    boxed = [[0], [0.0], [False], [None], ['0'], [1, 2], [1, 2.0], [1, 10], [1, 9], [2], [[]], [[], 1], [[1], 2], [{}], [1, [2, [3]]], [1, [2, [4]]], [1.0, [2, [3], 0]], [datetime.date(2024, 2, 29)], ['a', 'b'], ['ab'], [None, None], [True],
             {'a': 1}, {'a': 1.0}, {'a': True}, {'a': 2}, {'b': 0}, {'a': 1, 'b': 0}, {'b': 0, 'a': 1.0}, {'a': None}, {'a': [1, {'x': None}]}, {'a': [1, {'x': 0}]}, {'ab': 1}, {'a': {'b': {'c': 1}}}, {'a': {'b': {'c': 2}}}, {'a': {'b': {}}}, {'': 1}, {'é': 1}, {'a': 1, 'b': 2, 'c': 3},
             {'c': 3, 'b': 2, 'a': 1}, {'a': 1, 'c': 0}, {'10': 1}, {'9': 1},
             {'a': 1, 'B': 2}, {'B': 2, 'a': 1}, {'a': 2, 'B': 1}, {'A': 1, 'b': 2}, {'b': 2, 'A': 1}, {'10': 1, '9': 2}, {'9': 2, '10': 1}, {'9': 1, '10': 2}, {'é': 1, 'z': 2}, {'z': 2, 'é': 1}, {'z': 1, 'é': 2}, {'a': 1, 'ab': 2}, {'ab': 2, 'a': 1}, {'ab': 1, 'a': 2},
             {'a': 1, 'B': 1, 'c': 1}, {'c': 1, 'B': 1, 'a': 1}, {'_': 1, 'a': 2, 'Z': 3}, {'Z': 3, '_': 1, 'a': 2}, {'a': 1, '': 2}, {'': 2, 'a': 1}, {'a b': 1, 'ab': 2}, {'b': 1, 'c': 0}, {'c': 0, 'b': 1}, {'b': [1, 2], 'a': {'d': 1, 'c': 2}}, {'a': {'c': 2, 'd': 1}, 'b': [1, 2]}, {'a': {'c': 2, 'D': 1}}, {'a': {'D': 1, 'c': 2}}]
    import copy
    out += [(repr(v), lambda v=v: copy.deepcopy(v)) for v in boxed]
    return out


def ordered(it, ref, items, desc=False):
    for x, y in zip(items, items[1:]):
        c = ref(it, x, y)
        if (c < 0 if desc else c > 0):
            return False, f'{show(x)} before {show(y)}'
    return True, ''


def permutation(it, got, want):
    """got has exactly the elements of want (by identity for containers)"""
    if not isinstance(got, list) or len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        for i, w in enumerate(left):
            if g is w or (not isinstance(w, (list, dict)) and type(g) is type(w) and g == w):
                del left[i]
                break
        else:
            return False
    return True


def run(prop, tier):
    ck = Check(prop, tier, 'sign of value_compare per ordered pair of type cells against the reference preorder; laws on opaque pairs/triples; sign tests and order of every consumer')
    vc = ck.fn('value', 'value_compare')
    ev = ck.fn('runtime', 'evaluate_expression')
    lib = ck.fn('library', 'SCRIPT_FUNCTIONS')
    ref = RefCompare(ck)
    wvc, wev = ck.where(vc), ck.where(ev)

    def cmp(it, a, b):
        r = it.call(vc, [a, b], {})
        if isinstance(r, Sym):
            return -1 if it.truth(it.compare('<', r, 0)) else (0 if it.truth(it.compare('==', r, 0)) else 1)
        return r

    def sign(r):
        return isinstance(r, (int, float)) and not isinstance(r, bool) and r in (-1, 0, 1)

    # R1 the pair table
    def pair(rule, cell, ma, mb):
        def thunk(it):
            a, b = ma(), mb()
            it.freeze(a, 'left'), it.freeze(b, 'right')
            return cmp(it, a, b), cmp(it, b, a), ref(it, a, b)

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            ab, ba, want = p.value
            if any(e[0] == 'mutate' for e in p.effects):
                return False, 'a comparison changes its operand'
            return sign(ab) and sign(ba) and ab == want and ba == -want, f'compare(a, b) = {ab}, compare(b, a) = {ba}, expected {want}'
        ck.cell(rule, cell, wvc, thunk, judge)

    cells = lambda n: scalars(n) + containers(n)  # noqa: E731
    for (na, ma), (nb, mb) in itertools.product(cells('a'), cells('b')):
        pair('R1 pair table', f'{na} ? {nb}', ma, mb)
    C = constants()
    for (na, ma), (nb, mb) in itertools.product(C, C):
        pair('R1 pair table', f'{na} ? {nb}', ma, mb)
    for (na, ma), (nb, mb) in itertools.product(cells('a'), C):
        pair('R1 pair table', f'{na} ? {nb}', ma, mb)
    # the same symbol on both sides, and one value against a changed copy at every position
    for na, ma in cells('a'):
        pair('R1 pair table', f'{na} ? itself', ma, ma)

        def thunk(it, ma=ma):
            a = ma()
            return cmp(it, a, a)
        ck.cell('R1 pair table', f'{na} ? same object', wvc, thunk, lambda p: (p.kind == 'return' and p.value == 0 and sign(p.value), f'compare(a, a) = {p!r}'))
    for shape in ('[x, y]', '[[x], y]', '[{a: x}, y]', '{a: x, b: y}', '{b: x, a: y}', '{a: [x], b: y}', '[x, [y]]', '[1, x, y]', '{a: 1, b: x, c: y}', '[[[x]], y]', '[x, y, z]'):
        def build(x, y, z, shape=shape):
            return {'[x, y]': lambda: [x, y], '[[x], y]': lambda: [[x], y], '[{a: x}, y]': lambda: [{'a': x}, y], '{a: x, b: y}': lambda: {'a': x, 'b': y}, '{b: x, a: y}': lambda: {'b': x, 'a': y},
                    '{a: [x], b: y}': lambda: {'a': [x], 'b': y}, '[x, [y]]': lambda: [x, [y]], '[1, x, y]': lambda: [1.0, x, y], '{a: 1, b: x, c: y}': lambda: {'a': 1, 'b': x, 'c': y},
                    '[[[x]], y]': lambda: [[[x]], y], '[x, y, z]': lambda: [x, y, z]}[shape]()
        kinds = ['int', 'float', 'str', 'bool', 'none', 'datetime'] if not ck.thorough else ['int', 'float', 'str', 'bool', 'none', 'datetime', 'date', 'datetime_aware', 'regex']

        def mk(k, n):
            return None if k == 'none' else sym(n, k)
        for ka, kb, kc in itertools.product(kinds, kinds, kinds):
            pair('R1 pair table', f'{shape} of {ka},{kc},{kc} ? {shape} of {kb},{kc},{kc}', lambda ka=ka, kc=kc: build(mk(ka, 'a0'), mk(kc, 'a1'), mk(kc, 'a2')), lambda kb=kb, kc=kc: build(mk(kb, 'b0'), mk(kc, 'b1'), mk(kc, 'b2')))

    # R2 the laws on opaque triples
    tri = [c for c in cells('x') if c[0] in (('null', 'true', 'boolean', 'int', 'float', 'string', 'datetime', 'date', 'function', 'regex', '[n]', '[n, n]', '{a: n}', '{b: n}') if not ck.thorough else [x[0] for x in cells('x')])]
    names = [c[0] for c in tri]
    pool = {n: dict(cells(n)) for n in 'abc'}
    for na, nb, nc in itertools.product(names, names, names):
        def thunk(it, na=na, nb=nb, nc=nc):
            a, b, c = pool['a'][na](), pool['b'][nb](), pool['c'][nc]()
            return cmp(it, a, b), cmp(it, b, c), cmp(it, a, c)

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            ab, bc, ac = p.value
            if not all(sign(x) for x in p.value):
                return False, f'{p.value}'
            ok = (ac <= 0 if ab <= 0 and bc <= 0 else True) and (ac >= 0 if ab >= 0 and bc >= 0 else True) and (ac < 0 if ab <= 0 and bc <= 0 and ab + bc < 0 else True) and (ac > 0 if ab >= 0 and bc >= 0 and ab + bc > 0 else True)
            return ok, f'compare(a,b) = {ab}, compare(b,c) = {bc}, compare(a,c) = {ac}'
        ck.cell('R2 transitivity', f'{na}, {nb}, {nc}', wvc, thunk, judge)
    # int and float spelling of one integral number are interchangeable
    if True:
        for n in (0, 1, -1, 7, 10 ** 15 - 1, -(10 ** 15) + 1, 2 ** 52):
            for no, mo in cells('o') + C:
                def thunk(it, n=n, mo=mo):
                    o = mo()
                    return cmp(it, n, o), cmp(it, float(n), o), cmp(it, [n], [o]), cmp(it, [float(n)], [o]), cmp(it, {'k': n}, {'k': o}), cmp(it, {'k': float(n)}, {'k': o})
                ck.cell('R2 spelling', f'{n} ? {no}', wvc, thunk, lambda p: (p.kind == 'return' and p.value[0] == p.value[1] and p.value[2] == p.value[3] and p.value[4] == p.value[5], f'{p!r}'))

    # R3 operators and systemCompare are sign tests
    SIGN = {'<': lambda c: c < 0, '<=': lambda c: c <= 0, '>': lambda c: c > 0, '>=': lambda c: c >= 0, '==': lambda c: c == 0, '!=': lambda c: c != 0}
    some = [c for c in C if c[0] in ('0', '0.0', '1', '1.0', 'True', '-1', "''", "'a'", "'10'", '9', '10', 'inf', '[0]', '[0.0]', '[False]', "{'a': 1}", "{'a': 1.0}", 'datetime.date(2024, 2, 29)', 'datetime.datetime(2024, 2, 29, 0, 0)',
                                            'datetime.datetime(2024, 2, 29, 12, 0)', '9007199254740992', '9007199254740992.0', '9007199254740993', '[1, 2]', '[1, 10]')]
    opcells = scalars('a') + [c for c in containers('a') if c[0] in ('[]', '[n]', '{}', '{a: n}', '[n, n]')]
    opcells_b = scalars('b') + [c for c in containers('b') if c[0] in ('[]', '[n]', '{}', '{a: n}', '[n, n]')]
    for op in COMPARE:
        for (na, ma), (nb, mb) in itertools.chain(itertools.product(opcells, opcells_b), itertools.product(some, some)):
            def thunk(it, op=op, ma=ma, mb=mb):
                a, b = ma(), mb()
                return it.call(ev, [binary(op, var('a'), var('b')), {'globals': {'a': a, 'b': b}}, None, False], {}), ref(it, a, b)

            def judge(p, op=op):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                got, c = p.value
                if isinstance(got, Sym):
                    got = ck.it.truth(got)
                return got is SIGN[op](c), f'{op} gives {got}, comparison {c}'
            ck.cell('R3 sign tests', f'{na} {op} {nb}', wev, thunk, judge)
        for (na, ma), la, side in itertools.product(opcells, (num(0), num(1), string(''), string('a'), var('null'), var('true')), 'lr'):
            def thunk(it, op=op, ma=ma, la=la, side=side):
                a = ma()
                k, v = next(iter(la.items()))
                v = {'null': None, 'true': True}[v] if k == 'variable' else v
                e = binary(op, la, var('a')) if side == 'l' else binary(op, var('a'), la)
                return it.call(ev, [e, {'globals': {'a': a}}, None, False], {}), ref(it, v, a) if side == 'l' else ref(it, a, v)

            def judge(p, op=op):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                got, c = p.value
                if isinstance(got, Sym):
                    got = ck.it.truth(got)
                return got is SIGN[op](c), f'{op} gives {got}, comparison {c}'
            ck.cell('R3 sign tests', f'{show(la)} {op} {na} {side}', wev, thunk, judge)
    def libcall(it, name, *args):
        g = {f'a{i}': v for i, v in enumerate(args)}
        return it.call(ev, [fcall(name, *[var(x) for x in g]), {'globals': {**g, name: lib[name]}}, None, False], {})

    sc = lib.get('systemCompare')
    for (na, ma), (nb, mb) in itertools.chain(itertools.product(opcells, opcells_b), itertools.product(some, some)):
        def thunk(it, ma=ma, mb=mb):
            a, b = ma(), mb()
            r = libcall(it, 'systemCompare', a, b)
            return r, ref(it, a, b)
        ck.cell('R3 sign tests', f'systemCompare {na}, {nb}', ck.where(sc), thunk,
                lambda p: (p.kind == 'return' and (sign(p.value[0]) and p.value[0] == p.value[1] if not isinstance(p.value[0], Sym) else None), f'{p!r}'))

    # R4 least and greatest
    kinds = {'float': lambda n: sym(n, 'float'), 'int': lambda n: sym(n, 'int'), 'str': lambda n: sym(n, 'str'), 'null': lambda n: None, 'bool': lambda n: sym(n, 'bool'), 'datetime': lambda n: sym(n, 'datetime'), 'date': lambda n: sym(n, 'date'),
             'array': lambda n: [sym(n, 'float')], 'object': lambda n: {'k': sym(n, 'float')}, '0': lambda n: 0, '[]': lambda n: [], 'false': lambda n: False, "''": lambda n: '', 'regex': lambda n: sym(n, 'regex')}
    mixes = [('float',) * 3, ('str',) * 3, ('datetime',) * 3, ('array',) * 3, ('object',) * 3, ('float', 'int', 'float'), ('int', 'float'), ('bool',) * 3]
    mixes += list(itertools.product(kinds, kinds)) + [(k,) for k in kinds]
    small = ['float', 'str', 'null', '0', 'bool', '[]', 'object', "''", 'false']
    mixes += list(itertools.product(small, small, small))
    if ck.thorough:
        mixes += list(itertools.product(kinds, kinds, kinds)) + [('float',) * 4, ('float', 'null', 'float', 'float'), ('str', 'float', 'str', 'null')]
    for name, sgn in (('mathMin', 1), ('mathMax', -1)):
        f = lib.get(name)
        for mix in sorted(set(mixes)):
            def thunk(it, mix=mix, name=name):
                args = [kinds[k](f'a{i}') for i, k in enumerate(mix)]
                got = libcall(it, name, *args)
                return got, args, [ref(it, got, a) for a in args]

            def judge(p, sgn=sgn, name=name):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                got, args, cs = p.value
                if not any(got is a or type(got) is type(a) and not isinstance(a, (list, dict)) and got == a for a in args):
                    return False if not isinstance(got, Sym) or got.op else None, f'{name} gives {show(got)}, not one of {show(args)}'
                return all(c * sgn <= 0 for c in cs), f'{name}{show(args)} gives {show(got)}: comparisons with the arguments {cs}'
            ck.cell('R4 least and greatest', f'{name} {mix}', ck.where(f), thunk, judge)
        lists = [[3, 1, 2], [1, 1.0, True], [None, 0, ''], ['b', 'a', None], [[2], [1, 5], [1]], [{'a': 2}, {'a': 1}, {}], [10, 9, '9'], [datetime.date(2024, 1, 2), datetime.datetime(2024, 1, 1, 12)], [0, -0.0], [5], [True, False], [float('inf'), 1e308, -1e308],
                 [2 ** 53, 2.0 ** 53, 2 ** 53 + 1], [1, 2, 3, 2, 1], [3, 2, 1, 2, 3, 0, 5]]
        for base in lists:
            for args in itertools.permutations(base) if len(base) < 4 else [base]:
                args = list(args)

                def thunk(it, args=args, name=name):
                    got = libcall(it, name, *args)
                    return got, args, [ref(it, got, a) for a in args]
                ck.cell('R4 least and greatest', f'{name} {args!r}', ck.where(f), thunk, lambda p, sgn=sgn: (p.kind == 'return' and any(p.value[0] is a for a in p.value[1]) and all(c * sgn <= 0 for c in p.value[2]), f'{p!r}'))

    # R5 searching: the first / last index whose element compares equal
    for name, rev in (('arrayIndexOf', False), ('arrayLastIndexOf', True)):
        f = lib.get(name)
        vcells = [c for c in scalars('v') if c[0] != 'function'] + [c for c in containers('v') if c[0] in ('[]', '[n]', '{}', '{a: n}', '[n, n]', '{b: n, a: n}')]
        ecells = [(k, m) for k, m in kinds.items()]
        for nv, mv in vcells:
            for mix in list(itertools.product(kinds, repeat=1)) + [(a, b) for a in ('float', 'str', 'null', 'array', 'object', 'datetime', 'bool', '0', '[]', 'false', "''", 'int') for b in ('float', 'str', 'null', 'array', '0', 'date')] + [('float',) * 3, ('object',) * 2]:
                for start in (None, 0.0, 1.0, 2):
                    if start is not None and (start >= len(mix) or start == 2 and not ck.thorough):
                        continue

                    def thunk(it, mix=mix, mv=mv, start=start, name=name):
                        arr, v = [kinds[k](f'a{i}') for i, k in enumerate(mix)], mv()
                        got = libcall(it, name, arr, v, *([] if start is None else [start]))
                        rng = range(int(start or 0), len(arr)) if not rev else range(len(arr) - 1 if start is None else int(start), -1, -1)
                        want = -1
                        for ix in rng:
                            if ref(it, arr[ix], v) == 0:
                                want = ix
                                break
                        return got, want
                    ck.cell('R5 searching', f'{name} {mix} for {nv} from {start}', ck.where(f), thunk, lambda p: (p.kind == 'return' and p.value[0] == p.value[1], f'{p!r}'), 300)
        for arr in ([1, True, '1', None], [True, 1], [1.0, 1], [None, 0, False, '', []], [[1], [1.0], [True]], [{'a': 1}, {'a': 1.0}], [datetime.date(2024, 2, 29), datetime.datetime(2024, 2, 29)], [0, -0.0], ['a', 'A', 'a'], [[], {}, ''], [2 ** 53, 2 ** 53 + 1]):
            for v in arr + [1, '1', True, None, 0.0, [], {}, {'a': 1}, datetime.datetime(2024, 2, 29)]:
                def thunk(it, arr=arr, v=v, name=name):
                    got = libcall(it, name, arr, v)
                    hits = [i for i, x in enumerate(arr) if ref(it, x, v) == 0]
                    return got, (hits[-1] if rev else hits[0]) if hits else -1
                ck.cell('R5 searching', f'{name} {arr!r} for {v!r}', ck.where(f), thunk, lambda p: (p.kind == 'return' and p.value[0] == p.value[1], f'{p!r}'))

    # R6 sorting gives an ordered permutation
    f = lib.get('arraySort')
    smix = sorted(set(m for m in mixes if len(m) <= 3) | {('float',) * 4, ()})
    for mix in smix:
        def thunk(it, mix=mix):
            arr = [kinds[k](f'a{i}') for i, k in enumerate(mix)]
            got = libcall(it, 'arraySort', arr if not mix else list(arr))
            return got, arr, ordered(it, ref, got) if isinstance(got, list) else None

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            got, arr, o = p.value
            if not permutation(ck.it, got, arr):
                return False, f'{show(got)} is not a permutation of {show(arr)}'
            return o
        ck.cell('R6 sorting', f'arraySort {mix}', ck.where(f), thunk, judge)
    big = [[5, 3, 1, 4, 2, 3.0], ['b', 'a', 'C', '', 'é'], [None, 1, 'a', True, [1], {'a': 1}, datetime.date(2024, 1, 1), 0.5, False, [], {}], [[2, 1], [1, 2], [1], []], [{'b': 1}, {'a': 2}, {'a': 1, 'b': 1}, {'a': 1}], [10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0],
           [datetime.datetime(2024, 1, 1, 12), datetime.date(2024, 1, 2), datetime.date(2024, 1, 1)], [2 ** 53 + 1, 2.0 ** 53, 2 ** 53], [1e308, float('-inf'), 0, -0.0, float('inf')], [0] * 5, list('thequickbrownfox')]
    for arr in big:
        for a in (arr, arr[::-1], arr[1:] + arr[:1]):
            ck.cell('R6 sorting', f'arraySort {a!r}', ck.where(f), lambda it, a=a: (lambda got: (got, ordered(it, ref, got)))(libcall(it, 'arraySort', list(a))),
                    lambda p, a=a: ((False, f'not a permutation: {p!r}') if p.kind != 'return' or not permutation(ck.it, p.value[0], a) else p.value[1]))

    # R7 sorting rows
    f = lib.get('dataSort')

    def rowcmp(it, sorts, r1, r2):
        for s in sorts:
            c = ref(it, r1.get(s[0]), r2.get(s[0]))
            if c:
                return -c if len(s) > 1 and s[1] is True else c
        return 0
    fields = {'float': lambda n: sym(n, 'float'), 'str': lambda n: sym(n, 'str'), 'null': lambda n: None, 'datetime': lambda n: sym(n, 'datetime'), '0': lambda n: 0, '1': lambda n: 1.0, "''": lambda n: '', 'bool': lambda n: sym(n, 'bool'), 'array': lambda n: [sym(n, 'float')]}
    sortspecs = [[['a']], [['a', False]], [['a', True]], [['a'], ['b']], [['a', True], ['b']], [['a'], ['b', True]], [['b', True], ['a', True]], []]
    keys = [('float', 'float'), ('float', 'str'), ('str', 'null'), ('null', 'float'), ('0', 'float'), ('0', '0'), ('1', "''"), ('datetime', '0'), ('bool', '1'), ('array', '0'), (None, 'float'), (None, '0'), ('0', None)]
    combos = [(x, x) for x in keys] + list(itertools.product(keys, keys)) + [(x, x, x) for x in keys[:6]] + [(keys[4], keys[5], keys[0])]
    for sorts in sortspecs:
        for combo in sorted(set(combos), key=str):
            def thunk(it, sorts=sorts, combo=combo):
                rows = []
                for i, (ka, kb) in enumerate(combo):
                    r = {'id': i}
                    if ka is not None:
                        r['a'] = fields[ka](f'a{i}')
                    if kb is not None:
                        r['b'] = fields[kb](f'b{i}')
                    rows.append(r)
                got = libcall(it, 'dataSort', list(rows), [list(s) for s in sorts])
                bad = None
                if isinstance(got, list) and all(isinstance(r, dict) for r in got):
                    for x, y in zip(got, got[1:]):
                        if rowcmp(it, sorts, x, y) > 0:
                            bad = f'{show(x)} before {show(y)}'
                return got, rows, bad

            def judge(p):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                got, rows, bad = p.value
                if not permutation(ck.it, got, rows):
                    return False, f'{show(got)} is not a permutation of {show(rows)}'
                return bad is None, f'rows out of order: {bad}'
            ck.cell('R7 sorting rows', f'dataSort {sorts} {combo}', ck.where(f), thunk, judge, 400)
    return ck.finish()
