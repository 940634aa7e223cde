"""C12 One number type: int and float spellings of a number are interchangeable"""

import datetime
import itertools
import math

from absint.values import HostFn, Sym, show, sym, term

from .common import Check
from .lab import OPS, binary, fcall, host, unary, var
from .refrun import outcome
from .signatures import SIG, WRONG, has_number, kind, pool, spell

TECHNIQUE = ('relational abstract interpretation: every operator, library function and statement position is evaluated twice in one abstract state, '
             'with each integral number spelled as int and as float (opaque n against float(n), and constants), and the two outcomes are compared')
NOTE = ('Every library function except clock, random and fetch is covered with arguments drawn per documented kind (constants, opaque integers below 1e15, wrong kinds), spelled int / float / mixed, '
        'recursively in arrays and objects; result, failure, log, argument state, callback arguments and globals are compared. Opaque cells whose terms cannot be related are counted undecided.')

SKIP = ('datetimeNow', 'datetimeToday', 'mathRandom', 'systemFetch')
LIM = 10 ** 15


def alike(it, a, b, depth=0):
    """Are two values the same BareScript value (numbers irrespective of spelling)? three-valued"""
    if a is b:
        return True
    if depth > 12:
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        rs = [alike(it, x, y, depth + 1) for x, y in zip(a, b)]
    elif isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return False
        rs = [alike(it, a[k], b[k], depth + 1) for k in a]
    elif isinstance(a, Sym) or isinstance(b, Sym):
        ta, tb = it.types_of(a), it.types_of(b)
        num = {'int', 'float'}
        if not ta & tb and not (ta & num and tb & num):
            return False
        return it.same(a, b)
    elif isinstance(a, bool) or isinstance(b, bool):
        return a is b if isinstance(a, bool) and isinstance(b, bool) else False
    elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or a != a and b != b
    elif callable(a) and callable(b) or isinstance(a, HostFn) and isinstance(b, HostFn):
        return True
    elif isinstance(a, (str, datetime.date)) or a is None or b is None:
        return type(a) is type(b) and a == b
    else:
        return True if type(a) is type(b) else False
    if any(r is False for r in rs):
        return False
    return None if any(r is None for r in rs) else True


def run(prop, tier):
    ck = Check(prop, tier, 'equality of outcome between the int and the float spelling, per library function / operator and argument cell')
    ev = ck.fn('runtime', 'evaluate_expression')
    es = ck.fn('runtime', 'execute_script')
    ps = ck.fn('parser', 'parse_script')
    lib = ck.fn('library', 'SCRIPT_FUNCTIONS')
    wev = ck.where(ev)

    def observe(it, name, args, fspell):
        """One call: everything a script or host can observe"""
        logs, calls = [], []
        log = HostFn('logFn', lambda i, a, kw: logs.append(a[0]))
        g = {f'a{i}': v for i, v in enumerate(args)}
        g[name] = lib[name]
        g = {k: callback(v, calls, fspell) for k, v in g.items()}
        opts = {'globals': g, 'logFn': log, 'debug': True}
        o = outcome(it, ev, fcall(name, *[var(f'a{i}') for i in range(len(args))]), opts, None, False)
        r = o[1] if o[0] == 'ok' else None
        ident = [r is v for v in args] if isinstance(r, (list, dict)) else []
        if name == 'systemPartial' and o[0] == 'ok' and r is not None:
            o = ('ok', outcome(it, r, [fspell(3)], opts))
        # the text of a failure that is not an argument error is made by Python or the schema library
        logs = ['failure' if isinstance(x, str) and 'failed' in x and ('argument value' not in x or name.startswith('schema')) else x for x in logs]
        return [list(o), ident, logs, calls, {k: v for k, v in g.items() if k != name}]

    class Callback:
        """A callback argument: what it returns, by its arguments"""

        def __init__(self, name, result):
            self.name, self.result = name, result

        def __repr__(self):
            return self.name

    def callback(v, calls, fspell):
        if not isinstance(v, Callback):
            return v

        def fn(it, a, kw):
            calls.append([x for x in a[0]])
            return v.result(it, a[0], fspell)
        return HostFn(v.name, fn)

    def cmpfn(it, a, f):
        x, y = a
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return f((y > x) - (y < x))
        return f(0)
    CALLBACKS = {'compare': [None, Callback('descending', cmpfn), Callback('zero', lambda it, a, f: f(0)), Callback('bad', lambda it, a, f: None)],
                 'function': [Callback('count', lambda it, a, f: f(len(a))), Callback('first', lambda it, a, f: a[0] if a else None)],
                 'regex': [sym('re', 'regex')]}
    PRED = [Callback('is one', lambda it, a, f: f(1) if a[0] == 1 else f(0)), Callback('never', lambda it, a, f: f(0))]

    def kpool(k):
        return CALLBACKS.get(k) or pool(k)

    def compare(rule, cell, name, thunk, max_paths=100):
        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            a, b = p.value
            rs = [alike(ck.it, x, y) for x, y in zip(a, b)]
            what = ('result', 'identity of the result', 'log', 'callback arguments', 'arguments after the call')
            bad = [w for w, r in zip(what, rs) if r is False]
            if bad:
                i = what.index(bad[0])
                return False, f'{bad[0]} differs between the spellings: {show(a[i])[:250]} against {show(b[i])[:250]}'
            return None if any(r is None for r in rs) else True
        ck.cell(rule, cell, ck.where(lib[name]), thunk, judge, max_paths)

    spellings = [('float', float)]

    def sample(it, cap):
        """At most cap elements, evenly spread"""
        xs = list(it)
        if len(xs) <= cap:
            return xs
        step = len(xs) / cap
        return [xs[int(i * step)] for i in range(cap)]

    # R1 library functions on constants
    cap = 1500 if ck.thorough else 260
    for name in sorted(lib):
        if name in SKIP:
            continue
        sig = SIG.get(name)
        lists = []
        if sig is None:
            # an unknown function: generic arguments
            g = pool('any') + pool('number')[:4]
            lists = [list(x) for n in range(4) for x in sample(itertools.product(g, repeat=n), cap // 4)]
        else:
            rest = sig and sig[-1].endswith('*')
            base = [k for k in sig if not k.endswith('*')]
            low = len([k for k in base if not k.endswith('?')])
            pools = [kpool(kind(k)) for k in base]
            for n in range(low, len(base) + 1):
                lists += [list(x) for x in sample(itertools.product(*pools[:n]), cap)]
            if rest:
                rp = kpool(kind(sig[-1]))
                pre = [p[0] for p in pools]
                for n in range(0, 5):
                    lists += [pre + list(x) for x in sample(itertools.product(rp, repeat=n), cap // 4)]
                for i in range(len(rp)):
                    lists.append(pre + rp[i:] + rp[:i])
            first = [p[0] for p in pools]
            for i in range(len(first)):
                for w in WRONG:
                    lists.append(first[:i] + [w] + first[i + 1:])
            lists += [first[:n] for n in range(len(first))] + [first + [1], first + [1, 'x']]
            if name == 'dataAggregate':
                big = [LIM - 1] * 11, [LIM - 1, -(LIM - 1)] * 6, [1, 2, 4] * 3, [LIM - 1, 0.5, 1] * 5, [7, True], [3, 'x']
                for vs, f in itertools.product(big, ('sum', 'average', 'count', 'max', 'min', 'stddev')):
                    lists.append([[{'v': v} for v in vs], {'measures': [{'field': 'v', 'function': f}]}])
            if name in ('arrayIndexOf', 'arrayLastIndexOf'):
                for arr, cb, ix in itertools.product(pool('array'), PRED, [None, 0, 1, 2]):
                    lists.append([arr, cb] + ([] if ix is None else [ix]))
        for ix, args in enumerate(lists):
            if not any(has_number(a) or isinstance(a, Callback) for a in args):
                continue
            variants = [('float', lambda i, v: spell(v, float))]
            if sum(has_number(a) for a in args) > 1 and ix % (2 if ck.thorough else 4) == 0:
                variants += [('first float', lambda i, v: spell(v, float if i == 0 else int)), ('last float', lambda i, v, n=len(args): spell(v, float if i == n - 1 else int))]
            for vn, mk in variants:
                def thunk(it, args=args, mk=mk, name=name):
                    a = observe(it, name, [v if isinstance(v, (Callback, Sym)) else spell(v, int) for v in args], int)
                    it.reset_effects() if hasattr(it, 'reset_effects') else None
                    b = observe(it, name, [v if isinstance(v, (Callback, Sym)) else mk(i, v) for i, v in enumerate(args)], float)
                    return a, b
                compare('R1 library constants', f'{name} {show(args)[:400]} #{ix} {vn}', name, thunk)

    # R2 library functions on opaque integers: n against float(n)
    def flt(n):
        return term('flt', n, ty='float')

    def opaque(it, n, lo, hi):
        s = sym(n, 'int')
        it.facts.set_bounds(s, lo, hi)
        return s
    containers = {
        'array': [lambda f, n: [f(n[1]), 'x', None], lambda f, n: ['a', 'b', 'c', 'd'], lambda f, n: [f(n[1]), f(n[2])]],
        'object': [lambda f, n: {'a': f(n[1]), 'b': 'x'}, lambda f, n: {'a': [f(n[1])], 'c': {'d': f(n[2])}}],
        'any': [lambda f, n: f(n[3]), lambda f, n: [f(n[3])], lambda f, n: {'k': f(n[3])}],
        'data': [lambda f, n: [{'a': f(n[1]), 'b': f(n[2])}, {'a': f(n[1]), 'b': f(n[3])}], lambda f, n: [{'a': 'x', 'b': f(n[1])}, {'a': 'x', 'b': f(n[2])}]],
        'code': [lambda f, n: f(n[1])],
        'string': [lambda f, n: 'abcabc', lambda f, n: 'b', lambda f, n: sym('s', 'str')],
    }
    INTS = ('index', 'size', 'count', 'digits', 'radix', 'indent', 'number', 'year', 'part', 'code')
    for name in sorted(lib):
        sig = SIG.get(name)
        if sig is None or name in SKIP:
            continue
        base = [k for k in sig]
        low = len([k for k in base if not k[-1] in '?*'])
        for n in range(low, len(base) + 2):
            ks = [kind(k) for k in (base + [base[-1]] if n > len(base) and base and base[-1].endswith('*') else base)[:n]]
            if len(ks) < n:
                continue
            opts = []
            for k in ks:
                if k in INTS and k not in containers:
                    opts.append([lambda f, ns: f(ns[0])])
                else:
                    opts.append(containers.get(k) or [(lambda f, ns, v=v: v if isinstance(v, (Callback, Sym)) else spell(v, f)) for v in (kpool(k) if k not in ('expr', 'aggregation') else pool(k))[:6]])
            for ci, combo in enumerate(sample(itertools.product(*opts), 60 if ck.thorough else 24)):
                for lo, hi in ((0, 3), (-LIM + 1, LIM - 1)) if not ck.thorough else ((0, 3), (-5, 40), (-LIM + 1, LIM - 1)):
                    if not any(k in INTS or k in containers for k in ks):
                        continue

                    def thunk(it, combo=combo, ks=ks, lo=lo, hi=hi, name=name):
                        ns = [None] + [opaque(it, f'n{i}', -LIM + 1, LIM - 1) for i in (1, 2, 3)]
                        ints = [opaque(it, f'i{i}', lo, hi) for i in range(len(ks))]
                        a = observe(it, name, [m(int_, [ints[i]] + ns[1:]) for i, m in enumerate(combo)], int)
                        b = observe(it, name, [m(flt_, [ints[i]] + ns[1:]) for i, m in enumerate(combo)], float)
                        return a, b

                    def int_(x):
                        return x if isinstance(x, Sym) else int(x)

                    def flt_(x):
                        return flt(x) if isinstance(x, Sym) else float(x)
                    compare('R2 library opaque', f'{name} {ks} #{ci} [{lo},{hi}]', name, thunk, 200 if ck.thorough else 60)

    # R3 operators
    nums = [0, 1, -1, 2, 3, 7, 10, 40, 999999999999999, -999999999999999, 94906267, 400]
    others = [None, True, False, '', 'a', '1', [1], [1, 'a'], {'a': 1}, {}, [], 0.5, -2.5, datetime.datetime(2024, 2, 29, 12), datetime.date(2024, 2, 29)]

    def both(rule, cell, expr, mk, where=wev):
        def thunk(it):
            return [list(outcome(it, ev, expr, {'globals': mk(it, f)}, None, False)) for f in (int, float)]

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            return alike(ck.it, *p.value), f'int: {show(p.value[0])[:250]}, float: {show(p.value[1])[:250]}'
        ck.cell(rule, cell, where, thunk, judge)
    for op in OPS:
        for a, b in itertools.chain(itertools.product(nums, nums), itertools.product(nums, others), itertools.product(others, nums), itertools.product(others[6:12], others[6:12])):
            if not (has_number(a) or has_number(b)):
                continue
            for l, r in (('f', 'f'), ('f', 'i'), ('i', 'f')):
                if l == 'i' and not has_number(b) or r == 'i' and not has_number(a):
                    continue
                both('R3 operators', f'{a!r} {op} {b!r} {l}{r}', binary(op, var('a'), var('b')),
                     lambda it, f, a=a, b=b, l=l, r=r: {'a': spell(a, f if l == 'f' else int), 'b': spell(b, f if r == 'f' else int)})
        # opaque operands
        oth = [('n', None), ('str', lambda: sym('o', 'str')), ('float', lambda: sym('o', 'float')), ('datetime', lambda: sym('o', 'datetime')), ('bool', lambda: True), ('null', lambda: None), ('1', lambda: 1.0), ('array', lambda: [1.0]),
               ('same', 'same')]
        for on, om in oth:
            for side in 'lr':
                def mk(it, f, on=on, om=om, side=side):
                    n, m = opaque(it, 'n', -LIM + 1, LIM - 1), opaque(it, 'm', -LIM + 1, LIM - 1)
                    s = (lambda x: x) if f is int else flt
                    o = s(m) if om is None else s(n) if om == 'same' else om()
                    return {'a': s(n) if side == 'l' else o, 'b': o if side == 'l' else s(n)}
                both('R3 operators', f'opaque {op} {on} {side}', binary(op, var('a'), var('b')), mk)
                both('R3 operators', f'opaque in array {op} {on} {side}', binary(op, var('a'), var('b')), lambda it, f, mk=mk: {k: [v] for k, v in mk(it, f).items()})
    for op in '!-':
        for a in nums + others:
            if has_number(a):
                both('R3 operators', f'{op}{a!r}', unary(op, var('a')), lambda it, f, a=a: {'a': spell(a, f)})
        both('R3 operators', f'{op} opaque', unary(op, var('a')), lambda it, f: {'a': opaque(it, 'n', -LIM + 1, LIM - 1) if f is int else flt(opaque(it, 'n', -LIM + 1, LIM - 1))})

    # R4 statements: a number anywhere in a script
    scripts = ['if n:\nlog("t")\nelse:\nlog("f")\nendif', 'i = 0\nwhile i < n:\nlog(i)\ni = i + 1\nendwhile', 'for v, ix in a:\nlog(v, ix)\nendfor', 'return arrayGet(a, n)', 'return "" + n + a', 'x = n\nx = x * 2 - n\nreturn x',
               'function f(p, q...):\nreturn arrayNew(p, q)\nendfunction\nreturn f(n, a, n)', 'jumpif (n) l\nlog("no")\nl:\nlog("end")', "return if(n, 'y', 'z')", 'return arrayNew(n == 1, n < 2, n || 5, n && 6, -n, !n)', "return objectGet(objectNew('k', n), 'k')",
               'return stringRepeat("ab", n)', 'return stringSlice("abcdef", n)', 'return numberToFixed(n, n)', 'return slice("abcdef", n, n + 1)', 'return datetimeNew(2024, n, n)', 'return jsonStringify(arrayNew(n, a))', 'return jsonStringify(a, n)',
               'for v in a:\nif v == n:\nbreak\nendif\nlog(v)\nendfor', 'arraySet(a, n, n)\nreturn a', 'arrayDelete(a, n)\nreturn a', 'return arraySlice(a, n)', 'return arrayIndexOf(a, n)', 'return arrayLastIndexOf(a, n, n)', 'return arrayNewSize(n, n)',
               'return systemIs(n, arrayGet(a, 0))', 'return systemType(n)', 'return stringFromCharCode(65 + n, n)', 'return stringCharCodeAt("abc", n)', 'return numberParseInt("101", n)', 'return mathRound(1234.5678, n)', 'return mathLog(100, n)']
    for src in scripts:
        for n, arr in itertools.product([0, 1, 2, 3, 7, -1], [[1, 2, 3], [], [0, 'x', 2]]):
            def thunk(it, src=src, n=n, arr=arr):
                out = []
                for f in (int, float):
                    logs = []
                    o = outcome(it, es, it.call(ps, [src], {}), {'globals': {'n': f(n), 'a': spell(arr, f), 'log': HostFn('log', lambda i, a, kw, logs=logs: logs.append(list(a[0])))}, 'logFn': HostFn('logFn', lambda i, a, kw, logs=logs: logs.append(a[0])), 'debug': True})
                    if o[0] == 'ok' and logs and isinstance(logs[-1], str) and 'script executed in' in logs[-1].lower():
                        logs = logs[:-1]
                    out.append([list(o), logs])
                return out

            def judge(p):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                for w, x, y in zip(('result', 'log'), *p.value):
                    if w == 'log':
                        x, y = ([v for v in z if not isinstance(v, Sym) and not (isinstance(v, str) and 'duration' in v)] for z in (x, y))
                    r = alike(ck.it, x, y)
                    if r is not True:
                        return r, f'{w}: int {show(x)[:250]}, float {show(y)[:250]}'
                return True
            ck.cell('R4 scripts', f'{src!r} n={n} a={arr}', ck.where(es), thunk, judge)
    return ck.finish()
