"""C05 Runtime errors are contained: only documented exceptions escape"""

import datetime
import itertools

from absint.values import AInst, HostFn, PyExc, Sym, is_abs, show, sym
from absint.zones import rules

from .common import Check
from .lab import OPS, binary, cell_values, fcall, num, string, unary, var
from .refrun import outcome

TECHNIQUE = 'exception-flow abstract interpretation: every operator and call over type cells with all exceptional outcomes forked, and over boundary constants'
NOTE = ('For every operator x operand cell pair and every library function x argument cells, all modelled exceptional outcomes are followed: none but the documented '
        'exceptions may reach the caller and every result must be a BareScript value. Failing host functions (19 exception classes) are followed through every call '
        'position. Unbounded recursion (interpreter stack) is not covered.')

UTC = datetime.timezone.utc


def boundary():
    """Boundary constants: (name, maker)"""
    vals = [None, True, False, 0, 0.0, -0.0, 1, -1.0, 2.5, -3, 1024.0, 1e308, -1e308, 5e-324, float('inf'), float('-inf'), float('nan'), 2 ** 53, 1e16, 10 ** 400, -10 ** 400,
            '', 'a', '12', '\ud800', datetime.datetime.min, datetime.datetime.max, datetime.datetime(2024, 2, 29, 12, 30), datetime.date.max, datetime.date(2024, 2, 29),
            datetime.datetime(2024, 1, 1, tzinfo=UTC)]
    out = [(repr(v), lambda v=v: v) for v in vals]
    out += [('[]', list), ('[nan]', lambda: [float('nan')]), ('[inf]', lambda: [float('inf'), None]), ('[[1], {}]', lambda: [[1], {}]), ('{}', dict), ('{a: inf}', lambda: {'a': float('inf')}),
            ('{1: 2}', lambda: {1: 2}), ('{1: 2, a: 3}', lambda: {1: 2, 'a': 3}), ('{null: 1, a: 2}', lambda: {None: 1, 'a': 2}), ('[{1: 2, a: 3}]', lambda: [{1: 2, 'a': 3}]), ('function', lambda: HostFn('h', lambda it, a, k: None)), ('regex', lambda: sym('re', 'regex')),
            ('[function]', lambda: [HostFn('h', lambda it, a, k: None)]), ('[datetime, aware]', lambda: [datetime.datetime(2024, 1, 1), datetime.date(2024, 1, 2)]),
            ]
    return out


# host values that are not BareScript values: they may pass through, but must not raise
ALIEN = [('tuple', lambda: (1, 2)), ('complex', lambda: 1j), ('bytes', lambda: b'x'), ('set', lambda: {1}), ('tuple of aliens', lambda: (1j, [b'x'])), ('[set]', lambda: [{1}])]


EXCEPTIONS = [ValueError, TypeError, KeyError, IndexError, ZeroDivisionError, OverflowError, AttributeError, RecursionError, MemoryError, StopIteration, AssertionError, RuntimeError,
              NotImplementedError, OSError, LookupError, ArithmeticError, UnicodeError, NameError, Exception]


def is_value(v, depth=0):
    """A BareScript value (three-valued)"""
    if isinstance(v, Sym):
        return True if v.ty not in ('bytes', 'tuple', 'set', 'complex') else False
    if v is None or isinstance(v, (bool, int, float, str, datetime.date)):
        return True
    if isinstance(v, (list, dict)):
        if depth > 6:
            return True
        return all(is_value(x, depth + 1) for x in (v.values() if isinstance(v, dict) else v))
    if isinstance(v, (complex, bytes, tuple, set, frozenset, range)):
        return False
    if is_abs(v) or callable(v) or isinstance(v, AInst):
        return True
    return None


def deep_list(n):
    a = []
    for _ in range(n):
        a = [a]
    return a


def deep_dict(n):
    a = {}
    for _ in range(n):
        a = {'a': a}
    return a


def run(prop, tier):
    ck = Check(prop, tier, 'operators x operand cells (opaque, all exceptional outcomes forked; and boundary constants), library functions x argument cells, host exceptions x '
               'call positions, include failures; a cell is one expression or script: only a value or a documented exception comes out')
    ev = ck.fn('runtime', 'evaluate_expression')
    es = ck.fn('runtime', 'execute_script')
    ps = ck.fn('parser', 'parse_script')
    lib = ck.mod('library').env['SCRIPT_FUNCTIONS']
    runtime_error = ck.fn('runtime', 'BareScriptRuntimeError')
    parser_error = ck.fn('parser', 'BareScriptParserError')
    args_error = ck.fn('value', 'ValueArgsError')
    wev, wes = ck.where(ev), ck.where(es)
    _ = num, parser_error

    ALLOW = [False]

    def safe(p):
        """An outcome that may come out of evaluating an expression"""
        if p.kind != 'return':
            return False, f'raises {p.value!r}'
        o = p.value
        if o[0] == 'runtime':
            return True
        if o[0] != 'ok':
            return False, f'{o[0]}: {o[1]}'
        if ALLOW[0]:
            return True
        r = is_value(o[1])
        return r, f'{show(o[1])[:300]} is not a BareScript value'

    def forked(rule, cell, where, thunk, judge=safe, max_paths=400):
        def th(it):
            it.exc_forks = True
            try:
                return thunk(it)
            finally:
                it.exc_forks = False

        def judge2(p):
            r = judge(p)
            # a forked outcome may be impossible for the actual operands: the boundary constants decide
            if isinstance(r, tuple) and r[0] is False and (p.kind != 'return' or p.value[0] == 'raise'):
                return None, r[1]
            return r
        try:
            ck.cell(rule, cell, where, th, judge2, max_paths)
        finally:
            ck.it.exc_forks = False

    # R1 operators over opaque operands, exceptional outcomes forked
    extra = [('date', lambda: sym('d', 'date')), ('aware', lambda: sym('da', 'datetime_aware')), ('any', lambda: sym('any'))]
    for op in OPS:
        for (na, ma), (nb, mb) in itertools.product(cell_values('a') + extra, cell_values('b') + extra):
            forked('R1 operators', f'{na} {op} {nb}', wev, lambda it, op=op, ma=ma, mb=mb: outcome(it, ev, binary(op, var('a'), var('b')), {'globals': {'a': ma(), 'b': mb()}}))
    for op in '!-':
        for na, ma in cell_values('a') + extra:
            forked('R1 operators', f'{op}{na}', wev, lambda it, op=op, ma=ma: outcome(it, ev, unary(op, var('a')), {'globals': {'a': ma()}}))
    # boundary constants
    B = boundary()
    for op in OPS:
        for (na, ma), (nb, mb) in itertools.product(B + ALIEN, B + ALIEN):
            ALLOW[0] = any(n == x[0] for x in ALIEN for n in (na, nb))
            ck.cell('R1 operators', f'{na} {op} {nb}', wev, lambda it, op=op, ma=ma, mb=mb: outcome(it, ev, binary(op, var('a'), var('b')), {'globals': {'a': ma(), 'b': mb()}}), safe)
    for na, ma in B + ALIEN:
        ALLOW[0] = any(na == x[0] for x in ALIEN)
        for op in '!-':
            ck.cell('R1 operators', f'{op}{na}', wev, lambda it, op=op, ma=ma: outcome(it, ev, unary(op, var('a')), {'globals': {'a': ma()}}), safe)
        for n in range(5):
            ck.cell('R1 operators', f'if of {n} {na}', wev, lambda it, n=n, ma=ma: outcome(it, ev, fcall('if', *[var('a')] * n), {'globals': {'a': ma()}}), safe)
        for src in ('jumpif (a) x\nx:\nreturn a', 'if a:\nendif\nfor v in a:\nendfor', 'while a:\nbreak\nendwhile\nreturn a + 1', 'a(1)\nreturn a(a)', "return '' + a", 'function f(a, b...):\nreturn b\nendfunction\nreturn f(a, a)'):
            ck.cell('R1 operators', f'script {src!r} {na}', wes, lambda it, src=src, ma=ma: outcome(it, es, it.call(ps, [src], {}), {'globals': {'a': ma()}}), safe)
    ALLOW[0] = False
    # datetimes at the limits of the range, in time zones on either side
    edge = [datetime.datetime.min, datetime.datetime.max, datetime.datetime(1, 1, 1, 12), datetime.datetime(9999, 12, 31), datetime.date.min, datetime.date.max, datetime.datetime.min.replace(tzinfo=UTC), datetime.datetime.max.replace(tzinfo=UTC)]
    other = [None, 1.0, -1.0, 1e300, 'x', True, datetime.datetime(2024, 1, 1)]

    def zoned(zone, f):
        def thunk(it):
            it.zone = zone
            try:
                return f(it)
            finally:
                it.zone = None
        return thunk
    for zone in rules():
        if zone.name not in ('UTC', 'America/New_York', 'Etc/GMT+12', 'Pacific/Kiritimati'):
            continue
        for a in edge:
            for b in edge + other:
                for op in OPS:
                    for x, y in ((a, b), (b, a)):
                        ck.cell('R1 operators', f'{zone.name}: {x!r} {op} {y!r}', wev, zoned(zone, lambda it, op=op, x=x, y=y: outcome(it, ev, binary(op, var('a'), var('b')), {'globals': {'a': x, 'b': y}})), safe)
            for op in '!-':
                ck.cell('R1 operators', f'{zone.name}: {op}{a!r}', wev, zoned(zone, lambda it, op=op, a=a: outcome(it, ev, unary(op, var('a')), {'globals': {'a': a}})), safe)
            for src in ('jumpif (a) x\nx:\nreturn a', "return '' + a", 'if a == b:\nreturn a\nendif\nreturn a < b', "systemLog(a)\nsystemLogDebug(a)\nboom(a)\nreturn stringNew(a)"):
                ck.cell('R1 operators', f'{zone.name}: script {src!r} {a!r}', wes, zoned(zone, lambda it, src=src, a=a: outcome(it, es, it.call(ps, [src], {}), {
                    'globals': {'a': a, 'b': datetime.datetime(2024, 1, 1), 'boom': HostFn('boom', lambda i, x, kw: None)}, 'logFn': HostFn('log', lambda i, x, kw: None), 'debug': True})), safe)
    # calling something that is not a function
    for na, ma in B + cell_values('f') + extra:
        if na in ('function', 'any'):
            continue
        for ctx in ('local', 'global'):
            def thunk(it, ma=ma, ctx=ctx):
                f = ma()
                return outcome(it, ev, fcall('f', string('x')), {'globals': {'f': f} if ctx == 'global' else {}}, {'f': f} if ctx == 'local' else None, False), f

            def judge(p):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                o, f = p.value
                if f is None:
                    return o[0] == 'runtime', f'{o}'
                return o == ('ok', None), f'{o}'
            ck.cell('R2 containment', f'{na} called, {ctx}', wev, thunk, judge)

    # R2 failing host functions: contained, reported, execution continues
    def raising(make, log):
        def fn(it, a, kw):
            log.append(('boom', len(a[0])))
            raise PyExc(make(it))
        return HostFn('boom', fn)

    makers = [(c.__name__, lambda it, c=c: c('oops'), None) for c in EXCEPTIONS]
    makers += [('ValueArgsError null', lambda it: it.call(args_error, ['arg', 5], {}), None)]
    for rn, rv in (('-1', -1), ('false', False), ('0', 0), ("''", ''), ('[]', []), ('opaque', sym('failure'))):
        makers.append((f'ValueArgsError {rn}', lambda it, rv=rv: it.call(args_error, ['arg', 5, rv], {}), rv))
    ring = []
    ring.append(ring)
    for bn, bv in (('cycle', ring), ('object of cycle', {'a': ring}), ('deep', deep_list(3000)), ('nan', float('nan')), ('function', HostFn('h', lambda it, a, k: None)), ('set', {1}), ('object', {'a': float('inf')}), ('keys', {1: 2, 'a': 3}), ('surrogate', '\ud800')):
        makers.append((f'ValueArgsError of {bn}', lambda it, bv=bv: it.call(args_error, ['arg', bv, 7], {}), 7))
        makers.append((f'ValueArgsError too many {bn}', lambda it, bv=bv: it.call(args_error, [None, [bv], 8], {}), 8))
    positions = {
        'statement': ("boom(1)\nafter('x')", lambda r: [1]),
        'assignment': ('x = boom()\nafter(x)', None),
        'argument': ('after(boom(2), 1)', None),
        'nested': ('after(identity(boom(boom(1))))', None),
        'operand': ("x = boom()\nafter(x == boom())", 'skip'),
        'condition': ("if boom():\nafter(1)\nelse:\nafter(2)\nendif\nafter(3)", 'skip'),
        'return': ('function f():\nreturn boom()\nendfunction\nafter(f())', None),
        'function': ("function f():\nboom()\nreturn 5\nendfunction\nafter(f())", 'five'),
        'if': ('after(if(true, boom(), 1))', None),
        'include': ("include 'i'\nafter(y)", None),
        'callback': ("after(arrayIndexOf(arrayNew(1), boom))", 'skip'),
        'sort': ("arraySort(arrayNew(2, 1), boom)\nafter('x')", 'skip'),
        'sort function': ("function cmp(a, b):\nboom()\nreturn 0\nendfunction\narraySort(arrayNew(2, 1), cmp)\nafter('x')", 'skip'),
        'partial': ("p = systemPartial(boom, 1)\nafter(p(2))", None),
        'alias': ("b = boom\nafter(b())", None),
        'data': ("after(dataFilter(arrayNew(objectNew('a', 1)), 'boom(a)'))", 'skip'),
        'loop': ("for v in arrayNew(1, 2):\nboom(v)\nendfor\nafter('x')", 'skip'),
    }
    for en, mk, rv in makers:
        for pn, (src, exp) in positions.items():
            if pn not in ('statement', 'assignment', 'callback', 'function', 'sort function', 'data') and en not in ('ValueError', 'KeyError', 'ValueArgsError -1', 'RecursionError', 'ValueArgsError of function'):
                continue
            for mode in ('debug', 'quiet', 'debug no log', 'null log', 'debug off'):
                if mode != 'debug' and en not in ('ValueError', 'TypeError', 'ValueArgsError -1', 'ValueArgsError of nan'):
                    continue

                def thunk(it, mk=mk, src=src, mode=mode):
                    calls, logs, after = [], [], []
                    log = HostFn('logFn', lambda i, a, kw: logs.append(a[0]))
                    opts = {'globals': {'boom': raising(mk, calls), 'after': HostFn('after', lambda i, a, kw: after.append(list(a[0]))), 'identity': HostFn('identity', lambda i, a, kw: a[0][0])},
                            'fetchFn': HostFn('fetch', lambda i, a, kw: 'y = boom()')}
                    if mode in ('debug', 'quiet', 'debug off'):
                        opts['logFn'] = log
                    if mode == 'null log':
                        opts['logFn'] = None
                    if mode in ('debug', 'debug no log', 'null log'):
                        opts['debug'] = True
                    if mode == 'debug off':
                        opts['debug'] = False
                    o = outcome(it, es, it.call(ps, [src], {}), opts)
                    return o, calls, logs, after

                def judge(p, rv=rv, exp=exp, mode=mode, pn=pn):
                    if p.kind != 'return':
                        return False, f'raises {p.value!r}'
                    o, calls, logs, after = p.value
                    if o != ('ok', None):
                        return False, f'the failure is not contained: {show(o)[:300]}'
                    if not after:
                        return False, 'execution does not continue'
                    if exp is None and not isinstance(rv, Sym) and not (len(after) == 1 and after[0][0] == rv and type(after[0][0]) is type(rv)):
                        return False, f'the failed call gives {show(after)}, expected {rv!r}'
                    if exp == 'five' and after != [[5.0]]:
                        return False, f'the function gives {show(after)}'
                    if mode == 'debug':
                        if not logs:
                            return False, 'the failure is not reported through logFn'
                        names = ('arraySort', 'arrayIndexOf', 'p', 'b', 'boom')
                        if not all(isinstance(x, str) and any(n in x for n in names) or isinstance(x, Sym) for x in logs):
                            return None, f'report {show(logs)[:200]}'
                        if pn == 'statement' and len(logs) != len(calls):
                            return False, f'{len(calls)} failures, {len(logs)} reports'
                    elif logs:
                        return False, f'reported outside debug mode: {show(logs)[:200]}'
                    return True
                ck.cell('R2 containment', f'{en} {pn} {mode}', wes, thunk, judge)
    # whatever the message of the failure and the arguments of the failing call
    def cyclic():
        c = []
        c.append(c)
        return c
    args = [('none', None), ('nan', lambda: float('nan')), ('[inf]', lambda: [float('inf')]), ('cycle', cyclic), ('set', lambda: {1}), ('surrogate', lambda: '\ud800'), ('{1: 2}', lambda: {1: 2, 'a': 1}),
            ('first day', lambda: datetime.datetime.min), ('last day', lambda: datetime.datetime.max), ('function', lambda: HostFn('h', lambda it, a, k: None)), ('bytes', lambda: b'x'), ('huge', lambda: 10 ** 5000),
            ('opaque', lambda: sym('opaque')), ('object of cycle', lambda: {'a': cyclic()})]
    for c in (ValueError, KeyError, TypeError, OSError, AssertionError, StopIteration, UnicodeError, ArithmeticError):
        for mn, mk in (('no message', lambda c=c: c()), ('empty message', lambda c=c: c('')), ('blank message', lambda c=c: c(' ')), ('null message', lambda c=c: c(None)), ('two arguments', lambda c=c: c(1, b'x')), ('braces', lambda c=c: c('{0} {x} %s %d')), ('lines', lambda c=c: c('a\nb'))):
            for an, am in args:
                if an != 'none' and mn not in ('empty message', 'no message', 'braces') and c is not ValueError:
                    continue

                def thunk(it, mk=mk, am=am):
                    calls, logs, after = [], [], []
                    opts = {'globals': {'boom': raising(lambda i: mk(), calls), 'after': HostFn('after', lambda i, a, kw: after.append(list(a[0])))},
                            'logFn': HostFn('logFn', lambda i, a, kw: logs.append(a[0])), 'debug': True}
                    if am:
                        opts['globals']['v'] = am()
                    o = outcome(it, es, it.call(ps, ['after(boom(v, 1))\nafter(boom(v))'], {}), opts)
                    return o, calls, logs, after
                ck.cell('R2 containment', f'{c.__name__} {mn}, called with {an}', wes, thunk, lambda p: (
                    p.kind == 'return' and p.value[0] == ('ok', None) and p.value[3] == [[None], [None]] and len(p.value[2]) == 2 and all('boom' in x if isinstance(x, str) else True for x in p.value[2]), f'{show(p.value)[:400]}'))
    for name in sorted(lib):
        # wrong arguments whose value is hard to show in the report
        for an, am in args[1:]:
            if an in ('opaque', 'huge') and not ck.thorough:
                continue
            def thunk(it, name=name, am=am):
                logs = []
                opts = {'globals': {'v': am(), name: lib[name]}, 'logFn': HostFn('logFn', lambda i, a, kw: logs.append(a[0])), 'debug': True}
                r = [outcome(it, ev, fcall(name, *a), opts) for a in ([var('v')], [var('v'), var('v')], [string('a'), var('v')], [num(1), num(1), num(1), num(1), num(1), num(1), num(1), var('v'), var('v')])]
                return next((x for x in r if x[0] not in ('ok', 'runtime')), ('ok', None))
            ck.cell('R2 containment', f'{name} with {an}, reported', ck.where(lib[name]), thunk, safe, 40)
    # R5 values and programs that exhaust the host's recursion
    def cyc(kind):
        a, o = [], {}
        a.append(a)
        o['a'] = o
        b = [[a]]
        return {'array': a, 'object': o, 'array of object': [o], 'object of array': {'a': a}, 'nested': b, 'two': [1.0, a], 'long': deep_list(3000), 'long object': deep_dict(3000)}[kind]

    kinds = ('array', 'object', 'array of object', 'object of array', 'nested', 'two', 'long', 'long object')
    for ka in kinds:
        for kb in kinds:
            for op in ('==', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/', '%', '**', '&&', '||'):
                if ka != kb and ck.thorough is False and op not in ('==', '<', '>=', '+'):
                    continue
                def thunk(it, ka=ka, kb=kb, op=op):
                    return outcome(it, ev, binary(op, var('a'), var('b')), {'globals': {'a': cyc(ka), 'b': cyc(kb)}})
                ck.cell('R5 recursion', f'{ka} {op} another {kb}', wev, thunk, safe)
                if ka == kb:
                    def thunk2(it, ka=ka, op=op):
                        return outcome(it, ev, binary(op, var('a'), var('a')), {'globals': {'a': cyc(ka)}})
                    ck.cell('R5 recursion', f'{ka} {op} itself', wev, thunk2, safe)
        for src in ("jumpif (a) x\nx:\nreturn a", "return '' + a", "return a + ''", 'if a == a:\nreturn a\nendif\nreturn a < a', 'return !a', 'return -a', 'function f(a):\nreturn a >= a\nendfunction\nreturn f(a)',
                    'systemLog(a)\nsystemLogDebug(a)\nboom(a)\nreturn stringNew(a)', 'return arraySort(arrayNew(a, a))', "return dataFilter(arrayNew(objectNew('a', a)), 'a == a')", 'for v in a:\nx = v == a\nendfor',
                    'return systemCompare(a, a)', 'return jsonStringify(a)', 'return arrayIndexOf(arrayNew(a), a)', 'return systemIs(a, a)', 'return arrayJoin(a, a)'):
            for debug in (False, True):
                def thunk(it, src=src, ka=ka, debug=debug):
                    return outcome(it, es, it.call(ps, [src], {}), {'globals': {'a': cyc(ka), 'boom': raising(lambda i: ValueError('x'), [])}, 'logFn': HostFn('log', lambda i, x, kw: None), 'debug': debug})
                ck.cell('R5 recursion', f'{src!r} {ka} debug={debug}', wes, thunk, lambda p: (p.kind == 'return' and p.value[0][:1] == 'o', f'{show(p.value)[:300]}'))
    for nm, src in {
            'function': 'function f(n):\nreturn f(n + 1)\nendfunction\nf(0)\nreturn 7', 'function, statement': 'function f(n):\nf(n + 1)\nreturn 1\nendfunction\nf(0)\nreturn 7',
            'function in operand': 'function f(n):\nreturn 1 + f(n + 1)\nendfunction\nf(0)\nreturn 7', 'function in condition': 'function f(n):\nif f(n):\nreturn 1\nendif\nendfunction\nf(0)\nreturn 7',
            'function in a jump': 'function f(n):\njumpif (f(n)) a\na:\nendfunction\nf(0)\nreturn 7', 'mutual': 'function f(n):\nreturn g(n)\nendfunction\nfunction g(n):\nreturn f(n)\nendfunction\nf(0)\nreturn 7',
            'through a callback': 'function f(n):\nreturn arrayIndexOf(arrayNew(1), f)\nendfunction\nf(0)\nreturn 7', 'through sort': 'function f(a, b):\narraySort(arrayNew(1, 2), f)\nendfunction\nf(0)\nreturn 7',
            'through partial': 'function f(n):\nreturn p(n)\nendfunction\np = systemPartial(f, 1)\nf(0)\nreturn 7', 'function that includes': "function f(n):\ninclude 'one'\nf(n)\nendfunction\nf(0)\nreturn 7",
            'include of itself': "include 'self'\nreturn 7", 'include of itself in function': "function f():\ninclude 'self'\nendfunction\nf()\nreturn 7", 'system include of itself': 'include <sys>\nreturn 7',
            'include after statements': "x = 1\ninclude 'one'\ninclude 'two'\nreturn 7", 'include that calls': "function f():\ninclude 'calls'\nendfunction\nf()\nreturn 7",
            'include of deep': "include 'deep'\nreturn 7", 'chain': "include 'n1'\nreturn 7"}.items():
        for debug in (False, True):
            def thunk(it, src=src, debug=debug):
                files = {'self': "include 'self'", 'sys': 'include <sys>', 'one': 'y = 1', 'two': "y = 1\ninclude 'three'", 'three': "include 'two'", 'calls': 'f()', 'deep': 'x = ' + '(' * 1500}
                fetch = lambda i, a, kw: files.get(a[0]['url'], f"include 'n{a[0]['url'][1:]}1'")  # noqa: E731
                return outcome(it, es, it.call(ps, [src], {}), {'globals': {}, 'maxStatements': 100000, 'fetchFn': HostFn('fetch', fetch), 'logFn': HostFn('log', lambda i, x, kw: None), 'debug': debug})

            def judge(p, nm=nm):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                return p.value in (('ok', 7.0), ('ok', 7)) or ('include' in nm or nm == 'chain') and p.value[0] in ('runtime', 'parser'), f'{show(p.value)[:300]}'
            ck.cell('R5 recursion', f'{nm} debug={debug}', wes, thunk, judge)
    # runtime errors of a callee are not contained
    for pn, (src, _) in positions.items():
        def thunk(it, src=src):
            calls, after = [], []
            opts = {'globals': {'boom': raising(lambda i: i.call(runtime_error, ['Stop'], {}), calls), 'after': HostFn('after', lambda i, a, kw: after.append(list(a[0]))),
                                'identity': HostFn('identity', lambda i, a, kw: a[0][0])}, 'fetchFn': HostFn('fetch', lambda i, a, kw: 'y = boom()')}
            return outcome(it, es, it.call(ps, [src], {}), opts), after
        ck.cell('R2 containment', f'runtime error {pn}', wes, thunk, lambda p: (p.kind == 'return' and p.value == (('runtime', 'Stop'), []), f'{p.value}'))
    for opts in (None, {}, {'globals': {}}, {'debug': True}):
        def thunk(it, opts=opts):
            return outcome(it, ev, fcall('boom', string('x')), opts, {'boom': raising(lambda i: KeyError('k'), [])})
        ck.cell('R2 containment', f'expression with options {opts}', wev, thunk, lambda p: (p.kind == 'return' and p.value == ('ok', None), f'{p.value}'))
    for nm, expr in (('undefined', fcall('nothing')), ('undefined with arguments', fcall('nothing', num(1), var('q'))), ('if in argument', fcall('if', fcall('nothing')))):
        for o in (None, {}, {'globals': {}}, {'globals': None}):
            ck.cell('R2 containment', f'{nm} {o}', wev, lambda it, expr=expr, o=o: outcome(it, ev, expr, o), lambda p: (p.kind == 'return' and p.value[0] == 'runtime', f'{p.value}'))

    # R3 library functions: whatever the arguments, the call gives a value
    skip = ('systemLog', 'systemLogDebug')
    cells = cell_values('a') + [('any', lambda: sym('any'))]
    for name in sorted(lib):
        if name in skip:
            continue

        def lcall(nm, mks, exact=False, name=name):
            def thunk(it):
                g = {name: lib[name]}
                for i, mk in enumerate(mks):
                    v = mk()
                    if name in ('dataFilter', 'dataJoin', 'dataCalculatedField') and isinstance(v, Sym) and v.ty in ('str', 'any'):
                        v = 'a < b'      # an expression text
                    g[f'a{i}'] = v
                return outcome(it, ev, fcall(name, *[var(f'a{i}') for i in range(len(mks))]), {'globals': g, 'fetchFn': HostFn('fetch', lambda i, a, kw: 'text')}, None, False)
            (ck.cell if exact else forked)('R3 library calls', f'{name}({nm})', ck.where(lib[name]), thunk, safe, 60)
        lcall('', [])
        for (n0, m0) in cells:
            lcall(n0, [m0])
        for (n0, m0) in B:
            lcall(n0, [m0], True)
        two = cells if ck.thorough else [c for c in cells if c[0] in ('null', 'float', 'string', 'array', 'object', 'function', 'int', 'datetime')]
        for (n0, m0), (n1, m1) in itertools.product(two, two):
            lcall(f'{n0}, {n1}', [m0, m1])
        small = [c for c in cells if c[0] in ('float', 'string', 'array', 'object')]
        for (n0, m0), (n1, m1), (n2, m2) in itertools.product(small, small, small if ck.thorough else small[:2]):
            lcall(f'{n0}, {n1}, {n2}', [m0, m1, m2])
        key = [b for b in B if b[0] in ('None', '0.0', '-1.0', '2.5', 'inf', 'nan', '1e+308', '1e16', "''", "'a'", "'12'", '[]', '{}', '[nan]', 'datetime.datetime(9999, 12, 31, 23, 59, 59, 999999)')] if ck.thorough else \
            [b for b in B if b[0] in ('-1.0', '2.5', 'inf', 'nan', '1e+308', "'a'", '[]', '{}')]
        for (n0, m0), (n1, m1) in itertools.product(key, key):
            if name in ('stringRepeat', 'arrayNewSize', 'numberToFixed', 'mathRound') and any(n in ('1e+308', '1e16') for n in (n0, n1)):
                continue
            lcall(f'{n0}, {n1}', [m0, m1], True)

    # R4 includes
    texts = {'syntax': 'x = (', 'open block': 'if x:', 'stray end': 'endif', 'good': 'x = 1', 'empty': '', 'binary': '\x00\x01', 'deep': "include 'x2'"}
    for src in ("include 'x'", 'include <x>', "function f():\ninclude 'x'\nendfunction\nf()", "function f(a):\ninclude 'x'\nreturn a\nendfunction\narraySort(arrayNew(1, 2), f)",
                "function f(a):\ninclude 'x'\nreturn a\nendfunction\ndataFilter(arrayNew(objectNew('a', 1)), 'f(a)')", "include 'a'\ninclude 'x'"):
        for tn, text in texts.items():
            for debug in (False, True):
                def thunk(it, src=src, text=text, debug=debug):
                    files = {'x': text, 'x2': '1 +', 'a': 'y = 1'}
                    opts = {'globals': {}, 'fetchFn': HostFn('fetch', lambda i, a, kw: files.get(a[0]['url'])), 'logFn': HostFn('log', lambda i, a, kw: None)}
                    if debug:
                        opts['debug'] = True
                    return outcome(it, es, it.call(ps, [src], {}), opts)
                want = {'syntax': 'parser', 'open block': 'parser', 'stray end': 'parser', 'binary': 'parser', 'deep': 'parser'}.get(tn, 'ok')
                ck.cell('R4 includes', f'{src} {tn} {debug}', wes, thunk, lambda p, want=want: (p.kind == 'return' and p.value[0] == want, f'{show(p.value)[:300]}, expected {want}'))
        for en, mk, _ in makers[:20]:
            def thunk(it, src=src, mk=mk):
                def fetch(i, a, kw):
                    if a[0]['url'] == 'a':
                        return 'y = 1'
                    raise PyExc(mk(i))
                return outcome(it, es, it.call(ps, [src], {}), {'globals': {}, 'fetchFn': HostFn('fetch', fetch)})
            ck.cell('R4 includes', f'{src} fetch raises {en}', wes, thunk, lambda p: (p.kind == 'return' and p.value[0] == 'runtime', f'{show(p.value)[:300]}'))
        for fn in ('none', 'missing', 'null'):
            def thunk(it, src=src, fn=fn):
                o = {'globals': {}}
                if fn == 'null':
                    o['fetchFn'] = None
                if fn == 'none':
                    o['fetchFn'] = HostFn('fetch', lambda i, a, kw: None)
                return outcome(it, es, it.call(ps, [src], {}), o)
            ck.cell('R4 includes', f'{src} fetch {fn}', wes, thunk, lambda p: (p.kind == 'return' and p.value[0] == 'runtime', f'{show(p.value)[:300]}'))
    return ck.finish()
