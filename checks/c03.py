"""C03 Expression evaluation follows the typed operator semantics"""

import datetime

from absint.values import HostFn, PyExc, Sym, show, sym

from .common import Check
from .lab import (ARITH, COMPARE, NUMERIC, OPS, TRUTH, agree, binary, cell_values, fcall, host, num, string, unary, var)

TECHNIQUE = 'abstract interpretation of evaluate_expression over a finite partition of operand types (dataflow over the syntax tree)'
NOTE = ('Decides, for every operator and every pair of operand type cells with opaque operands, the result term, the calls made and their order '
        'against a reference evaluator in the same abstract domain; undecided cells are counted and silent. Trusts the models of Python built-ins '
        'in absint/; nesting is covered to depth 2, values by representatives plus opaque symbols.')

ALIASES = {
    'abs': 'mathAbs', 'acos': 'mathAcos', 'asin': 'mathAsin', 'atan': 'mathAtan', 'atan2': 'mathAtan2', 'ceil': 'mathCeil',
    'charCodeAt': 'stringCharCodeAt', 'cos': 'mathCos', 'date': 'datetimeNew', 'day': 'datetimeDay', 'endsWith': 'stringEndsWith',
    'indexOf': 'stringIndexOf', 'fixed': 'numberToFixed', 'floor': 'mathFloor', 'fromCharCode': 'stringFromCharCode',
    'hour': 'datetimeHour', 'lastIndexOf': 'stringLastIndexOf', 'len': 'stringLength', 'lower': 'stringLower', 'ln': 'mathLn',
    'log': 'mathLog', 'max': 'mathMax', 'min': 'mathMin', 'millisecond': 'datetimeMillisecond', 'minute': 'datetimeMinute',
    'month': 'datetimeMonth', 'now': 'datetimeNow', 'parseInt': 'numberParseInt', 'parseFloat': 'numberParseFloat', 'pi': 'mathPi',
    'rand': 'mathRandom', 'replace': 'stringReplace', 'rept': 'stringRepeat', 'round': 'mathRound', 'second': 'datetimeSecond',
    'sign': 'mathSign', 'sin': 'mathSin', 'slice': 'stringSlice', 'sqrt': 'mathSqrt', 'startsWith': 'stringStartsWith',
    'text': 'stringNew', 'tan': 'mathTan', 'today': 'datetimeToday', 'trim': 'stringTrim', 'upper': 'stringUpper', 'year': 'datetimeYear',
}


def ref_truth(it, v):
    """Reference truthiness"""
    if v is None:
        return False
    if isinstance(v, (dict,)):
        return True
    if isinstance(v, Sym):
        t = it.ty(v)
        if t in ('datetime', 'datetime_aware', 'date', 'dict', 'func', 'regex'):
            return True
        if t == 'none':
            return False
        return it.truth(v)
    if isinstance(v, (str, bool, int, float, list)):
        return bool(v)
    return True


def is_num(it, v):
    if isinstance(v, bool):
        return False
    if isinstance(v, (int, float)):
        return True
    return isinstance(v, Sym) and it.ty(v) in NUMERIC


def is_str(it, v):
    return isinstance(v, str) or isinstance(v, Sym) and it.ty(v) == 'str'


def is_dt(it, v):
    return isinstance(v, datetime.date) or isinstance(v, Sym) and it.ty(v) in ('datetime', 'datetime_aware', 'date')


class Ref:
    """Reference evaluator of expression models on abstract values"""

    def __init__(self, ck):
        self.string = ck.fn('value', 'value_string')
        self.compare = ck.fn('value', 'value_compare')
        self.normdt = ck.fn('value', 'value_normalize_datetime')
        self.error = ck.fn('runtime', 'BareScriptRuntimeError')

    def binop(self, it, op, a, b):
        if op in COMPARE:
            c = it.call(self.compare, [a, b], {})
            return it.truth(it.compare(op, c, 0))
        if op == '+':
            if is_num(it, a) and is_num(it, b):
                return self.num(it, '+', a, b)
            if is_str(it, a) or is_str(it, b):
                x = a if is_str(it, a) else it.call(self.string, [a], {})
                y = b if is_str(it, b) else it.call(self.string, [b], {})
                return it.concat(x, y)
            for d, n in ((a, b), (b, a)):
                if is_dt(it, d) and is_num(it, n):
                    try:
                        td = it.call(datetime.timedelta, [], {'milliseconds': n})
                        return it.binop('+', it.call(self.normdt, [d], {}), td)
                    except PyExc as e:
                        if isinstance(e.inst, (ArithmeticError, ValueError)):
                            return None
                        raise
            return None
        if op == '-' and is_dt(it, a) and is_dt(it, b):
            return DIFF
        if is_num(it, a) and is_num(it, b):
            return self.num(it, op, a, b)
        return None

    @staticmethod
    def num(it, op, a, b):
        try:
            return it.binop(op, a, b)
        except PyExc as e:
            if isinstance(e.inst, ArithmeticError):
                return None
            raise

    def eval(self, it, e, env):
        k, v = next(iter(e.items()))
        if k == 'number' or k == 'string':
            return v
        if k == 'variable':
            return {'null': None, 'true': True, 'false': False}[v] if v in ('null', 'true', 'false') else env.get(v)
        if k == 'group':
            return self.eval(it, v, env)
        if k == 'unary':
            x = self.eval(it, v['expr'], env)
            if v['op'] == '!':
                return not ref_truth(it, x)
            return it.unary('-', x) if is_num(it, x) else None
        if k == 'binary':
            a = self.eval(it, v['left'], env)
            if v['op'] == '&&':
                return self.eval(it, v['right'], env) if ref_truth(it, a) else a
            if v['op'] == '||':
                return a if ref_truth(it, a) else self.eval(it, v['right'], env)
            return self.binop(it, v['op'], a, self.eval(it, v['right'], env))
        if k == 'function':
            args = v.get('args', [])
            if v['name'] == 'if':
                c = ref_truth(it, self.eval(it, args[0], env)) if args else False
                ix = 1 if c else 2
                return self.eval(it, args[ix], env) if len(args) > ix else None
            vals = [self.eval(it, a, env) for a in args]
            return it.call(env[v['name']], [vals, None], {})
        raise AssertionError(k)


class _Diff:
    def __repr__(self):
        return '<milliseconds between>'


DIFF = _Diff()


def has_term(v, pred, depth=0):
    if isinstance(v, Sym):
        return pred(v) or any(has_term(a, pred, depth + 1) for a in v.args)
    if isinstance(v, (list, tuple)):
        return any(has_term(x, pred, depth + 1) for x in v)
    return False


def run(prop, tier):
    ck = Check(prop, tier, 'operator x type-cell dispatch matrix, short-circuit/laziness/order effect traces and alias table of '
               'evaluate_expression, by abstract interpretation of its syntax tree; a cell is one expression shape over opaque operands')
    ev = ck.fn('runtime', 'evaluate_expression')
    ref = Ref(ck)
    where = ck.where(ev)
    it = ck.it

    def check_expr(rule, cell, expr, mk, builtins=False, want_effects=True):
        def thunk(it):
            env = mk()
            got = it.call(ev, [expr, {'globals': env}, None, builtins], {})
            ge = list(it.effects)
            it.effects.clear()
            want = ref.eval(it, expr, env)
            we = list(it.effects)
            return got, want, ge, we

        def judge(p):
            if p.kind == 'raise':
                return False, f'raises {p.value!r}'
            got, want, ge, we = p.value
            if want is DIFF:
                if got is None or isinstance(got, (str, bool, list, dict)):
                    return False, f'datetime difference gives {show(got)}'
                return True if not isinstance(got, Sym) or it.types_of(got) <= {'int', 'float'} else None
            if want_effects:
                if len(ge) != len(we) or any(x[0] != y[0] for x, y in zip(ge, we)):
                    return False, f'calls {show([e[0] for e in ge])}, expected {show([e[0] for e in we])}'
                rs = [it.same(list(x[1]), list(y[1])) for x, y in zip(ge, we) if isinstance(x[1], tuple)]
                if any(r is False for r in rs):
                    return False, f'call arguments {show(ge)}, expected {show(we)}'
                if any(r is None for r in rs):
                    return None, 'arguments'
            return agree(it, got, want)
        ck.cell(rule, cell, where, thunk, judge)

    # R1: dispatch matrix
    for op in OPS:
        for na, ma in cell_values('a'):
            for nb, mb in cell_values('b'):
                check_expr('R1 operator dispatch', f'{na} {op} {nb}', binary(op, var('a'), var('b')), lambda ma=ma, mb=mb: {'a': ma(), 'b': mb()})

                def calls(ma=ma, mb=mb):
                    a, b = ma(), mb()
                    return {'fa': host('fa', lambda i, x: a), 'fb': host('fb', lambda i, x: b)}
                check_expr('R1 operator dispatch', f'fa():{na} {op} fb():{nb}', binary(op, fcall('fa'), fcall('fb')), calls)
        # date (not datetime) and aware datetimes
        for t in ('date', 'datetime_aware'):
            for o, mo in cell_values('b'):
                for swap in (False, True):
                    l, r = (var('b'), var('d')) if swap else (var('d'), var('b'))
                    check_expr('R1 operator dispatch', f'{t} {op} {o} swap={swap}', binary(op, l, r),
                               lambda mo=mo, t=t: {'d': sym('d', t), 'b': mo()})
    for op in ('!', '-'):
        for na, ma in cell_values('a'):
            check_expr('R1 operator dispatch', f'{op} {na}', unary(op, var('a')), lambda ma=ma: {'a': ma()})

    # R2: literal operands (no algebraic shortcut may change the typed meaning)
    for op in OPS:
        for lit in (num(0), num(1), num(2), string(''), string('a'), var('null'), var('true'), var('false')):
            for na, ma in cell_values('a'):
                for e, s in ((binary(op, lit, var('a')), 'l'), (binary(op, var('a'), lit), 'r')):
                    check_expr('R2 literal operands', f'{show(lit)} {op} {na} {s}', e, lambda ma=ma: {'a': ma()})

    # R3: short-circuit, identity of the returned operand, truthiness
    for op in ('&&', '||'):
        for nm, mk, truth in TRUTH:
            def thunk(it, mk=mk, op=op):
                v, w = mk(), [sym('w', 'float')]
                g = {'fa': host('fa', lambda i, a: v), 'fb': host('fb', lambda i, a: w)}
                r = it.call(ev, [binary(op, fcall('fa'), fcall('fb')), {'globals': g}, None, False], {})
                return r, v, w, [e[0] for e in it.effects]

            def judge(p, op=op, truth=truth):
                if p.kind == 'raise':
                    return False, f'raises {p.value!r}'
                r, v, w, eff = p.value
                right = truth if op == '&&' else not truth
                if eff != (['fa', 'fb'] if right else ['fa']):
                    return False, f'evaluated {eff}'
                want = w if right else v
                return (r is want or not isinstance(want, list) and it.same(r, want)), f'got {show(r)} want {show(want)}'
            ck.cell('R3 short circuit', f'{nm} {op}', where, thunk, judge)
    for nm, mk, truth in TRUTH:
        def thunk(it, mk=mk):
            return it.call(ev, [unary('!', var('v')), {'globals': {'v': mk()}}, None, False], {})
        ck.cell('R3 short circuit', f'! {nm}', where, thunk, lambda p, truth=truth: (p.kind == 'return' and it.same(p.value, not truth), f'! gives {p!r}'))

    # R4: if() is lazy
    for nargs in range(0, 5):
        for nm, mk, truth in TRUTH:
            for builtins in (False, True):
                def thunk(it, mk=mk, nargs=nargs, builtins=builtins):
                    vals = [mk(), [1.0], [2.0], [3.0]]
                    g = {f'f{i}': host(f'f{i}', lambda i_, a, i=i: vals[i]) for i in range(4)}
                    r = it.call(ev, [fcall('if', *[fcall(f'f{i}') for i in range(nargs)]), {'globals': g}, None, builtins], {})
                    return r, vals, [e[0] for e in it.effects]

                def judge(p, nargs=nargs, truth=truth):
                    if p.kind == 'raise':
                        return False, f'raises {p.value!r}'
                    r, vals, eff = p.value
                    c = truth if nargs else False
                    ix = 1 if c else 2
                    want_eff = (['f0'] if nargs else []) + ([f'f{ix}'] if nargs > ix else [])
                    if eff != want_eff:
                        return False, f'evaluates {eff}, expected {want_eff}'
                    want = vals[ix] if nargs > ix else None
                    return r is want, f'got {show(r)} want {show(want)}'
                ck.cell('R4 if() laziness', f'if/{nargs} cond={nm} builtins={builtins}', where, thunk, judge)

    # R5: evaluation order, exactly once
    def env5():
        e = {f'f{i}': host(f'f{i}', lambda it_, a, i=i: sym(f'r{i}', 'float')) for i in range(4)}
        e['gg'] = host('gg', lambda it_, a: sym('rg', 'float'))
        e['xx'] = sym('xx', 'float')
        return e
    shapes = []
    for op in ARITH + COMPARE:
        shapes.append((f'f0() {op} f1()', binary(op, fcall('f0'), fcall('f1'))))
        shapes.append((f'f0() {op} f0()', binary(op, fcall('f0'), fcall('f0'))))
        shared = fcall('f0')
        shapes.append((f'shared {op} shared', binary(op, shared, shared)))
        shapes.append((f'(f0() {op} f1()) {op} f2()', binary(op, {'group': binary(op, fcall('f0'), fcall('f1'))}, fcall('f2'))))
        shapes.append((f'f0() {op} (f1() {op} f2())', binary(op, fcall('f0'), {'group': binary(op, fcall('f1'), fcall('f2'))})))
    for n in range(5):
        shapes.append((f'gg/{n}', fcall('gg', *[fcall(f'f{i % 4}') for i in range(n)])))
    shapes.append(('gg(f0(), f0())', fcall('gg', fcall('f0'), fcall('f0'))))
    shapes.append(('gg(xx, gg(f1(), xx), f0())', fcall('gg', var('xx'), fcall('gg', fcall('f1'), var('xx')), fcall('f0'))))
    shapes.append(('-f0()', unary('-', fcall('f0'))))
    shapes.append(('!f0()', unary('!', fcall('f0'))))
    shapes.append(('(f0())', {'group': fcall('f0')}))
    shapes.append(('!(!f0())', unary('!', {'group': unary('!', fcall('f0'))})))
    shapes.append(('--f0()', unary('-', unary('-', fcall('f0')))))
    for nm, e in shapes:
        for b in (False, True):
            check_expr('R5 order and multiplicity', f'{nm} builtins={b}', e, env5, builtins=b)

    # R6: composition of operators
    kinds = {'num': 'float', 'str': 'str'}
    ops2 = OPS
    for o1 in ops2:
        for o2 in ops2:
            for kn, kt in kinds.items():
                if kn == 'str' and not (o1 in ('+', '==', '&&', '||', '<') and o2 in ('+', '==', '&&', '||', '<')):
                    continue
                mk = lambda kt=kt: {v: sym(v, kt) for v in 'abc'}  # noqa: E731
                check_expr('R6 composition', f'(a {o1} b) {o2} c : {kn}', binary(o2, binary(o1, var('a'), var('b')), var('c')), mk)
                check_expr('R6 composition', f'a {o1} (b {o2} c) : {kn}', binary(o1, var('a'), binary(o2, var('b'), var('c'))), mk)
    for o1 in OPS:
        for u in ('!', '-'):
            mk = lambda: {v: sym(v, 'float') for v in 'ab'}  # noqa: E731
            check_expr('R6 composition', f'{u}(a {o1} b)', unary(u, {'group': binary(o1, var('a'), var('b'))}), mk)
            check_expr('R6 composition', f'{u}a {o1} b', binary(o1, unary(u, var('a')), var('b')), mk)
            check_expr('R6 composition', f'a {o1} {u}b', binary(o1, var('a'), unary(u, var('b'))), mk)

    # R7: datetime difference and offset on the calendar partition
    dts = [datetime.datetime(2024, 2, 29, 23, 59, 59, 999000), datetime.datetime(1969, 12, 31, 23, 59, 59, 999000),
           datetime.datetime(1970, 1, 1), datetime.datetime(2000, 3, 1, 0, 0, 0, 1000), datetime.datetime(100, 1, 1),
           datetime.datetime(9999, 12, 31)]
    for a in dts:
        for b in dts:
            want = (a - b) // datetime.timedelta(milliseconds=1)
            ck.cell('R7 datetime arithmetic', f'{a} - {b}', where,
                    lambda it, a=a, b=b: it.call(ev, [binary('-', var('a'), var('b')), {'globals': {'a': a, 'b': b}}, None, False], {}),
                    lambda p, want=want: (p.kind == 'return' and isinstance(p.value, (int, float)) and p.value == want, f'{p!r} want {want}'))
        for ms in (0.0, 1.0, -1.0, 86400000.0, -86400000.0, 1500.0, 31536000000.0):
            try:
                want = a + datetime.timedelta(milliseconds=ms)
            except OverflowError:
                want = None
            for e, s in ((binary('+', var('a'), num(ms)), 'dt+n'), (binary('+', num(ms), var('a')), 'n+dt')):
                ck.cell('R7 datetime arithmetic', f'{a} {s} {ms}', where,
                        lambda it, a=a, e=e: it.call(ev, [e, {'globals': {'a': a}}, None, False], {}),
                        lambda p, want=want: (p.kind == 'return' and p.value == want, f'{p!r} want {want}'))

    # R8: numeric representatives (constant folding of the operator's own code)
    reps = [0.0, 1.0, -1.0, 2.0, 3.0, 0.5, -7.0, 10.0, 1e15, 5.0]
    import math
    for a in reps:
        for b in reps:
            for op in ARITH + COMPARE:
                try:
                    want = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '%': lambda: a % b, '**': lambda: a ** b,
                            '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b,
                            '!=': lambda: a != b}[op]()
                    if isinstance(want, complex):
                        want = None
                except ArithmeticError:
                    want = None
                if op == '%' and want is not None and b:
                    alt = math.fmod(a, b)     # the remainder's sign convention is not fixed by the property
                else:
                    alt = want
                ck.cell('R8 numeric representatives', f'{a} {op} {b}', where,
                        lambda it, a=a, b=b, op=op: it.call(ev, [binary(op, num(a), num(b)), {'globals': {}}, None, False], {}),
                        lambda p, want=want, alt=alt: (p.kind == 'return' and (p.value == want or p.value == alt) and
                                                       isinstance(p.value, bool) == isinstance(want, bool), f'{p!r} want {want}'))
    for v, want in ((None, 'null'), (True, 'true'), (False, 'false'), (1.0, '1'), (1.5, '1.5'), (5, '5'), (-0.5, '-0.5'), ([], '[]'), ({}, '{}'),
                    ([1.0, 'a', None], '[1,"a",null]'), ({'b': 1.0, 'a': True}, '{"a":true,"b":1}')):
        for e, w, s in ((binary('+', string('<'), var('v')), '<' + want, 'r'), (binary('+', var('v'), string('>')), want + '>', 'l')):
            ck.cell('R8 numeric representatives', f'string + {v!r} {s}', where,
                    lambda it, e=e, v=v: it.call(ev, [e, {'globals': {'v': v}}, None, False], {}),
                    lambda p, w=w: (p.kind == 'return' and p.value == w, f'{p!r} want {w!r}'))

    # R10: the mode, the scopes and the options reach every sub-expression; keywords are not variables
    def nest(e):
        t, f = var('true'), var('false')
        yield 'itself', e
        yield 'group', {'group': e}
        yield 'minus', unary('-', e)
        yield 'not', unary('!', e)
        for op in ARITH + COMPARE:
            yield f'left of {op}', binary(op, e, num(2))
            yield f'right of {op}', binary(op, num(2), e)
        yield 'left of &&', binary('&&', e, num(2))
        yield 'right of &&', binary('&&', t, e)
        yield 'left of ||', binary('||', e, num(2))
        yield 'right of ||', binary('||', f, e)
        yield 'if value', fcall('if', e, num(2), num(3))
        yield 'if value alone', fcall('if', e)
        yield 'if true', fcall('if', t, e)
        yield 'if true else', fcall('if', t, e, num(3))
        yield 'if false', fcall('if', f, num(2), e)
        yield 'if null', fcall('if', var('null'), num(2), e)
        yield 'argument', fcall('gg', e)
        yield 'second argument', fcall('gg', num(1), e)
        yield 'argument of a built-in', fcall('abs', e)
        yield 'argument of a library function', fcall('mathAbs', e)

    def modal(names, depth):
        for fname, fargs in names:
            level = [(fname, fcall(fname, *fargs))]
            for _ in range(depth):
                level = [(f'{n2} of {n1}', e2) for n1, e1 in level for n2, e2 in nest(e1)]
            yield from level
    exfns, libfns = ck.fn('library', 'EXPRESSION_FUNCTIONS'), ck.fn('library', 'SCRIPT_FUNCTIONS')

    class Undefined(Exception):
        pass

    class ModeRef(Ref):
        """The reference with scopes and mode"""

        def eval(self, it, e, env):
            g, loc, b = env
            k, v = next(iter(e.items()))
            if k == 'variable':
                if v in ('null', 'true', 'false'):
                    return {'null': None, 'true': True, 'false': False}[v]
                return loc[v] if loc is not None and v in loc else (g or {}).get(v)
            if k == 'function' and v['name'] != 'if':
                vals = [self.eval(it, a, env) for a in v.get('args', [])]
                n = v['name']
                f = loc[n] if loc is not None and n in loc else g[n] if g is not None and n in g else exfns.get(n) if b else None
                if f is None:
                    raise Undefined
                try:
                    return it.call(f, [vals, {'globals': g}], {})
                except PyExc as ex:
                    return it.call(getattr, [ex.inst, 'return_value', None], {})
            return super().eval(it, e, env)
    mref = ModeRef(ck)

    def modes(cell, expr, mk, rule='R10 modes and scopes'):
        def thunk(it):
            g, loc, b = mk()
            opts = {'globals': g} if g is not None else {}
            try:
                got = ('value', it.call(ev, [expr, opts, loc, b], {}))
            except PyExc as ex:
                if isinstance(ex.inst, Exception):
                    raise
                got = ('raise', getattr(getattr(ex.inst, 'cls', None), 'name', repr(ex.inst)))
            try:
                want = ('value', mref.eval(it, expr, mk()))
            except Undefined:
                want = ('raise', 'BareScriptRuntimeError')
            return got, want

        def judge(p):
            if p.kind == 'raise':
                return False, f'raises {p.value!r}'
            got, want = p.value
            if got[0] != want[0] or got[0] == 'raise':
                return got == want, f'{show(got)}, expected {show(want)}'
            return agree(it, got[1], want[1])
        ck.cell(rule, cell, where, thunk, judge)
    local = HostFn('local', lambda i, a, kw: sym('from_local', 'float'))
    glob = HostFn('glob', lambda i, a, kw: sym('from_global', 'float'))
    gg = HostFn('gg', lambda i, a, kw: a[0][-1])
    scopes = {
        'no globals': lambda: (None, None), 'neither': lambda: ({'gg': gg}, None), 'empty locals': lambda: ({'gg': gg}, {}), 'global': lambda: ({'gg': gg, 'abs': glob, 'len': glob}, None),
        'local': lambda: ({'gg': gg}, {'abs': local, 'len': local}), 'both': lambda: ({'gg': gg, 'abs': glob, 'len': glob}, {'abs': local, 'len': local}),
        'library': lambda: ({'gg': gg, **{n: libfns[n] for n in ('mathAbs', 'stringLength')}}, None),
        'null local': lambda: ({'gg': gg, 'abs': glob}, {'abs': None}), 'null global': lambda: ({'gg': gg, 'abs': None}, None),
    }
    names10 = [('abs', [num(5)]), ('mathAbs', [num(5)]), ('len', [string('ab')])]
    for b in (False, True):
        for sn, mk in scopes.items():
            for nm, e in modal(names10, 1):
                modes(f'{nm}, {sn}, builtins={b}', e, lambda mk=mk, b=b: (*mk(), b))
        for sn in ('neither', 'local'):
            for nm, e in modal(names10[:1], 2):
                modes(f'{nm}, {sn}, builtins={b}', e, lambda mk=scopes[sn], b=b: (*mk(), b))
    for name in exfns:
        for nm, e in nest(fcall(name)):
            if nm.startswith(('if', 'right of &&', 'right of ||', 'group', 'argument')):
                modes(f'{nm} of {name}, builtins=False', e, lambda: ({'gg': gg}, {}, False))
    for kw in ('null', 'true', 'false', 'if'):
        for nm, e in [('variable', var(kw)), *nest(var(kw))]:
            for sn, mk in (('global', lambda: ({kw: 7.0, 'gg': gg}, None)), ('local', lambda: ({'gg': gg}, {kw: 7.0})), ('both', lambda: ({'gg': gg, kw: 8.0}, {kw: 7.0})), ('neither', lambda: ({'gg': gg}, {}))):
                modes(f'{kw} bound: {nm} {sn}', e, lambda mk=mk: (*mk(), True))
    for kw in ('null', 'true', 'false', 'NULL', 'True', 'False', 'None', 'undefined', 'nan', 'inf', 'pi', 'abs'):
        modes(f'{kw} unbound', var(kw), lambda: ({}, {}, True))
        modes(f'{kw} unbound without builtins', var(kw), lambda: (None, None, False))
        modes(f'{kw} called unbound', fcall(kw), lambda: ({}, {}, False))

    # R9: the expression aliases
    lib = ck.fn('library', 'SCRIPT_FUNCTIONS')
    exf = ck.fn('library', 'EXPRESSION_FUNCTIONS')
    argcells = [[], [sym('n', 'float')], [sym('n', 'int')], [sym('s', 'str')], [sym('d', 'datetime')], [sym('x', 'float'), sym('y', 'float')],
                [sym('s', 'str'), sym('t', 'str')], [sym('s', 'str'), 1.0], [sym('s', 'str'), 1.0, 2.0], ['abcabc', 'b', 2.0], ['abcabc', 'b'],
                ['abc', 'b', 'x'], ['ff', 16.0], [2.5, 1.0], [-2.5], [2.5], [0.25], ['aB '], [3.0, 2.0], [8.0, 2.0], [2024.0, 13.0, 1.0], [65.0], ['ab', 1.0, 2.0],
                [datetime.datetime(2021, 3, 4, 5, 6, 7, 8000)], [None], ['12'], ['1.5'], [7.0, 3.0, 5.0]]
    for alias, name in ALIASES.items():
        w = f'EXPRESSION_FUNCTIONS[{alias!r}]'
        fa, fb = exf.get(alias), lib.get(name)
        if fa is None or fb is None:
            if fb is None:
                ck.unknown('R9 alias table', alias, f'{name} not in SCRIPT_FUNCTIONS')
            else:
                ck.bad('R9 alias table', alias, w, f'the built-in {alias} is missing')
            continue
        for ix, cellargs in enumerate(argcells):
            def thunk(it, alias=alias, fb=fb, cellargs=cellargs):
                g = {f'v{i}': v for i, v in enumerate(cellargs)}
                n = it.fresh_n
                got = it.call(ev, [fcall(alias, *[var(f'v{i}') for i in range(len(cellargs))]), {'globals': g}, None, True], {})
                it.fresh_n = n      # the same clock and random numbers for both
                want = it.call(ev, [fcall('reference', *[var(f'v{i}') for i in range(len(cellargs))]),
                                    {'globals': {**g, 'reference': fb}}, None, False], {})
                return got, want

            def judge(p):
                if p.kind == 'raise':
                    return False, f'raises {p.value!r}'
                return agree(it, *p.value)
            if fa is fb and ix > 2:
                ck.ok('R9 alias table', f'{alias}/{ix} identical function object')
                continue
            ck.cell('R9 alias table', f'{alias} {show(cellargs)}', w, thunk, judge)
    return ck.finish()
