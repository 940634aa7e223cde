"""C13 Numbers survive conversion to text and back; integers print without a fraction"""

import itertools
import math
import re
import struct

from absint.values import HostFn, Sym, show, sym

from .common import Check
from .lab import binary, fcall, num, string, var
from .refrun import outcome

TECHNIQUE = ('abstract interpretation of the stringification and parsing paths: formatter-term classification on an opaque double, constant propagation over the boundary doubles of every '
             'exponent range, and acceptance tables of the number parsers against a reference grammar')
NOTE = ('On an opaque double every path of the stringifier must end in an exact formatter for the facts of that path (shortest representation, or the exact integer text when the path has established '
        'integrality); their texts are propagated through the parsers for boundary doubles of every binary and decimal exponent. That the shortest representation round-trips is Python\'s own contract and is trusted. '
        'The parsers are decided on all texts up to a bounded length over the characters of numbers.')


def doubles(thorough):
    out = [0.0, -0.0, 1.0, 0.1, 0.2, 0.3, 0.1 + 0.2, 1 / 3, 2 / 3, 1.5, 100.0, 1000000.0, 123456789.0, 0.5, 1.05, 10.05, 1.10, 1000.5, 1e-5, 1e-4, 1.0e-10, 123456789012345680.0, 5e-324, 2.2250738585072014e-308,
           2.225073858507201e-308, 1.7976931348623157e308, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 999999999999999.9, 9999999999999998.0, 4503599627370495.5,
           0.1e-6, 1.5e-7, 1e-7, 100.25, 20.0, 2000.0, 1.0000000000000002, 0.9999999999999999, 100000000000000000000.0, 1234567.1, 3.14159265358979, 2.718281828459045]
    for e in range(-323, 309, 1 if thorough else 7):
        x = float(f'1e{e}')
        out += [x, math.nextafter(x, math.inf), math.nextafter(x, 0), float(f'1.5e{e}')]
        if thorough:
            out += [float(f'9.87654321e{e}') if e < 308 else x]
    for e in range(-1074, 1024, 3 if thorough else 23):
        x = math.ldexp(1.0, e)
        out += [x, math.nextafter(x, math.inf), math.nextafter(x, 0)]
    for e in range(0, 64):
        out += [2.0 ** e, 2.0 ** e + 1, 2.0 ** e - 1, 2.0 ** e + 0.5]
    for k in range(14, 24):
        for m in (1, 2, 5, 9, 1.5, 1.25, 9.99):
            out += [m * 10.0 ** k, m * 10.0 ** k + 1]
    # pseudo-random bit patterns from a fixed recurrence
    s = 0x9E3779B97F4A7C15
    for _ in range(3000 if thorough else 500):
        s = (s * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1)
        out.append(struct.unpack('<d', struct.pack('<Q', s))[0])
    seen, res = set(), []
    for x in out:
        for y in (x, -x):
            if math.isfinite(y) and repr(y) not in seen:
                seen.add(repr(y))
                res.append(y)
    return res


R_CANON = re.compile(r'[+-]?\d+(\.\d+)?(e[+-]?\d+)?\Z', re.ASCII)
R_LIBERAL = re.compile(r'\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*\Z')
ORDINALS = '0123456789abcdefghijklmnopqrstuvwxyz'


def ref_float(text):
    """('must', value) | ('may', value) | ('null',)"""
    if R_CANON.match(text):
        v = float(text)
        return ('must', v) if math.isfinite(v) else ('null',)
    if R_LIBERAL.match(text):
        try:
            v = float(text)
        except ValueError:
            return ('null',)
        return ('may', v) if math.isfinite(v) else ('null',)
    return ('null',)


def ref_int(text, radix):
    s = text[1:] if text[:1] in ('+', '-') and len(text) > 1 else text
    if s and all(c in ORDINALS[:radix] for c in s.lower()) and s.isascii():
        v = 0
        for c in s.lower():
            v = v * radix + ORDINALS.index(c)
        return ('must', -v if text[0] == '-' else v)
    try:
        if '_' in text:
            return ('null',)
        return ('may', int(text, radix))      # white space, a base prefix or non-ASCII digits: not fixed by the property
    except ValueError:
        return ('null',)


def run(prop, tier):
    ck = Check(prop, tier, 'formatter classification per path, round trip of boundary doubles through the propagated texts, acceptance table of the parsers')
    vs = ck.fn('value', 'value_string')
    ev = ck.fn('runtime', 'evaluate_expression')
    pe = ck.fn('parser', 'parse_expression')
    lib = ck.fn('library', 'SCRIPT_FUNCTIONS')
    wvs, wev = ck.where(vs), ck.where(ev)

    def lcall(it, name, *args, log=None):
        g = {f'a{i}': v for i, v in enumerate(args)}
        opts = {'globals': {**g, name: lib[name]}}
        if log is not None:
            opts['logFn'] = HostFn('logFn', lambda i, a, kw: log.append(a[0]))
        return it.call(ev, [fcall(name, *[var(x) for x in g]), opts, None, False], {})

    def logged(it, x):
        log = []
        lcall(it, 'systemLog', x, log=log)
        return log[0] if len(log) == 1 else log
    WAYS = {
        'value_string': lambda it, x: it.call(vs, [x], {}),
        "'' + x": lambda it, x: it.call(ev, [binary('+', string(''), var('x')), {'globals': {'x': x}}, None, False], {}),
        "x + ''": lambda it, x: it.call(ev, [binary('+', var('x'), string('')), {'globals': {'x': x}}, None, False], {}),
        'stringNew': lambda it, x: lcall(it, 'stringNew', x),
        'arrayJoin': lambda it, x: lcall(it, 'arrayJoin', [x], ','),
        'systemLog': logged,
    }

    # R1 the formatter on an opaque number
    for way, f in WAYS.items():
        for t in ('float', 'int'):
            def thunk(it, f=f, t=t):
                x = sym('x', t)
                s = f(it, x)
                integral = it.known_integral(x) if hasattr(it, 'known_integral') else None
                return x, s, integral

            def judge(p, t=t):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                x, s, _ = p.value
                if isinstance(s, str):
                    return False, f'the text {s!r} does not depend on the number'
                if not isinstance(s, Sym):
                    return False, f'the text is {show(s)}'
                ints = [bool(1 - c) for d, c, _ in p.decisions if d == 'int(x) == x']
                known = ints[0] if ints else None
                if t == 'int':
                    return (True if s.op in ('str', 'repr') and s.args[0] is x else None), f'text {show(s)}'
                exact_int = s.op == 'fmt' and s.args[0] is x and s.args[1] in ('.0f', '0.0f') or s.op in ('str', 'repr') and show(s.args[0]) == 'int(x)'
                shortest = s.op in ('str', 'repr') and s.args[0] is x
                if exact_int:
                    return (True if known else False if known is False else None), f'text {show(s)} loses the fraction'
                if shortest:
                    return (True if known is False else False if known else None), f'text {show(s)} of an integral number has a fraction'
                return None, f'text {show(s)}'
            ck.cell('R1 formatter', f'{way} of an opaque {t}', wvs if way == 'value_string' else wev, thunk, judge)

    # R2 round trip of the propagated text
    for x in doubles(ck.thorough):
        for way, f in WAYS.items():
            def thunk(it, x=x, f=f):
                s = f(it, x)
                back = lcall(it, 'numberParseFloat', s)
                lit = outcome(it, pe, s) if x >= 0 and math.copysign(1, x) > 0 and isinstance(s, str) else None
                call = outcome(it, pe, f'f({s}, {s} + 1)') if lit else None
                return s, back, lit, call

            def judge(p, x=x):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                s, back, lit, call = p.value
                if not isinstance(s, str):
                    return (False, f'text {show(s)}') if not isinstance(s, Sym) else (None, f'text {show(s)}')
                if x == int(x) and not re.fullmatch(r'-?\d+', s):
                    return False, f'the integral number {x!r} prints as {s!r}'
                if not (isinstance(back, (int, float)) and not isinstance(back, bool) and back == x):
                    return False, f'{x!r} prints as {s!r}, which numberParseFloat reads as {show(back)}'
                if lit is not None:
                    if not (lit[0] == 'ok' and isinstance(lit[1], dict) and isinstance(lit[1].get('number'), (int, float)) and lit[1]['number'] == x):
                        return False, f'{x!r} prints as {s!r}, which as a literal reads {show(lit)[:200]}'
                    want = {'function': {'name': 'f', 'args': [{'number': x}, {'binary': {'op': '+', 'left': {'number': x}, 'right': {'number': 1.0}}}]}}
                    if call != ('ok', want):
                        return False, f'{x!r} prints as {s!r}, which in a call reads {show(call)[:200]}'
                return True
            ck.cell('R2 round trip', f'{x!r} by {way}', wvs if way == 'value_string' else wev, thunk, judge)
    for n in [0, 1, -1, 10, 100, 10 ** 15, 10 ** 16, 10 ** 21, 2 ** 53, 2 ** 53 + 2, -10 ** 6, 120, 1000]:
        for way, f in WAYS.items():
            ck.cell('R2 round trip', f'int {n} by {way}', wvs, lambda it, n=n, f=f: (lambda s: (s, lcall(it, 'numberParseFloat', s)))(f(it, n)),
                    lambda p, n=n: (p.kind == 'return' and p.value == (str(n), float(n)), f'{p!r}'))
    # numbers inside containers print like themselves
    for x in (1.0, 0.5, 100.0, 1e16, 1e21, 1e-7, -3.0, 1e15, 120.0, 2.0 ** 60):
        ck.cell('R2 round trip', f'elements {x!r}', wvs, lambda it, x=x: (it.call(vs, [[x, x]], {}), it.call(vs, [{'k': x}], {}), lcall(it, 'arrayJoin', [x, x], ' ')),
                lambda p, x=x: (p.kind == 'return' and all(isinstance(s, str) for s in p.value) and all(float(y) == x and (x != int(x) or re.fullmatch(r'-?\d+', y)) for y in
                                p.value[0].strip('[]').split(',') + [p.value[1][5:-1]] + p.value[2].split(' ')), f'{p!r}'))

    # R3 the parsers' acceptance tables
    def parser_cell(rule, name, text, *radix):
        ref = ref_float(text) if name == 'numberParseFloat' else ref_int(text, int(radix[0]) if radix else 10)

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            v = p.value
            if isinstance(v, Sym):
                return None, f'gives {show(v)}'
            isnum = isinstance(v, (int, float)) and not isinstance(v, bool)
            if v is not None and not isnum:
                return False, f'gives {show(v)}'
            if isnum and isinstance(v, float) and not math.isfinite(v):
                return False, f'gives the non-finite number {v!r}'
            if ref[0] == 'null':
                return v is None, f'{text!r} is not a number but gives {v!r}'
            if v is None:
                return (False if ref[0] == 'must' else True), f'{text!r} is the number {ref[1]!r} but gives null'
            return v == ref[1], f'{text!r} gives {v!r}, expected {ref[1]!r}'
        ck.cell(rule, f'{name}({text!r}{"".join(f", {r}" for r in radix)})', ck.where(lib[name]), lambda it: lcall(it, name, text, *radix), judge)

    texts = set()
    for n in range(0, 4):
        for t in itertools.product('05.eE+-_ xna', repeat=n):
            texts.add(''.join(t))
    for t in itertools.product('0.e+-_' if not ck.thorough else '05.eE+-_ x', repeat=4):
        texts.add(''.join(t))
    for t in itertools.product('1.e-', repeat=5):
        texts.add(''.join(t))
    texts |= {'inf', '-inf', '+inf', 'Inf', 'INF', 'infinity', 'Infinity', '-Infinity', 'nan', 'NaN', '-nan', 'NAN', '1e999', '-1e999', '1e308', '1e309', '1.8e308', '1e-999', '9' * 400, '1' * 309, '0x10', '0b1', '0o7', '1e1e1', '1.2.3', '1,000', '1 2', '12abc',
              'abc', '1.5.', '--1', '+-1', '1-', '$1', '1%', '1f', '1L', '1j', '1d', '0.1', '.1', '1.', '00012', '1e+05', '1E-5', '1_000', '_1', '1_', '1__0', '1e1_0', '１２', '٣', '²', '½', '−1', '1\n', '\n1', '1\x00', '1\u00a0', 'true', 'null', 'None', '1e', 'e1', '+', '-', '.',
              '1.5e3', '1.5e+3', '-0', '+0', '-0.0', '1e400', '-1e400', '123456789012345678901234567890', '0.1e1', '1e0', '(1)', '1/2', '1;', '0xff', '1e 5', '1 e5', '- 1', '1.7976931348623157e308', '1.7976931348623159e308', '2e308', '5e-324', '1e-400'}
    for t in sorted(texts):
        parser_cell('R3 parsers', 'numberParseFloat', t)
        if len(t) < 4 or t in ('infinity', '12abc', '0x10', '1_000', '123456789012345678901234567890', '1e5', 'true'):
            parser_cell('R3 parsers', 'numberParseInt', t)
    for radix in (2.0, 8.0, 10.0, 16.0, 36.0, 2, 3, 35, 11):
        for t in ('0', '1', '2', '7', '8', '9', 'a', 'f', 'g', 'z', 'A', 'F', 'Z', '10', '11', '12', '101', '1a', 'zz', 'Zz', 'ff', 'FF', '-10', '+10', '', '-', '1.0', '1.5', '0x1f', '0b11', '1_0', '1 0', 'g1', '1g', '12z', '99', 'é', '１', '-z', '--1', '1-', '1e2', 'inf', '7fffffffffff',
                  '{', '@', '`', '/', ':'):
            parser_cell('R3 parsers', 'numberParseInt', t, radix)
    for radix in (0.0, 1.0, 37.0, -2.0, 2.5, 100.0, 'x', None):
        for t in ('1', '10', 'z'):
            ck.cell('R3 parsers', f'numberParseInt({t!r}, {radix!r})', ck.where(lib['numberParseInt']), lambda it, t=t, radix=radix: lcall(it, 'numberParseInt', t, radix), lambda p: (p.kind == 'return' and p.value is None, f'{p!r}'))
    for name in ('numberParseFloat', 'numberParseInt'):
        for v in (None, 1.0, True, [], {}, ['1']):
            ck.cell('R3 parsers', f'{name}({v!r})', ck.where(lib[name]), lambda it, v=v, name=name: lcall(it, name, v), lambda p: (p.kind == 'return' and p.value is None, f'{p!r}'))
    return ck.finish()
