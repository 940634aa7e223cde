"""C14 JSON serialisation is faithful: jsonParse(jsonStringify(v)) equals v"""

import itertools
import json
import math
import re

from absint.values import Sym, show, sym

from .c13 import doubles
from .common import Check
from .lab import fcall, var

TECHNIQUE = ('abstract interpretation of the encoder: encoding templates over opaque strings, keys and numbers (every opaque leaf must reach the text through an exact encoder), and constant propagation over '
             'all short strings of the structural alphabet as values and as keys')
NOTE = ('An opaque string, key, integer or double must reach the text only through the JSON string escape or an exact number formatter, in a text that decodes (standard JSON decoding of the template) to the same value with '
        'sorted keys; so the result does not depend on the characters. Every string up to length 4 over the structural alphabet, control and non-BMP characters, boundary doubles and container shapes to depth 5 are '
        'propagated as constants through jsonStringify and jsonParse. Python\'s json escape and repr of a float are trusted to be exact. Surrogate code points (not characters) are outside the domain.')


class Pairs(list):
    pass


def strict(text):
    """Standard JSON decoding that keeps the order of the keys and rejects NaN/Infinity and raw duplicates"""
    def bad(x):
        raise ValueError('constant ' + x)

    def ints(x):
        return int(x)
    return json.loads(text, object_pairs_hook=Pairs, parse_constant=bad, parse_int=ints, parse_float=lambda x: ('fraction', x))


def equal(v, w):
    """Does a decoded JSON value equal the BareScript value"""
    if isinstance(v, bool) or isinstance(w, bool) or v is None or w is None:
        return v is w
    if isinstance(w, Pairs):
        return isinstance(v, dict) and len(w) == len(v) and all(k in v and equal(v[k], x) for k, x in w)
    if isinstance(w, tuple):
        return isinstance(v, (int, float)) and float(w[1]) == v
    if isinstance(v, (int, float)):
        return isinstance(w, (int, float)) and v == w
    if isinstance(v, str):
        return isinstance(w, str) and v == w
    if isinstance(v, list):
        return isinstance(w, list) and not isinstance(w, Pairs) and len(v) == len(w) and all(equal(a, b) for a, b in zip(v, w))
    if isinstance(v, dict):
        return isinstance(w, dict) and len(w) == len(v) and all(k in w and equal(v[k], w[k]) for k in v)
    return False


def well(w, path='$'):
    """Key order and integral numbers of a strictly decoded text: None or the fault"""
    if isinstance(w, Pairs):
        keys = [k for k, _ in w]
        if keys != sorted(set(keys)):
            return f'the keys {keys!r} at {path} are not sorted and distinct'
        for k, x in w:
            f = well(x, f'{path}.{k}')
            if f:
                return f
    elif isinstance(w, list):
        for i, x in enumerate(w):
            f = well(x, f'{path}[{i}]')
            if f:
                return f
    elif isinstance(w, tuple) and float(w[1]) == int(float(w[1])):
        return f'the integral number at {path} is written {w[1]!r}'
    return None


def run(prop, tier):
    ck = Check(prop, tier, 'encoding templates of opaque leaves; round trip and strict decoding of the propagated texts; keys derived from serialised values separate distinct values')
    lib = ck.fn('library', 'SCRIPT_FUNCTIONS')
    ev = ck.fn('runtime', 'evaluate_expression')
    vj = ck.fn('value', 'value_json')
    wst, wpa, wvj = ck.where(lib['jsonStringify']), ck.where(lib['jsonParse']), ck.where(vj)

    def lcall(it, name, *args):
        g = {f'a{i}': v for i, v in enumerate(args)}
        return it.call(ev, [fcall(name, *[var(x) for x in g]), {'globals': {**g, name: lib[name]}}, None, False], {})

    INDENTS = [(), (None,), (1.0,), (2.0,), (3.0,), (4.0,), (5.0,), (6.0,), (7.0,), (8.0,), (2,), (8,)]
    count = [0]

    def constant(rule, v, indents, name=None):
        for ind in indents:
            def thunk(it, ind=ind):
                t = lcall(it, 'jsonStringify', v, *ind)
                return t, lcall(it, 'jsonParse', t)

            def judge(p):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                text, back = p.value
                if not isinstance(text, str):
                    return (None, f'text {show(text)}') if isinstance(text, Sym) else (False, f'{v!r} is stringified as {show(text)}')
                try:
                    w = strict(text)
                except ValueError as e:
                    return False, f'{v!r} is stringified as {text!r}, which is not JSON: {e}'
                if not equal(v, w):
                    return False, f'{v!r} is stringified as {text!r}, which a JSON parser reads differently'
                fault = well(w)
                if fault:
                    return False, f'{v!r} is stringified as {text!r}: {fault}'
                if isinstance(back, Sym):
                    return None, f'jsonParse gives {show(back)}'
                if not equal(v, back):
                    return False, f'{v!r} is stringified as {text!r}, which jsonParse reads as {back!r}'
                return True
            ck.cell(rule, f'{name or repr(v)[:200]}{"".join(f" indent {i!r}" for i in ind)}', wst, thunk, judge)

    def sorted_keys(pairs):
        """Are the keys of every object of a decoded template in ascending order on this path"""
        if pairs is None or not pairs[0]:
            return None
        res = [True]

        def walk(w):
            if isinstance(w, (Pairs, tuple, list)) and not isinstance(w, str):
                if isinstance(w, Pairs):
                    for (a, _), (b, _) in zip(w, w[1:]):
                        r = ck.it.known('<', a, b) if isinstance(a, Sym) or isinstance(b, Sym) else a < b
                        if r is not True and res[0] is not False:
                            res[0] = r
                for x in w:
                    walk(x[1] if isinstance(w, Pairs) else x)
        walk(pairs[1])
        return res[0]

    # R1 opaque leaves: the template must be exact
    def opaque_shapes():
        s, t, x, n = sym('s', 'str'), sym('t', 'str'), sym('x', 'float'), sym('n', 'int')
        k, m = sym('k', 'str'), sym('m', 'str')
        yield 'string', lambda: s
        yield 'float', lambda: x
        yield 'int', lambda: n
        yield 'boolean', lambda: sym('b', 'bool')
        yield 'array of string', lambda: [s]
        yield 'array of strings', lambda: [s, t, s]
        yield 'array of numbers', lambda: [x, n, sym('y', 'float')]
        yield 'object of string', lambda: {'k': s}
        yield 'object of string and number', lambda: {'b': s, 'a': x, 'c': n}
        yield 'opaque key', lambda: {k: 1.0}
        yield 'opaque key and value', lambda: {k: s}
        yield 'opaque key beside a constant', lambda: {k: 1.0, 'm': 2.0}
        yield 'two opaque keys', lambda: {k: 1.0, m: 2.0}
        yield 'three keys', lambda: {'m': x, k: s, '': None}
        yield 'nested', lambda: [{'a': [s, {k: t}], 'Z': [x]}, [[n], []], {}]
        yield 'mixed', lambda: [None, True, s, x, {'y': {'z': t, 'x': [s, x]}, 'a': [None]}, False]
        yield 'deep', lambda: [[[[[s, x]]]]]
        yield 'deep object', lambda: {'a': {'b': {'c': {'d': {k: s}}}}}
        yield 'string after punctuation', lambda: [s, ',', t, ']', {'}': s}]
        yield 'shared container', lambda: (lambda c: [c, c, {'a': c}])([s])
    for name, mk in opaque_shapes():
        for ind in INDENTS if ck.thorough else INDENTS[:8]:
            for direct in (False, True):
                if direct and ind and ind[0] is not None and not isinstance(ind[0], float):
                    continue

                def thunk(it, mk=mk, ind=ind, direct=direct):
                    v = mk()
                    for a, b in itertools.combinations(v, 2) if isinstance(v, dict) else ():
                        if it.truth(it.compare('==', a, b)):
                            return None      # the keys of an object are distinct
                    if direct:
                        t = it.call(vj, [v] + [int(i) if i is not None else None for i in ind], {})
                    else:
                        t = lcall(it, 'jsonStringify', v, *ind)
                    pairs = it.json_template(t, hook=Pairs) if isinstance(t, Sym) else None
                    return v, t, lcall(it, 'jsonParse', t), pairs

                def judge(p):
                    if p.kind != 'return':
                        return False, f'raises {p.value!r}'
                    if p.value is None:
                        return True
                    v, t, back, pairs = p.value
                    if not isinstance(t, (str, Sym)):
                        return False, f'{show(v)} is stringified as {show(t)}'
                    r = ck.it.same(v, back)
                    d = f'{show(v)} is stringified as {show(t)}, which jsonParse reads as {show(back)}'
                    if r is not True:
                        return r, d
                    if isinstance(t, str):
                        return True
                    if '.0' in re.sub(r'json\.str', '', ''.join(x for x in t.args if isinstance(x, str)) if t.op == 'concat' else ''):
                        return False, f'an integral number is written with a fraction: {show(t)}'
                    return sorted_keys(pairs), f'the keys in {show(t)} are not sorted'
                ck.cell('R1 opaque leaves', f'{name}{"".join(f" indent {i!r}" for i in ind)}{" direct" if direct else ""}', wvj if direct else wst, thunk, judge)

    # R2 every short string over the structural alphabet, as a value and as a key
    alpha = 'a.0,]}'
    short = [''.join(c) for n in range(0, 5) for c in itertools.product(alpha, repeat=n)]
    for i, s in enumerate(short):
        ind = [(), INDENTS[2 + i % 8]] if not ck.thorough else INDENTS[:10]
        constant('R2 short strings', s, ind[:1])
        constant('R2 short strings', [s, {s: s}, 1.0], ind)
    special = ['"', '\\', '/', '\b', '\f', '\n', '\r', '\t', '\x00', '\x01', '\x1f', '\x7f', '\x80', '\u2028', '\u2029', '\ufeff', '\uffff', '\U0001f600', '\U0010ffff', '\U00010000', 'é', 'e\u0301', '\u0130', 'ß', '\xa0', "'", '<', '&', '{', '[', ':', ' ']
    for a in special:
        for s in [a, a + a, a + '.0', '.0' + a, '.0,' + a, a + ',0', '1.0' + a + '2.0', a + 'n', a + 'u0041', a + '"', '\\' + a, 'x' + a + 'y']:
            constant('R3 special characters', s, [()])
            constant('R3 special characters', {s: [s]}, [(2.0,)])
    for a, b in itertools.product(special, repeat=2) if ck.thorough else zip(special, special[1:]):
        constant('R3 special characters', [a + b, {a: b, b: a}], [(), (1.0,)])
    words = ['etc., x', 'a.0', '1.0', '1.0,', '[1.0]', '{"a": 1.0}', '3.0}', 'v1.0, v2.0', 'x.00', '.0\n', '1.50', '1e5', '1E5', '10000000000000000000000', 'true', 'null', 'false', '"quoted"', "it's", 'C:\\dir\\0.0,', 'http://a/b.0?x=1.0', 'NaN', 'Infinity', '-Infinity', '-0', '  ', ' 1.0 ',
             ', ', ': ', '":', '"}', '",\n', '{\n    "a": 1.0\n}', '\\u0041', '\\n', '\\"', 'None', 'True', '0.0', '00', '1.0e5', 'a,b]', '<function>', '2024-01-01T00:00:00+00:00', 'x' * 300, '\t.0\t', '+00:00', '\\', '\\\\']
    for w in words:
        constant('R4 texts', w, [(), (4.0,)])
        constant('R4 texts', {w: w, 'z': [w, 1.0, w], 'A': {w: 0.5}}, INDENTS[:4])

    # R5 numbers
    for x in doubles(ck.thorough):
        constant('R5 numbers', x, [()])
        constant('R5 numbers', [x, {'a': x, 'b': [x]}], [(2.0,)])
    for n in [0, 1, -1, 10, 10 ** 15, 10 ** 17, 10 ** 21, 10 ** 25, 2 ** 63, -2 ** 70]:
        constant('R5 numbers', [n, {'k': n}], [(), (3.0,)])

    # R6 container shapes
    leaves = [None, True, False, 0.0, 1.0, -2.5, '', 'a,', [], {}, 1, 0]
    shapes = list(leaves)
    for a, b in itertools.product(leaves, repeat=2):
        shapes += [[a, b], {'b': a, 'a': b}, [[a], {'x': b}], {'x': {'y': [a, {'z': b}]}}]
    for a in leaves:
        shapes += [[a], {'a': a}, [[[[[a]]]]], {'a': {'b': {'c': {'d': {'e': a}}}}}, [{'a': [{'b': [a]}]}], [a, a, a, a]]
    shapes += [{'b': 1.0, 'a': 2.0, 'c': 3.0, 'B': 4.0, '10': 5.0, '9': 6.0, '': 7.0, 'é': 8.0, '\U0001f600': 9.0, '\uffff': 10.0}, {'z': {'b': 1.0, 'a': {'d': 0.0, 'c': [{'f': 1.0, 'e': 2.0}]}}}, {str(i): float(i) for i in range(12, 0, -1)},
               [[], {}, [[]], [{}], {'a': []}, {'a': {}}], {'a1': 1.0, 'a': 2.0, 'a 1': 3.0, 'A': 4.0}, {'_': 1.0, 'Z': 2.0, 'a': 3.0}]
    for i, v in enumerate(shapes):
        constant('R6 shapes', v, [(), INDENTS[2 + i % 8]] if not ck.thorough else INDENTS)
    for s in shapes[-6:]:
        constant('R6 shapes', s, INDENTS)

    # R7 jsonParse reads standard JSON
    for t, v in [(' [1 , 2.5,\t-3e2,\r\n"x" ] ', [1, 2.5, -300.0, 'x']), ('"\\u0041\\n\\t\\r\\b\\f\\/\\\\\\""', 'A\n\t\r\b\f/\\"'), ('"\\ud83d\\ude00"', '\U0001f600'), ('"😀é"', '😀é'), ('{"b":1,"a":{"c":[]}}', {'b': 1, 'a': {'c': []}}), ('1E3', 1000.0), ('-0', 0), ('0.1', 0.1),
                 ('true', True), ('false', False), ('null', None), ('1e22', 1e22), ('123456789012345678901234567890', 123456789012345678901234567890), ('"a.0,]}"', 'a.0,]}'), ('[]', []), ('{}', {}), ('""', ''), ('"\\u00e9.0,"', 'é.0,'), ('[1.0,2.0]', [1, 2]), ('{"a.0,":"b.0}"}', {'a.0,': 'b.0}'})]:
        ck.cell('R7 parse', repr(t), wpa, lambda it, t=t: lcall(it, 'jsonParse', t), lambda p, v=v, t=t: (p.kind == 'return' and equal(v, p.value), f'jsonParse({t!r}) gives {p!r}'))
    for t in ('', ' ', '[1,]', '{a:1}', "'a'", '[1', '01', '1.', '.5', '+1', '"a', '"\n"', 'undefined', '1 2', '{"a"}', 'tru', '[1]]'):
        ck.cell('R7 parse', repr(t), wpa, lambda it, t=t: lcall(it, 'jsonParse', t), lambda p, t=t: (p.kind == 'return' and p.value is None, f'jsonParse({t!r}) gives {p!r}'))

    # R8 values as grouping and join keys: equal exactly when the values are
    keys = ['a', 'a.', 'a.0', 'a,', 'a.0,', 'a,0', ',', '.0', '.0,', ']', '.0]', '}', '', None, True, False, 1.0, 0.0, 1, '1', '1.0', 'true', 'null', '"a"', '[1]', [1.0], [1], ['1'], [], {}, '{}', '[]', {'a': 1.0}, {'a': 1}, '{"a":1}', [None], [['a,b']], [['a', 'b']], [['a'], 'b'],
            'a\\', 'a"', 'a\n', 'a\\n', '\U0001f600', '\u00e9', '\\u00e9', 1.5, '1.5', 10.0, 100.0, '10', 1e21, {'a': '1'}, {'a': True}, [True], 'True', 'None', ' a', 'a ', 'A']
    pairs = list(itertools.combinations(range(len(keys)), 2))
    for i, j in pairs:
        a, b = keys[i], keys[j]
        same = equal(a, b)

        def rows():
            return [{'k': a, 'n': 1.0}, {'k': b, 'n': 2.0}]

        def thunk(it):
            agg = lcall(it, 'dataAggregate', rows(), {'categories': ['k'], 'measures': [{'field': 'n', 'function': 'sum'}]})
            top = lcall(it, 'dataTop', rows(), 1.0, ['k'])
            join = lcall(it, 'dataJoin', [{'k': a, 'l': 1.0}], [{'k': b, 'r': 2.0}], 'k')
            return agg, top, join

        def judge(p, same=same):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            agg, top, join = p.value
            for what, v, n in (('dataAggregate', agg, 1 if same else 2), ('dataTop', top, 1 if same else 2)):
                if not isinstance(v, list):
                    return False, f'{what} gives {show(v)}'
                if len(v) != n:
                    return False, f'{what} treats the category values {a!r} and {b!r} as {"equal" if len(v) == 1 else "different"}'
            if not isinstance(join, list):
                return False, f'dataJoin gives {show(join)}'
            joined = any('r' in r for r in join)
            return joined == same, f'dataJoin treats the key values {a!r} and {b!r} as {"equal" if joined else "different"}'
        ck.cell('R8 keys', f'{a!r} and {b!r}', wvj, thunk, judge)

    # R9 histories: serialising and parsing keep no memory of earlier calls
    def mutate(v):
        if isinstance(v, list):
            v.append('later')
        elif isinstance(v, dict):
            v['later'] = 0.5
    for i, mk in enumerate([lambda: [1.0], lambda: {'a': [1.0]}, lambda: [], lambda: {}, lambda: [[], {}], lambda: {'k': 'a.0,'}, lambda: [sym('s', 'str')], lambda: {'a': sym('x', 'float'), 'b': []}]):
        for ind in ((), (2.0,)):
            def thunk(it, mk=mk, ind=ind):
                v = mk()
                t1 = lcall(it, 'jsonStringify', v, *ind)
                p1 = lcall(it, 'jsonParse', t1)
                t2 = lcall(it, 'jsonStringify', v, *ind)
                mutate(v)
                t3 = lcall(it, 'jsonStringify', v, *ind)
                mutate(p1)
                p2 = lcall(it, 'jsonParse', t1)
                p3 = lcall(it, 'jsonParse', t3)
                t4 = lcall(it, 'jsonStringify', mk(), *ind)
                return v, t1, t2, t4, p1, p2, p3, mk()

            def judge(p):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                v, t1, t2, t4, p1, p2, p3, fresh = p.value
                same = ck.it.same
                for what, a, b in (('a second jsonStringify', t1, t2), ('jsonStringify of an equal value', t1, t4), ('a second jsonParse', p2, fresh), ('jsonParse after a mutation of an earlier result', p2, fresh),
                                   ('jsonStringify of the mutated value', p3, v), ('the mutated parse result', p1, v)):
                    r = same(a, b)
                    if r is not True:
                        return r, f'{what}: {show(a)} against {show(b)}'
                return p1 is not p2, 'jsonParse returns the same container twice'
            ck.cell('R9 histories', f'{i}{ind}', wpa, thunk, judge)
    return ck.finish()
