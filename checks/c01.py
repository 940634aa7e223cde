"""C01 Structured control flow runs with its source-level meaning"""

import copy

from absint.values import HostFn, PyExc, Unsupported, show, sym

from . import programs as pr
from .common import Check

TECHNIQUE = 'abstract interpretation of parser and statement loop over structured-program skeletons with undetermined conditions, against a big-step reading'
NOTE = ('Every nesting of if/elif/else, while, for and for-index to depth 2 (3 for the main kinds) with break, continue or return in every position, at top '
        'level and in functions, is abstractly parsed and executed with opaque array elements; each condition test is an undetermined branch, so all '
        'truth sequences up to the test bound are covered, and the effect trace, result and final globals are compared with a structured reading that '
        'replays the same decisions. Deeper nesting and longer iterations are not enumerated.')

LIMIT = 5     # undetermined condition tests per path; later tests are false


class Env:
    """Host functions shared by the run and the reference"""

    def __init__(self, it, arrays, limit):
        self.it = it
        self.trace = []
        self.tests = []
        self.limit = limit
        self.arrays = arrays

    def globals(self):
        g = {n: list(v) for n, v in self.arrays.items()}
        g['log'] = HostFn('log', self.log)
        g['cond'] = HostFn('cond', self.cond)
        g['next'] = HostFn('next', self.next)
        return g

    def log(self, it, args, kw):
        self.trace.append(('log', tuple(args[0])))

    def cond(self, it, args, kw):
        n = len(self.tests)
        r = it.nd(f'test {n} {args[0][0]}') if n < self.limit else args[0][0][0] == 'B'
        self.tests.append(r)
        self.trace.append(('test', args[0][0], r))
        return r

    def next(self, it, args, kw):
        self.trace.append(('next',))
        return sym(f'n{sum(t[0] == "next" for t in self.trace)}', 'float')


class Replay(Env):
    def __init__(self, env):
        super().__init__(env.it, env.arrays, env.limit)
        self.decided = list(env.tests)

    def cond(self, it, args, kw):
        n = len(self.tests)
        r = self.decided[n] if n < len(self.decided) else args[0][0][0] == 'B'
        self.tests.append(r)
        self.trace.append(('test', args[0][0], r))
        return r

    def hosts(self):
        h = {n: (lambda args, f=f: f(self.it, [args], {})) for n, f in (('log', self.log), ('cond', self.cond), ('next', self.next))}
        h['arrayNew'] = list
        return h


def truthy(v):
    if v is None or v is False:
        return False
    if isinstance(v, (int, float, str, list)):
        return bool(v)
    return True


def run(prop, tier):
    ck = Check(prop, tier, 'structured program skeletons x array lengths x truth sequences of their conditions; the lowered model is abstractly executed and '
               'its trace, result and globals compared with the structured reading; a cell is one skeleton with one array shape')
    ps = ck.fn('parser', 'parse_script')
    es = ck.fn('runtime', 'execute_script')
    it = ck.it
    where = f'{ck.where(ps)} / {ck.where(es)}'
    models = {}

    def program(rule, name, block, arrays=None, limit=LIMIT, layout=None):
        src = '\n'.join(pr.text(block)) + '\n'
        if layout:
            src = layout(src)
        arrays = arrays if arrays is not None else {'arr': [sym('e0'), sym('e1')], 'brr': [sym('f0')], 'crr': [sym('g0')]}
        def thunk(it):
            env = Env(it, arrays, limit)
            g = env.globals()
            model = models.get(src)
            if model is None:
                model = models[src] = it.call(ps, [src], {})
            options = {'globals': g, 'maxStatements': 2000}
            try:
                r = ('ok', it.call(es, [copy.deepcopy(model), options], {}))
            except PyExc as e:
                r = ('raise', e.inst)
            rep = Replay(env)
            rg = {n: list(v) for n, v in arrays.items()}
            b = pr.BigStep(rg, rep.hosts(), truthy)
            try:
                want = ('ok', b.run(block))
            except pr.Mismatch as e:
                raise Unsupported(str(e)) from None
            return env.trace, r, g, rep.trace, want, rg

        skip = {'log', 'cond', 'next'}
        index_vars = {s[2] for s in walk(block) if s[0] == 'for' and s[2]}

        def judge(p):
            if p.kind == 'raise':
                return False, f'raises {p.value!r}\n{src}'
            trace, r, g, rtrace, want, rg = p.value
            n = min(len(trace), len(rtrace))
            for i in range(n):
                s = it.same(trace[i], rtrace[i])
                if s is not True:
                    return s, f'event {i} is {show(trace[i])}, expected {show(rtrace[i])} after {show(trace[:i][-6:])}\n{src}'
            if r[0] == 'raise':
                return False, f'raises {r[1]!r} after {show(trace[-8:])}\n{src}'
            if len(trace) != len(rtrace):
                return False, f'trace {show(trace)}, expected {show(rtrace)}\n{src}'
            s = it.same(r[1], want[1])
            if s is not True:
                return s, f'returns {show(r[1])}, expected {show(want[1])}\n{src}'
            for k in sorted(set(g) | set(rg), key=repr):
                if not isinstance(k, str):
                    return False, f'global {k!r} added\n{src}'
                if k in skip or k in index_vars or k.startswith('__bareScript') or k in library or k in b_funcs:
                    continue
                if k not in g or k not in rg:
                    # an unbound global reads as null
                    s = it.same(g.get(k), rg.get(k))
                    if k in g and g[k] is not None or k in rg and rg[k] is not None:
                        return False, f'global {k} {"missing" if k not in g else "added"}\n{src}'
                    continue
                s = it.same(g[k], rg[k])
                if s is not True:
                    return s, f'global {k} is {show(g[k])}, expected {show(rg[k])}\n{src}'
            return True
        b_funcs = {s[1] for s in walk(block) if s[0] == 'func'}
        ck.cell(rule, name, where, thunk, judge, max_paths=80)

    library = set(ck.fn('library', 'SCRIPT_FUNCTIONS'))

    # R1 depth 1, for arrays of length 0..3, top level and function
    for nm, block in pr.depth1():
        lens = range(4) if ' for' in ' ' + nm else (2,)
        for n in lens:
            arrays = {'arr': [sym(f'e{i}') for i in range(n)]}
            program('R1 single construct', f'{nm} len={n}', block, arrays)
            fn, fb = pr.infunction(nm, block)
            program('R1 single construct', f'{fn} len={n}', fb, arrays)

    # R2 depth 2
    for nm, block in pr.depth2():
        program('R2 pairs of constructs', nm, block, limit=4)
        if ck.thorough or 'while' in nm or 'for' in nm:
            fn, fb = pr.infunction(nm, block, 1)
            program('R2 pairs of constructs', fn, fb, limit=4)

    # R3 depth 3
    for nm, block in pr.depth3():
        program('R3 triples of constructs', nm, block, limit=4)
        if ck.thorough:
            fn, fb = pr.infunction(nm, block, 1)
            program('R3 triples of constructs', fn, fb, limit=4)
        if ck.over():
            break

    # R4 conditions of every truth cell, and composed conditions
    from .lab import TRUTH
    for tn, mk, truth in TRUTH:
        for shape in ('if', 'elif', 'while', 'notif', 'jumpless'):
            def thunk(it, mk=mk, shape=shape):
                log = []
                vals = [mk()]
                g = {'log': HostFn('log', lambda i, a, k: log.append(a[0][0])), 'val': HostFn('val', lambda i, a, k: vals.pop(0) if vals else None)}
                src = {'if': "if val():\nlog('t')\nelse:\nlog('f')\nendif",
                       'elif': "if false:\nlog('x')\nelif val():\nlog('t')\nelse:\nlog('f')\nendif",
                       'while': "while val():\nlog('t')\nendwhile\nlog('f')",
                       'notif': "if !val():\nlog('f')\nelse:\nlog('t')\nendif",
                       'jumpless': "if val():\nlog('t')\nendif\nlog('f')"}[shape]
                m = it.call(ps, [src], {})
                it.call(es, [m, {'globals': g}], {})
                return log

            def judge(p, shape=shape, truth=truth):
                if p.kind == 'raise':
                    return False, f'raises {p.value!r}'
                want = {'if': ['t' if truth else 'f'], 'elif': ['t' if truth else 'f'], 'notif': ['t' if truth else 'f'],
                        'while': ['t', 'f'] if truth else ['f'], 'jumpless': ['t', 'f'] if truth else ['f']}[shape]
                return p.value == want, f'logs {p.value} want {want}'
            ck.cell('R4 condition truth cells', f'{shape} {tn}', where, thunk, judge)

    # R9 every form of condition expression, over values of every type, in every place a condition is written
    def truth(v):
        return truthy(v)

    def neg(v):
        return -v if isinstance(v, (int, float)) and not isinstance(v, bool) else None

    values = {'null': None, 'true': True, 'false': False, 'zero': 0.0, 'int zero': 0, 'one': 1.0, 'minus': -2.0, 'int': 3, 'empty string': '', 'string': 'a', 'string 0': '0',
              'empty array': [], 'array': [0.0], 'empty object': {}, 'object': {'a': None}}
    forms = {'x': lambda v: v, '!x': lambda v: not truth(v), '-x': neg, '!!x': truth, '!-x': lambda v: not truth(neg(v)), '-!x': lambda v: None, '--x': lambda v: neg(neg(v)),
             '!!!x': lambda v: not truth(v), '(x)': lambda v: v, '!(x)': lambda v: not truth(v), '(!x)': lambda v: not truth(v), '-(x)': neg, '(-x)': neg, '((x))': lambda v: v,
             '!(!x)': truth, 'idf(x)': lambda v: v, '!idf(x)': lambda v: not truth(v), '-idf(x)': neg, 'x && true': lambda v: v if not truth(v) else True,
             'x || false': lambda v: v if truth(v) else False, '!x && true': lambda v: not truth(v), '!x || false': lambda v: not truth(v),
             'x && !x': lambda v: v if not truth(v) else False, '!x || x': lambda v: True if not truth(v) else v, '!(x && true)': lambda v: not truth(v),
             '!(x || false)': lambda v: not truth(v), 'x == null': lambda v: v is None, 'x != null': lambda v: v is not None, '!x == true': lambda v: not truth(v),
             '!(x == null)': lambda v: v is not None, '-x == null': lambda v: neg(v) is None, 'if(x, 1, 0)': lambda v: 1 if truth(v) else 0,
             '!if(x, 1, 0)': lambda v: not truth(v), "''": lambda v: '', "'a'": lambda v: 'a', "!''": lambda v: True, "!'a'": lambda v: False, '0': lambda v: 0, '1': lambda v: 1,
             'true && x': lambda v: v, 'x == true': lambda v: v is True, 'true == x': lambda v: v is True, 'x != true': lambda v: v is not True, '!(x == true)': lambda v: v is not True,
             'x == false': lambda v: v is False, 'false || x': lambda v: v, '1 && x': lambda v: v, 'null || x': lambda v: v, '(true) && x': lambda v: v, 'if(true, x)': lambda v: v,
             'if(!x, false, true)': truth, 'x && (true)': lambda v: v if not truth(v) else True, "x != 'true'": lambda v: True, "x || 'true'": lambda v: v if truth(v) else 'true',
             '!0': lambda v: True, '!1': lambda v: False, '-0': lambda v: 0, '-1': lambda v: -1, '!-1': lambda v: False, 'true': lambda v: True, 'false': lambda v: False,
             'null': lambda v: None, '!true': lambda v: False, '!false': lambda v: True, '!null': lambda v: True, '[x]': lambda v: v, '![x]': lambda v: not truth(v),
             'missing': lambda v: None, '!missing': lambda v: True, 'arrayNew()': lambda v: [], '!arrayNew()': lambda v: True, 'objectNew()': lambda v: {}}
    shapes = {'if': ("if {0}:\nlog('t')\nelse:\nlog('f')\nendif\nlog('end')", ['t', 'end'], ['f', 'end']),
              'if alone': ("if {0}:\nlog('t')\nendif\nlog('end')", ['t', 'end'], ['end']),
              'elif': ("if false:\nlog('x')\nelif {0}:\nlog('t')\nelse:\nlog('f')\nendif\nlog('end')", ['t', 'end'], ['f', 'end']),
              'if then elif': ("if {0}:\nlog('t')\nelif true:\nlog('f')\nendif\nlog('end')", ['t', 'end'], ['f', 'end']),
              'while': ("while {0}:\nlog('t')\nbreak\nendwhile\nlog('end')", ['t', 'end'], ['end']),
              'while counted': ("n = 0\nwhile {0}:\nlog('t')\nn = n + 1\nif n == 2:\nbreak\nendif\nendwhile\nlog('end')", ['t', 't', 'end'], ['end']),
              'in function': ("function fn(x):\nif {0}:\nreturn 't'\nendif\nreturn 'f'\nendfunction\nlog(fn(x))", ['t'], ['f'])}
    again = {'while with continue': ("while {0}:\nlog('t')\nx = y\ncontinue\nlog('n')\nendwhile\nlog('end')", ['t', 'end']),
             'while with continue in a branch': ("n = 0\nwhile {0}:\nn = n + 1\nlog('t')\nif n == 2:\nx = y\nendif\nif n < 3:\ncontinue\nendif\nlog('n')\nendwhile\nlog('end')", ['t', 't', 'end']),
             'while without continue': ("while {0}:\nlog('t')\nx = y\nendwhile\nlog('end')", ['t', 'end']),
             'while in a for': ("for q in arrayNew(1, 2):\nwhile {0}:\nlog('t')\nx = y\nif q == 1:\ncontinue\nendif\nlog('n')\nendwhile\nlog('o')\nendfor\nlog('end')", ['t', 'o', 'o', 'end'])}
    for form, fe in forms.items():
        for vn, v in values.items():
            if 'x' not in form.replace('missing', '') and vn != 'null':
                continue
            for sn, (src, yes, no) in shapes.items():
                def thunk(it, src=src.replace('{0}', form), v=v):
                    log = []
                    g = {'log': HostFn('log', lambda i, a, k: log.append(a[0][0])), 'idf': HostFn('idf', lambda i, a, k: a[0][0]), 'x': copy.deepcopy(v)}
                    it.call(es, [it.call(ps, [src], {}), {'globals': g, 'maxStatements': 50}], {})
                    return log
                want = yes if truth(fe(v)) else no
                ck.cell('R9 condition forms', f'{sn} {form} x={vn}', where, thunk,
                        lambda p, want=want: (p.kind == 'return' and p.value == want, f'{p!r} want {want}'))
            # the condition is tested again after continue, and after the last statement
            other = next((o for o in values.values() if not truth(fe(o))), ck)
            if other is ck or not truth(fe(v)) or 'x' not in form:
                continue
            for sn, (src, want) in again.items():
                def thunk(it, src=src.replace('{0}', form), v=v, other=other):
                    log = []
                    g = {'log': HostFn('log', lambda i, a, k: log.append(a[0][0])), 'idf': HostFn('idf', lambda i, a, k: a[0][0]), 'x': copy.deepcopy(v), 'y': copy.deepcopy(other)}
                    it.call(es, [it.call(ps, [src], {}), {'globals': g, 'maxStatements': 60}], {})
                    return log
                ck.cell('R9 condition forms', f'{sn} {form} x={vn}', where, thunk,
                        lambda p, want=want: (p.kind == 'return' and p.value == want, f'{p!r} want {want}'))

    # R5 special programs
    L = lambda t, *v: ('log', t, *v)  # noqa: E731
    c = lambda k: ('c', k)  # noqa: E731
    br, co = ('break',), ('continue',)
    nx = ('call', 'next', [])
    progs = {
        'assignments': [('set', 'x', nx), ('set', 'y', ('var', 'x')), ('set', 'x', nx), L('a', 'x', 'y'), ('return', ('var', 'y'))],
        'condition variable updated in the body': [('set', 'x', c('a')), ('while', ('var', 'x'), [L('b', 'x'), ('set', 'x', c('d'))]), L('e', 'x')],
        'condition variable updated before continue': [('set', 'x', c('a')), ('while', ('var', 'x'), [L('b', 'x'), ('set', 'x', c('d')), ('if', [(c('k'), [co])], None), L('n')]), L('e', 'x')],
        'array variable reassigned in the body': [('for', 'v', 'i', 'arr', [L('b', 'v', 'i'), ('set', 'arr', ('var', 'brr'))]), L('e', 'arr')],
        'array variable reassigned to null': [('for', 'v', None, 'arr', [L('b', 'v'), ('set', 'arr', ('lit', 'null', None))]), L('e', 'arr')],
        'loop value reassigned in the body': [('for', 'v', 'i', 'arr', [('set', 'v', nx), L('b', 'v', 'i')]), L('e', 'v')],
        'same loop variables nested': [('for', 'v', None, 'arr', [L('o', 'v'), ('for', 'v', None, 'brr', [L('i', 'v')]), L('p', 'v')])],
        'the same array nested': [('for', 'v', 'i', 'arr', [('for', 'w', 'j', 'arr', [L('b', 'v', 'i', 'w', 'j')])])],
        'for over an array literal call': [('for', 'v', None, ('call', 'arrayNew', [('call', 'next', []), ('call', 'next', [])]), [L('b', 'v')])],
        'for over null': [('for', 'v', None, 'missing', [L('b', 'v')]), L('e')],
        'sequential loops': [('for', 'v', 'i', 'arr', [L('b', 'v', 'i')]), ('for', 'v', 'i', 'brr', [L('c', 'v', 'i')]), ('while', c('k'), [L('d')]), ('for', 'w', 'i', 'arr', [L('f', 'w', 'i')])],
        'loop in a chain of branches': [('if', [(c('a'), [('while', c('b'), [('if', [(c('d'), [br]), (c('e'), [co])], [L('x')]), L('y')])]), (c('f'), [L('z')])], [('for', 'v', None, 'arr', [L('w', 'v')])]), L('end')],
        'break of inner then continue of outer': [('while', c('a'), [('for', 'v', None, 'arr', [L('b', 'v'), ('if', [(c('d'), [br])], None)]), ('if', [(c('e'), [co])], None), L('n')]), L('end')],
        'continue of inner in else': [('for', 'v', None, 'arr', [('while', c('a'), [('if', [(c('b'), [L('t')])], [co]), L('n')]), L('o', 'v')])],
        'two continues and two breaks': [('while', c('a'), [('if', [(c('b'), [co])], None), L('x'), ('if', [(c('d'), [br])], None), ('if', [(c('e'), [co])], None), L('y'), br]), L('end')],
        'return in loop in function in loop': [('func', 'fn', ['p'], [('for', 'v', None, 'arr', [L('b', 'v', 'p'), ('if', [(c('a'), [('return', ('var', 'v'))])], None)]), ('return', ('var', 'p'))]),
                                               ('for', 'w', None, 'brr', [('call', 'res', 'fn', [('var', 'w')]), L('o', 'w', 'res')])],
        'bare return': [L('a'), ('if', [(c('a'), [('return', None)])], None), L('b'), ('return', nx)],
        'function without return': [('func', 'fn', [], [L('a')]), ('call', 'x', 'fn', []), L('b', 'x')],
        'function called in a condition': [('func', 'fn', ['p'], [L('in', 'p'), ('return', c('r'))]), ('while', ('call', 'fn', [('var', 'q')]), [L('body')]), L('end')],
        'function called in elif conditions': [('func', 'fn', ['p'], [('if', [(c('a'), [('return', ('lit', 'true', True))])], None)]),
                                              ('if', [(('call', 'fn', [('lit', '1', 1.0)]), [L('a')]), (('call', 'fn', [('lit', '2', 2.0)]), [L('b')])], [L('d')]), L('end')],
        'recursive function with a loop': [('func', 'fn', ['n'], [('for', 'v', 'i', 'arr', [L('b', 'n', 'v', 'i'), ('if', [(c('r'), [('call', 'x', 'fn', [('var', 'v')]), L('back', 'n', 'v', 'i', 'x')])], None)]), ('return', ('var', 'n'))]),
                                           ('call', 'y', 'fn', [('lit', "'top'", 'top')]), L('end', 'y', 'v', 'i')],
        'recursive function with while': [('func', 'fn', ['n'], [('while', c('w'), [L('b', 'n'), ('call', 'x', 'fn', [('call', 'next', [])]), ('if', [(c('k'), [co])], None), L('d', 'n', 'x')]), ('return', ('var', 'n'))]),
                                          ('call', 'y', 'fn', [('lit', "'top'", 'top')]), L('end', 'y')],
        'two functions with loops called alternately': [('func', 'f1', ['p'], [('for', 'v', None, 'arr', [L('x', 'v', 'p'), ('call', 'q', 'f2', [('var', 'v')])])]),
                                                        ('func', 'f2', ['p'], [('for', 'v', None, 'brr', [L('y', 'v', 'p'), ('if', [(c('b'), [br])], None)]), ('return', ('var', 'v'))]),
                                                        ('call', None, 'f1', [('lit', "'a'", 'a')]), ('for', 'v', None, 'brr', [('call', 'q', 'f2', [('var', 'v')]), L('z', 'v', 'q')])],
        'one function': [('func', 'fn', [], [('return', ('lit', "'one'", 'one'))]), ('call', 'r', 'fn', []), L('end', 'r')],
        'function defined twice': [('func', 'fn', ['p'], [('return', ('lit', "'one'", 'one'))]), ('func', 'fn', [], [('return', ('lit', "'two'", 'two'))]), ('call', 'r', 'fn', []), L('end', 'r')],
        'function redefined between calls': [('func', 'fn', ['p'], [L('a', 'p')]), ('call', 'r', 'fn', [('call', 'next', [])]), ('func', 'fn', ['q', 'p'], [L('b', 'p', 'q')]),
                                             ('call', 'r', 'fn', [('call', 'next', []), ('call', 'next', [])]), L('end', 'r')],
        'function defined in either branch': [('if', [(c('a'), [('func', 'fn', [], [('return', ('lit', "'one'", 'one'))])])], [('func', 'fn', [], [('return', ('lit', "'two'", 'two'))])]), ('call', 'r', 'fn', []), L('end', 'r')],
        'function redefined in a branch': [('func', 'fn', ['p'], [('while', c('w'), [L('x', 'p'), br])]), ('if', [(c('a'), [('func', 'fn', ['p'], [('for', 'v', None, 'arr', [L('y', 'v', 'p')])])])], None), ('call', 'r', 'fn', [('call', 'next', [])]), L('end', 'r')],
        'function redefined in a loop': [('func', 'fn', [], [L('first')]), ('for', 'v', None, 'arr', [('call', 'r', 'fn', []), ('func', 'fn', ['p'], [L('later', 'p')])]), ('call', 'r', 'fn', [('call', 'next', [])]), L('end', 'r')],
        'function named like a library function': [('func', 'arrayLength', ['p'], [L('x', 'p'), ('return', ('lit', '1', 1.0))]), ('call', 'r', 'arrayLength', [('var', 'brr')]), L('end', 'r')],
        'function defined in a loop body': [('while', c('a'), [('func', 'fn', ['p'], [('while', c('b'), [L('x', 'p'), ('if', [(c('d'), [br])], None)]), ('return', ('var', 'p'))]),
                                            ('call', 'r', 'fn', [('lit', "'q'", 'q')]), L('end', 'r'), ('if', [(c('k'), [co])], None), L('n')]), L('done')],
        'composed conditions': [('if', [(('and', c('a'), c('b')), [L('x')]), (('or', c('d'), c('e')), [L('y')])], [L('z')]), ('while', ('and', c('f'), ('not', c('g'))), [L('w')]), L('end')],
        'negated conditions': [('if', [(('not', c('a')), [L('x')])], [L('y')]), ('while', ('not', c('B')), [L('w'), ('if', [(c('k'), [br])], None)]), L('end')],
        'grouped conditions': [('if', [(('group', ('or', c('a'), c('b'))), [L('x')])], None), ('while', ('group', c('d')), [L('y')])],
        'else branch ends with break': [('while', c('a'), [('if', [(c('b'), [L('x')]), (c('d'), [co])], [br]), L('y')]), L('end')],
        'loop as last statement of a branch of a loop': [('for', 'v', None, 'arr', [('if', [(c('a'), [('for', 'w', None, 'brr', [('if', [(c('b'), [co])], None), L('x', 'v', 'w')])])], [L('y', 'v')])]), L('end')],
        'unreachable statements after jumps': [('while', c('a'), [br, L('x')]), ('for', 'v', None, 'arr', [co, L('y', 'v')]), ('return', nx), L('z')],
        'empty bodies': [('if', [(c('a'), [])], None), ('if', [(c('b'), []), (c('d'), [])], []), ('while', c('e'), []), ('for', 'v', None, 'arr', []), L('end', 'v')],
        'four branches': [('if', [(c('a'), [L('a')]), (c('b'), [L('b')]), (c('d'), [L('d')]), (c('e'), [L('e')])], [L('x')]), L('end')],
        'four branches without else': [('if', [(c('a'), [L('a')]), (c('b'), [L('b')]), (c('d'), [L('d')]), (c('e'), [L('e')])], None), L('end')],
        'twelve constructs in sequence': [x for i in range(6) for x in (('if', [(('lit', 'true' if i % 2 else 'false', bool(i % 2)), [L(f'a{i}')])], [L(f'b{i}')]),
                                                                        ('for', f'v{i}', None, 'arr', [L(f'c{i}', f'v{i}')]))] + [L('end')],
        'twelve loops in sequence': [('while', c(f'w{i}'), [L(f'x{i}'), br]) for i in range(12)] + [L('end')],
        'six loops nested': nest(6, lambda i, b: ('while', c(f'w{i}'), b + [br]), [L('in')]) + [L('end')],
        'six ifs nested': nest(6, lambda i, b: ('if', [(('lit', 'true', True), b)], [L(f'e{i}')]), [('if', [(c('a'), [L('in')])], [L('else')])]) + [L('end')],
        'fors nested': nest(4, lambda i, b: ('for', f'v{i}', f'i{i}', 'brr', b), [L('in', *(f'v{i}' for i in range(4)), *(f'i{i}' for i in range(4)))]) + [L('end')],
        'loops in functions in sequence': [('func', f'fn{i}', ['p'], [('for', 'v', 'i', 'arr', [L(f'x{i}', 'v', 'i', 'p'), ('if', [(c(f'a{i}'), [br])], None)]), ('return', ('var', 'p'))]) for i in range(3)] +
                                          [x for i in range(3) for x in (('call', 'r', f'fn{i}', [('lit', f"'{i}'", str(i))]), L('r', 'r'))],
        'global loop after function loop': [('for', 'v', 'i', 'arr', [L('g', 'v', 'i')]), ('func', 'fn', ['v'], [('while', c('a'), [L('x', 'v'), ('if', [(c('b'), [co])], None), L('y')])]),
                                            ('for', 'v', 'i', 'brr', [('call', None, 'fn', [('var', 'v')]), L('h', 'v', 'i')])],
        'loop variable is a parameter': [('func', 'fn', ['v', 'i'], [('for', 'v', 'i', 'arr', [L('x', 'v', 'i')]), ('return', ('var', 'v'))]),
                                         ('call', 'r', 'fn', [('lit', "'p'", 'p'), ('lit', "'q'", 'q')]), L('end', 'r')],
        'array is a local': [('func', 'fn', ['arr'], [('for', 'v', 'i', 'arr', [L('x', 'v', 'i'), ('set', 'arr', ('var', 'brr'))]), L('y', 'arr')]), ('call', None, 'fn', [('var', 'brr')]), L('end', 'arr')],
        'while true': [('while', ('var', 'true'), [L('a'), ('if', [(('not', c('k')), [br])], None), L('d')]), L('end')],
        'while true with continue': [('while', ('var', 'true'), [('if', [(c('B'), [br])], None), ('if', [(c('d'), [co])], None), L('d')]), L('end')],
    }
    for nm, block in progs.items():
        for lens in ((0, 1), (1, 1), (2, 2), (3, 2)):
            arrays = {'arr': [sym(f'e{i}') for i in range(lens[0])], 'brr': [sym(f'f{i}') for i in range(lens[1])]}
            program('R5 interactions', f'{nm} {lens}', block, arrays, limit=6)
        if not any(s[0] == 'func' for s in walk(block)):
            fn, fb = pr.infunction(nm, block, 2)
            program('R5 interactions', fn, fb, limit=5)

    # R7 layout does not change the meaning: the same programs with other indentation, comments and blank lines
    for nm in ('loop in a chain of branches', 'break of inner then continue of outer', 'two continues and two breaks', 'return in loop in function in loop',
               'function defined in a loop body', 'four branches', 'composed conditions', 'six ifs nested'):
        for lay, f in LAYOUTS.items():
            program('R7 layout', f'{nm} {lay}', progs[nm], {'arr': [sym('e0'), sym('e1')], 'brr': [sym('f0')]}, limit=5, layout=f)

    # R8 arrays of other lengths and contents
    for n in (4, 5, 11):
        for nm in ('for', 'forix'):
            m = pr.Maker()
            block = [m.make(nm, lambda vs: [m.log(*vs)]), m.log()]
            program('R8 arrays', f'{nm} len={n}', block, {'arr': [sym(f'e{i}') for i in range(n)]})
    for n, elems in (('null elements', [None, sym('a', 'str'), None]), ('falsy elements', [0, '', False, []]), ('equal elements', [1, 1, 1]), ('nested', [[1], [], {}])):
        for k in ('for', 'forix'):
            m = pr.Maker()
            program('R8 arrays', f'{k} {n}', [m.make(k, lambda vs: [m.log(*vs), m.guard(('continue',)), m.log()]), m.log()], {'arr': elems})

    # R6 misplaced jumps and blocks are not given a meaning
    for nm, src in MISPLACED.items():
        ck.cell('R6 misplaced jumps', nm, ck.where(ps), lambda i, src=src: i.call(ps, [src], {}),
                lambda p, src=src: (p.kind == 'raise' and 'ParserError' in p.exc_name(), f'accepted as {p!r}\n{src}'))
    return ck.finish()


LAYOUTS = {
    'no indentation': lambda s: '\n'.join(x.strip() for x in s.split('\n')),
    'tabs and trailing blanks': lambda s: '\n'.join('\t' + x.replace('    ', '\t') + ' \t' for x in s.split('\n')),
    'comments and blank lines': lambda s: '# c\n\n' + '\n'.join(f'{x}\n   # endif\n \n# while a:' for x in s.split('\n')),
    'crlf': lambda s: s.replace('\n', '\r\n'),
    'wide keywords': lambda s: s.replace(':\n', ' :\n').replace('if ', 'if   ').replace('while ', 'while  ').replace(' in ', '  in  ').replace('return ', 'return   '),
    'continued lines': lambda s: s.replace('(', '(\\\n').replace(' in ', ' in \\\n  '),
}

MISPLACED = {
    'break at top level': 'break', 'continue at top level': 'continue',
    'break in if': 'if a:\nbreak\nendif', 'continue in else': 'if a:\nelse:\ncontinue\nendif',
    'break in function in loop': 'while a:\nfunction f():\nbreak\nendfunction\nendwhile',
    'continue in function in loop': 'for a in b:\nfunction f():\ncontinue\nendfunction\nendfor',
    'break in if in function in loop': 'while a:\nfunction f():\nif x:\nbreak\nendif\nendfunction\nendwhile',
    'break after loop': 'while a:\nendwhile\nbreak',
    'elif after else': 'if a:\nelse:\nelif b:\nendif', 'two else': 'if a:\nelse:\nelse:\nendif',
    'endif closes while': 'while a:\nendif\nendwhile', 'endwhile closes for': 'for a in b:\nendwhile\nendfor', 'endfor closes while': 'while a:\nendfor\nendwhile',
    'endwhile closes if': 'if a:\nendwhile\nendif', 'else in while in if': 'if a:\nwhile b:\nelse:\nendwhile\nendif',
    'elif in for in if': 'if a:\nfor b in c:\nelif d:\nendfor\nendif',
    'endif in function': 'if a:\nfunction f():\nendif\nendfunction', 'endwhile in function': 'while a:\nfunction f():\nendwhile\nendfunction',
    'endfor in function': 'for a in b:\nfunction f():\nendfor\nendfunction', 'else in function': 'if a:\nfunction f():\nelse:\nendfunction\nendif',
    'elif in function': 'if a:\nfunction f():\nelif b:\nendfunction\nendif',
    'open if in function': 'function f():\nif a:\nendfunction\nendif', 'open while in function': 'function f():\nwhile a:\nendfunction\nendwhile',
    'nested function': 'function f():\nfunction g():\nendfunction\nendfunction',
}


def nest(n, wrap, inner):
    for i in range(n):
        inner = [wrap(i, inner)]
    return inner


def walk(block):
    for s in block:
        yield s
        if s[0] == 'if':
            for _, b in s[1]:
                yield from walk(b)
            yield from walk(s[2] or [])
        elif s[0] in ('while', 'for', 'func'):
            yield from walk(s[-1])
