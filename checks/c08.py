"""C08 Jump-level models execute by the documented statement semantics"""

import copy
import itertools

from absint.values import HostFn, PyExc, sym

from .common import Check
from .lab import TRUTH, binary, fcall, num, string, var
from .refrun import Ref, RefRun, matches, outcome

TECHNIQUE = 'abstract interpretation of the statement loop over enumerated statement lists with undetermined jump conditions, against the statement semantics'
NOTE = ('All statement lists to a length bound over labels, jumps, conditional jumps (both outcomes), returns, logs, function statements and calls are abstractly '
        'executed at top level and as function bodies; trace, result or error, final globals, an unchanged model and a second identical run are required. '
        'Longer lists are not enumerated.')

LIMIT = 14
TESTS = 3

SYMS = ['La', 'Lb', 'Ja', 'Jb', 'Ia', 'Ib', 'R', 'Rx', 'log', 'set', 'call']
SMALL = ['La', 'Lb', 'Ja', 'Ib', 'log', 'R']


def stmt(s, i):
    if s[0] == 'L':
        return {'label': s[1]}
    if s[0] == 'J':
        return {'jump': {'label': s[1]}}
    if s[0] == 'I':
        return {'jump': {'label': s[1], 'expr': fcall('cond', string(f'{i}'))}}
    if s == 'R':
        return {'return': {}}
    if s == 'Rx':
        return {'return': {'expr': fcall('log', string(f'r{i}'))}}
    if s == 'log':
        return {'expr': {'expr': fcall('log', string(f'{i}'), var('v'))}}
    if s == 'set':
        return {'expr': {'name': 'v', 'expr': fcall('log', string(f's{i}'))}}
    if s == 'call':
        return {'expr': {'name': 'w', 'expr': fcall('f', string(f'{i}'))}}
    raise AssertionError(s)


def bodies():
    lab, jmp, log = {'label': 'a'}, {'jump': {'label': 'a'}}, {'expr': {'expr': fcall('log', string('f'), var('p'))}}
    return [
        ('missing label', [log, jmp, log]),
        ('own label', [jmp, log, lab, {'return': {'expr': var('p')}}]),
        ('returns', [{'expr': {'name': 'v', 'expr': string('inner')}}, {'return': {'expr': fcall('log', string('fr'))}}, log]),
        ('falls off', [log]),
        ('nested', [{'function': {'name': 'g', 'statements': [{'return': {'expr': string('g')}}]}}, {'expr': {'name': 'v', 'expr': fcall('g')}}, log, {'return': {'expr': var('v')}}]),
        ('loop', [lab, {'jump': {'label': 'a', 'expr': fcall('cond', string('fc'))}}, log]),
        ('empty', []),
    ]


def run(prop, tier):
    ck = Check(prop, tier, 'statement lists (to a length bound) x condition outcomes; trace, result or error, final globals, unchanged model and a second run '
               'against the documented statement semantics; a cell is one model')
    es = ck.fn('runtime', 'execute_script')
    library = ck.mod('library').env['SCRIPT_FUNCTIONS']
    ref = Ref(ck)
    where = ck.where(es)

    def hosts(it, trace, tests, decided):
        def log(i, a, kw):
            trace.append(('log', tuple(a[0])))
            return a[0][0]

        def cond(i, a, kw):
            n = len(tests)
            r = decided[n] if decided is not None and n < len(decided) else (it.nd(f'test {n}') if n < TESTS and decided is None else False)
            tests.append(r)
            trace.append(('cond', a[0][0], r))
            return r
        return {'log': HostFn('log', log), 'cond': HostFn('cond', cond)}

    def strip(g):
        return {k: v for k, v in g.items() if not (k in library and v is library[k]) and k not in ('log', 'cond')}

    def cell(rule, name, model, extra=None, limit=LIMIT):
        def thunk(it):
            m = copy.deepcopy(model)
            ex = extra() if extra else {}
            t1, d1 = [], []
            g1 = {**hosts(it, t1, d1, None), **ex}
            o1 = outcome(it, es, m, {'globals': g1, 'maxStatements': limit})
            changed = m != model
            t2, d2 = [], []
            g2 = {**hosts(it, t2, d2, d1), **ex}
            it.set_flip = True
            o2 = outcome(it, es, m, {'globals': g2, 'maxStatements': limit})
            it.set_flip = False
            t3, d3 = [], []
            g3 = {**hosts(it, t3, d3, d1), **ex}
            rr = RefRun(ref, it, g3, limit)
            o3 = rr.run(model)
            return (o1, t1, strip(g1)), (o2, t2, strip(g2)), (o3, t3, strip(g3)), changed, len(it.state_changes())

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            a, b, want, changed, st = p.value
            from absint.values import show
            it = ck.it
            if changed:
                return False, 'execution modifies the model'
            if st:
                return False, f'{st} module-level containers differ after the runs'
            res = True
            for nm, x in (('first run', a), ('second run', b)):
                for what, g, w in zip(('result', 'trace', 'globals'), x, want):
                    r = matches(it, g, w)
                    if r is False:
                        return False, f'{nm}: {what} {show(g)[:400]}, expected {show(w)[:400]}'
                    if r is None:
                        res = None
            return res, f'undetermined comparison {show(a)[:200]}'
        ck.cell(rule, name, where, thunk, judge, max_paths=64)

    # R1 statement lists at top level (with one function to call)
    fdef = {'function': {'name': 'f', 'args': ['p'], 'statements': bodies()[1][1]}}
    short = 5 if ck.thorough else 4
    for n in range(short + 1):
        for seq in itertools.product(SYMS, repeat=n):
            if n == 5 and len({'La', 'Lb'} & set(seq)) + ('set' in seq) != 2:
                continue
            if 'call' not in seq:
                cell('R1 statement lists', ' '.join(seq), {'statements': [stmt(s, i) for i, s in enumerate(seq)]})
            elif n < 4:
                cell('R1 statement lists', 'f; ' + ' '.join(seq), {'statements': [fdef] + [stmt(s, i) for i, s in enumerate(seq)]})
    for n in ((5, 6) if ck.thorough else (5,)):
        for seq in itertools.product(SMALL, repeat=n):
            if 'La' in seq or 'Lb' in seq:
                cell('R1 statement lists', ' '.join(seq), {'statements': [stmt(s, i) for i, s in enumerate(seq)]})

    # R2 the same lists as a function body called between logs, with the same label names in the caller
    for n in range(1, 4):
        for seq in itertools.product([s for s in SYMS if s != 'call'], repeat=n):
            if not ck.thorough and n == 3 and not ({'La', 'Lb'} & set(seq)):
                continue
            body = [stmt(s, i) for i, s in enumerate(seq)]
            model = {'statements': [
                {'function': {'name': 'f', 'statements': body}}, {'expr': {'name': 'v', 'expr': string('top')}},
                {'expr': {'name': 'w', 'expr': fcall('f')}}, {'label': 'a'}, stmt('log', 'end'), {'label': 'b'}, {'return': {'expr': var('w')}}]}
            cell('R2 function bodies', ' '.join(seq), model)

    # R3 function statements: binding time, rebinding, bodies; calls in every position
    for nm, body in bodies():
        f = {'function': {'name': 'f', 'args': ['p'], 'statements': body}}
        g = {'function': {'name': 'f', 'statements': [{'return': {'expr': string('other')}}]}}
        call = stmt('call', 0)
        lab, jmp, log = {'label': 'a'}, {'jump': {'label': 'a'}}, stmt('log', 'z')
        for ln, stmts in (('before', [call, f, log]), ('after', [f, call, log]), ('rebound', [f, g, call, log]), ('rebound back', [g, f, call, log]),
                          ('skipped', [jmp, f, lab, call, log]), ('twice', [f, call, call, log]), ('caller labels', [lab, f, call, log]),
                          ('label after', [f, call, lab, log]), ('jump after', [f, call, jmp, log, lab, log]), ('jumped over call', [f, jmp, call, lab, log]),
                          ('call in jump', [f, {'jump': {'label': 'a', 'expr': fcall('f', string('j'))}}, log, lab, log]),
                          ('call in return', [f, {'return': {'expr': fcall('f', string('r'))}}]),
                          ('nested call', [f, {'return': {'expr': fcall('f', fcall('f', string('n')))}}]),
                          ('nested bound', [f, call, {'return': {'expr': fcall('g')}}])):
            cell('R3 function statements', f'{nm}: {ln}', {'statements': stmts}, limit=30)
    # three levels: each list resolves its own labels
    for a, b, c in itertools.product((True, False), repeat=3):
        lab, jmp = {'label': 'a'}, {'jump': {'label': 'a'}}
        L = lambda on, tag: ([lab] if on else []) + [{'expr': {'expr': fcall('log', string(tag))}}]
        model = {'statements': [
            {'function': {'name': 'h', 'statements': [{'jump': {'label': 'a', 'expr': fcall('cond', string('h'))}}] + L(c, 'h')}},
            {'function': {'name': 'g', 'statements': [{'expr': {'expr': fcall('h')}}, {'jump': {'label': 'a', 'expr': fcall('cond', string('g'))}}] + L(b, 'g')}},
            {'expr': {'expr': fcall('g')}}, {'jump': {'label': 'a', 'expr': fcall('cond', string('t'))}}] + L(a, 't')}
        cell('R3 function statements', f'three levels {a} {b} {c}', model, limit=30)
    # recursion: each activation has its own position
    for k in (1, 2, 3):
        body = [{'expr': {'expr': fcall('log', string('in'), var('n'))}}, {'jump': {'label': 'a', 'expr': binary('<=', var('n'), num(0))}},
                {'expr': {'name': 'r', 'expr': fcall('f', binary('-', var('n'), num(1)))}}, {'expr': {'expr': fcall('log', string('out'), var('n'))}}, {'label': 'a'},
                {'return': {'expr': var('n')}}]
        cell('R3 function statements', f'recursion {k}', {'statements': [{'function': {'name': 'f', 'args': ['n'], 'statements': body}}, {'return': {'expr': fcall('f', num(k))}}]}, limit=60)

    # R4 jump conditions: truthiness of the condition value
    for nm, mk, truth in TRUTH:
        model = {'statements': [{'jump': {'label': 'a', 'expr': var('x')}}, stmt('log', 0), {'label': 'a'}, stmt('log', 1)]}
        cell('R4 conditions', nm, model, extra=lambda mk=mk: {'x': mk()})
        cell('R4 conditions', f'{nm} unknown label', {'statements': [{'jump': {'label': 'zz', 'expr': var('x')}}, stmt('log', 0)]}, extra=lambda mk=mk: {'x': mk()})
        cell('R4 conditions', f'{nm} returned', {'statements': [{'return': {'expr': var('x')}}, stmt('log', 0)]}, extra=lambda mk=mk: {'x': mk()})
    # label names are compared exactly
    for a, b in (('a', 'A'), ('a', 'aa'), ('aa', 'a'), ('_a', 'a'), ('a1', 'a'), ('x', 'x')):
        cell('R4 conditions', f'labels {a} {b}', {'statements': [{'jump': {'label': a}}, stmt('log', 0), {'label': b}, stmt('log', 1), {'label': a}, stmt('log', 2)]})

    # many labels: a chain of jumps through the list backwards and forwards, and a loop of many iterations
    for n in (5, 20, 60):
        st = [{'jump': {'label': f'l{n - 1}'}}]
        for i in range(n):
            st += [{'label': f'l{i}'}, stmt('log', i), {'jump': {'label': f'l{i - 1}' if i else 'end'}}]
        cell('R4 conditions', f'{n} labels backwards', {'statements': st + [{'label': 'end'}, stmt('log', 'end')]}, limit=0)
        st = [{'expr': {'name': 'v', 'expr': num(0)}}, {'label': 'a'}, {'expr': {'name': 'v', 'expr': binary('+', var('v'), num(1))}},
              {'jump': {'label': 'b', 'expr': binary('==', binary('%', var('v'), num(3)), num(0))}}, stmt('log', 'x'), {'label': 'b'}, {'jump': {'label': 'a', 'expr': binary('<', var('v'), num(n))}}, {'label': 'a'}, {'label': 'b'}]
        cell('R4 conditions', f'{n} iterations', {'statements': st + [{'return': {'expr': var('v')}}]}, limit=0)

    # R5 several models in turn: no state carried from one run to another
    models = [
        ('ab', {'statements': [stmt('Ja', 0), {'label': 'b'}, stmt('log', 0), stmt('R', 0), {'label': 'a'}, stmt('log', 1), stmt('Jb', 2)]}),
        ('ba', {'statements': [{'label': 'a'}, stmt('log', 0), {'label': 'b'}, stmt('log', 1)]}),
        ('none', {'statements': [stmt('log', 0), stmt('Ja', 1)]}),
        ('fn', {'statements': [{'function': {'name': 'f', 'statements': [stmt('Ja', 0), stmt('log', 1), {'label': 'a'}, stmt('Rx', 3)]}}, {'return': {'expr': fcall('f')}}]}),
        ('fn2', {'statements': [{'function': {'name': 'f', 'args': ['a'], 'statements': [{'label': 'a'}, stmt('log', 1), {'return': {'expr': var('a')}}]}}, {'return': {'expr': fcall('f', num(1))}}]}),
        ('loop', {'statements': [{'label': 'a'}, stmt('Ja', 0)]}),
        ('fail', {'statements': [{'expr': {'expr': fcall('nothing')}}]}),
    ]
    for (n1, m1), (n2, m2) in itertools.product(models, repeat=2):
        for same in (False, True):
            def thunk(it, m1=m1, m2=m2, same=same):
                a, b = copy.deepcopy(m1), copy.deepcopy(m2)
                out, want = [], []
                opts = {}
                for m, src in ((a, m1), (b, m2), (a, m1)):
                    t, tr = [], []
                    if same:
                        opts.update({'globals': hosts(it, t, [], []), 'maxStatements': LIMIT})
                    o = outcome(it, es, m, opts if same else {'globals': hosts(it, t, [], []), 'maxStatements': LIMIT})
                    out.append((o, t))
                    w = RefRun(ref, it, hosts(it, tr, [], []), LIMIT).run(src)
                    want.append((w, tr))
                return out, want, a == m1 and b == m2, len(it.state_changes())

            def judge(p):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                out, want, kept, st = p.value
                if not kept:
                    return False, 'execution modifies the model'
                r = matches(ck.it, out, want)
                if r is False:
                    return False, f'{out}, expected {want}'
                return (r, '') if not st else (False, f'{st} module-level containers differ after the runs')
            ck.cell('R5 runs in turn', f'{n1}, {n2}, {n1} {"one options object" if same else ""}', where, thunk, judge)
    # repeated execution with the same globals object restored
    for nm, m in models:
        def thunk(it, m=m):
            outs = []
            a = copy.deepcopy(m)
            for _ in range(3):
                t = []
                outs.append((outcome(it, es, a, {'globals': hosts(it, t, [], []), 'maxStatements': LIMIT}), t))
            return outs
        ck.cell('R5 runs in turn', f'{nm} three times', where, thunk,
                lambda p: (p.kind == 'return' and matches(ck.it, p.value[1:], [p.value[0]] * 2), str(p.value)[:400]))
    _ = sym, PyExc
    return ck.finish()
