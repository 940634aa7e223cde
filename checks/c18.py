"""C18 Lint is pure, never fails, and its warnings are semantically justified"""

import copy
import itertools
import random
import re

from absint.values import AFunc, APartial, HostFn, Sym, show, sym

from . import programs as pr
from .c07 import SINGLES, scopes
from .common import SRC, Check
from .lab import OPS, binary, fcall, num, string, unary, var
from .refrun import matches, outcome

TECHNIQUE = 'abstract interpretation of lint_script over enumerated models (opaque names included), with a reference scope analysis and before/after runs of each suggested edit'
NOTE = ('Every enumerated model is linted twice on a write-tracked copy; unknown-label and redefinition warnings must be exactly those of the reference scope analysis, every '
        'unused or pointless warning must name something the reference def-use analysis finds unread or effect-free, and for enumerated models each suggested edit is applied '
        'and both models are abstractly executed. Longer models rest on lint treating scopes and statements alike, not on a proof.')


# -- reference scope analysis ---------------------------------------------------------------------------

def exprs(st):
    """The expressions of one statement (not of nested statements)"""
    k, v = next(iter(st.items()))
    if k == 'expr':
        return [v['expr']]
    if k in ('jump', 'return') and 'expr' in v:
        return [v['expr']]
    return []


def reads(e):
    """Names an expression may look up"""
    k, v = next(iter(e.items()))
    if k == 'variable':
        return {v}
    if k == 'group':
        return reads(v)
    if k == 'unary':
        return reads(v['expr'])
    if k == 'binary':
        return reads(v['left']) | reads(v['right'])
    if k == 'function':
        return {v['name']}.union(*[reads(a) for a in v.get('args', [])])
    return set()


def calls(e):
    """Whether evaluating the expression may call a function"""
    k, v = next(iter(e.items()))
    if k == 'group':
        return calls(v)
    if k == 'unary':
        return calls(v['expr'])
    if k == 'binary':
        return calls(v['left']) or calls(v['right'])
    return k == 'function'


def body_reads(stmts):
    return set().union(set(), *[reads(e) for s in stmts for e in exprs(s)])


def functions(model):
    """Every function statement of a model, nested ones included"""
    out = []

    def walk(stmts):
        for s in stmts:
            if 'function' in s:
                out.append(s['function'])
                walk(s['function']['statements'])
    walk(model['statements'])
    return out


def expected(model):
    """The beginnings of the label and redefinition warnings, as a set"""
    out = set()

    def scope(stmts, fn):
        labels = [s['label'] for s in stmts if 'label' in s]
        jumps = [s['jump']['label'] for s in stmts if 'jump' in s]
        names = [s['function']['name'] for s in stmts if 'function' in s]
        for x in jumps:
            if x not in labels:
                out.add(f'Unknown global label "{x}"' if fn is None else f'Unknown label "{x}" in function "{fn}"')
        for x in labels:
            if labels.count(x) > 1:
                out.add(f'Redefinition of global label "{x}"' if fn is None else f'Redefinition of label "{x}" in function "{fn}"')
        for x in names:
            if names.count(x) > 1:
                out.add(f'Redefinition of function "{x}"')
        for s in stmts:
            if 'function' in s:
                f = s['function']
                args = f.get('args', [])
                for x in args:
                    if args.count(x) > 1:
                        out.add(f'Duplicate argument "{x}" of function "{f["name"]}"')
                scope(f['statements'], f['name'])
    scope(model['statements'], None)
    return out


EXACT = ('Unknown ', 'Redefinition ', 'Duplicate argument')
_INDEX = re.compile(r'^(.*) \(index (\d+)\)( |$)', re.S)


def head(w):
    m = _INDEX.match(w)
    return m.group(1) if m else w


def exact_problem(model, warnings):
    want = expected(model)
    got = {head(w) for w in warnings if w.startswith(EXACT)}
    if got - want:
        return f'{sorted(got - want)[0]!r} is reported, but is not the case'
    if want - got:
        return f'{sorted(want - got)[0]!r} is not reported'
    return None


def edits(model, warnings):
    """[(warning, edited model)] of the suggested edits; a str when a warning is not justified"""
    out = []
    fns = functions(model)
    used_names = {n for _, stmts in scopes(model['statements']) for n in body_reads(stmts)}
    for w in dict.fromkeys(warnings):
        m = _INDEX.match(w)
        kind = next((k for k in ('Unused variable', 'Unused argument', 'Unused label', 'Unused global label', 'Pointless') if w.startswith(k)), None)
        if kind is None:
            continue
        ix = int(m.group(2)) if m else None
        times = warnings.count(w)
        new = copy.deepcopy(model)
        nfns = functions(new)
        if kind in ('Unused variable', 'Unused argument'):
            mm = re.match(r'Unused (?:variable "(.*)" defined in function "(.*)"|argument "(.*)" of function "(.*)") \(index \d+\)$', w, re.S)
            if not mm:
                continue
            name, fname = (mm.group(1), mm.group(2)) if mm.group(1) is not None else (mm.group(3), mm.group(4))
            arg = kind == 'Unused argument'
            ok = [i for i, f in enumerate(fns) if f['name'] == fname and name not in body_reads(f['statements'])
                  and (name in f.get('args', []) if arg else any(s.get('expr', {}).get('name') == name for s in f['statements']))]
            if len(ok) < times:
                return f'{w!r} is reported, but the name is read there, or there is no such definition'
            for i in ok:
                f = nfns[i]
                fresh = next(f'{name}_renamed{k}' for k in itertools.count() if f'{name}_renamed{k}' not in used_names)
                if 'args' in f:
                    f['args'] = [fresh if a == name else a for a in f['args']]
                for s in f['statements']:
                    if 'expr' in s and s['expr'].get('name') == name:
                        s['expr']['name'] = fresh
        elif kind in ('Unused label', 'Unused global label'):
            if kind == 'Unused label':
                mm = re.match(r'Unused label "(.*)" in function "(.*)" \(index \d+\)$', w, re.S)
                bodies = [(f['statements'], g['statements']) for f, g in zip(fns, nfns) if mm and f['name'] == mm.group(2)]
            else:
                mm = re.match(r'Unused global label "(.*)" \(index \d+\)$', w, re.S)
                bodies = [(model['statements'], new['statements'])]
            if not mm:
                continue
            lab = mm.group(1)
            ok = [b for a, b in bodies if any(s.get('label') == lab for s in a) and not any('jump' in s and s['jump']['label'] == lab for s in a)]
            if len(ok) < times:
                return f'{w!r} is reported, but a jump targets the label, or it is not defined there'
            for b in ok:
                b[:] = [s for s in b if s.get('label') != lab]
        else:
            mm = re.match(r'Pointless (?:global statement|statement in function "(.*)") \(index \d+\)$', w, re.S)
            if not mm or ix is None:
                continue
            if mm.group(1) is None:
                bodies = [(model['statements'], new['statements'])]
            else:
                bodies = [(f['statements'], g['statements']) for f, g in zip(fns, nfns) if f['name'] == mm.group(1)]
            ok = [b for a, b in bodies if ix < len(a) and 'expr' in a[ix] and 'name' not in a[ix]['expr'] and not calls(a[ix]['expr']['expr'])]
            if len(ok) < times:
                return f'{w!r} is reported, but the statement there may have an effect'
            for b in {id(b): b for b in ok}.values():
                del b[ix]
        out.append((w, new))
    return out


LIMIT = 24
TESTS = 3


def run(prop, tier):
    ck = Check(prop, tier, 'models x lint twice on a write-tracked copy; exact label and redefinition warnings; justified unused/pointless warnings, each edit applied and both '
               'models executed; a cell is one model')
    lint, es, parse = ck.fn('model', 'lint_script'), ck.fn('runtime', 'execute_script'), ck.fn('parser', 'parse_script')
    library = ck.mod('library').env['SCRIPT_FUNCTIONS']
    where = ck.where(lint)

    def hosts(it, trace, tests, decided):
        def log(i, a, kw):
            trace.append(('log', tuple(x if not isinstance(x, (APartial, AFunc, HostFn)) else ('fn',) for x in a[0])))
            return a[0][0] if a[0] else None

        def cond(i, a, kw):
            n = len(tests)
            r = decided[n] if decided is not None and n < len(decided) else (it.nd(f'test {n}') if n < TESTS and decided is None else False)
            tests.append(r)
            trace.append(('cond', r))
            return r
        return {'log': HostFn('log', log), 'cond': HostFn('cond', cond)}

    def strip(g):
        return {k: ('fn', k) if isinstance(v, (APartial, AFunc)) else v for k, v in g.items() if not (k in library and v is library[k]) and k not in ('log', 'cond')}

    def execute(it, model, decided, extra=None):
        t, d = [], []
        g = {**hosts(it, t, d, decided), **(extra or {})}
        fs = {'inc.bare': "incv = 'included'\nlog(v)\nlog(a)"}
        o = outcome(it, es, copy.deepcopy(model), {'globals': g, 'maxStatements': LIMIT, 'fetchFn': HostFn('fetch', lambda i, a, k: fs.get(a[0].get('url')))})
        if o[0] == 'ok' and isinstance(o[1], (APartial, AFunc)):
            o = ('ok', ('fn',))
        return (o, t, strip(g)), d

    other = {'statements': [{'label': 'a'}, {'function': {'name': 'f', 'args': ['x', 'x'], 'statements': [{'jump': {'label': 'zz'}}, {'expr': {'name': 'y', 'expr': num(1)}}]}},
                            {'function': {'name': 'f', 'statements': []}}, {'jump': {'label': 'q'}}]}

    def cell(rule, name, make, execute_edits=True, pairs=True):
        """make: a model, or a function of the interpreter giving one"""
        def thunk(it):
            model = make(it) if callable(make) else make
            m = copy.deepcopy(model)
            it.freeze(m, 'model')
            w1 = it.call(lint, [m], {})
            same = m == model
            if pairs:
                it.call(lint, [copy.deepcopy(other)], {})
            it.set_flip = True
            w2 = it.call(lint, [m], {})
            it.set_flip = False
            w3 = it.call(lint, [copy.deepcopy(model)], {}) if pairs else w2
            ws = list(w1) if isinstance(w1, (list, tuple)) else None
            runs = []
            if execute_edits and ws and all(isinstance(w, str) for w in ws):
                es_ = edits(model, ws)
                if not isinstance(es_, str) and es_:
                    base, d = execute(it, model, None)
                    for w, e in es_:
                        runs.append((w, base, execute(it, e, d)[0]))
            return model, w1, w2, w3, same, len(it.state_changes()), runs

        def judge(p):
            if p.kind != 'return':
                return False, f'lint raises {p.value!r}'
            model, w1, w2, w3, same, st, runs = p.value
            it = ck.it
            if not same or any(e[0] == 'mutate' for e in p.effects):
                return False, 'lint modifies the model'
            if st:
                return False, f'{st} module-level containers differ after linting'
            if not isinstance(w1, list):
                return (None if isinstance(w1, Sym) else False), f'lint returns {show(w1)[:200]}'
            if matches(it, w2, w1) is False and isinstance(w2, list) and sorted(map(repr, w1)) == sorted(map(repr, w2)):
                return False, f'the order of the warnings depends on the iteration order of a set of strings: {show(w2)[:300]}, or {show(w1)[:300]}'
            if matches(it, w2, w1) is False or matches(it, w3, w1) is False:
                return False, f'linting the same model again gives {show(w2)[:300]}, first {show(w1)[:300]}'
            if any(not isinstance(w, str) for w in w1):
                if any(not isinstance(w, (str, Sym)) for w in w1):
                    return False, f'a warning is not a string: {show(w1)[:300]}'
                return None, f'{show(w1)[:300]}'
            bad = exact_problem(model, w1)
            if bad:
                return False, bad
            e = edits(model, w1)
            if isinstance(e, str):
                return False, e
            res = True
            for w, a, b in runs:
                if a[0][0] == 'runtime' and str(a[0][1]).startswith('Exceeded') or b[0][0] == 'runtime' and str(b[0][1]).startswith('Exceeded'):
                    continue      # an edit may change the number of statements
                for what, x, y in zip(('result', 'log', 'globals'), a, b):
                    r = matches(it, y, x)
                    if r is False:
                        return False, f'after the edit suggested by {w!r} the {what} is {show(y)[:300]}, before {show(x)[:300]}'
                    if r is None:
                        res = None
            return res, ''
        return ck.cell(rule, name, where, thunk, judge, max_paths=64)

    # R1 statement lists at top level and as function bodies
    lab = lambda x: {'label': x}
    jmp = lambda x: {'jump': {'label': x}}
    jif = lambda x, e: {'jump': {'label': x, 'expr': e}}
    ex = lambda e, n=None: {'expr': {'expr': e} if n is None else {'name': n, 'expr': e}}
    fn = lambda name, stmts, args=None, **k: {'function': {'name': name, **({'args': args} if args else {}), 'statements': stmts, **k}}
    V = {
        'La': lab('a'), 'Lb': lab('b'), 'Ja': jmp('a'), 'Jb': jmp('b'), 'Ia': jif('a', fcall('cond')), 'Iv': jif('b', var('v')), 'R': {'return': {}}, 'Rv': {'return': {'expr': var('v')}},
        'v=': ex(string('s'), 'v'), 'v=f': ex(fcall('log', string('x')), 'v'), 'a=v': ex(var('v'), 'a'), 'v': ex(var('v')), 'v+1': ex(binary('+', var('v'), num(1))),
        'v+log': ex(binary('+', var('v'), fcall('log', string('p')))), '-(log)': ex(unary('-', {'group': fcall('log', string('q'))})), 'log v': ex(fcall('log', var('v'))), 'call': ex(fcall('f', string('1')), 'w'),
        'v()': ex(fcall('v')), 'inc': {'include': {'includes': [{'url': 'inc.bare'}]}}, 'if': ex(fcall('if', fcall('cond'), fcall('log', string('t')), var('v'))),
    }
    small = ['La', 'Lb', 'Ja', 'Ia', 'v=', 'v', 'log v', 'Rv']
    fdef = fn('f', [ex(fcall('log', var('p'), string('f'))), {'return': {'expr': var('p')}}], ['p'])
    for n in range(4):
        for seq in itertools.product(V if n < 3 else (list(V)[:13] if ck.thorough else small), repeat=n):
            stmts = [V[s] for s in seq]
            pre = [fdef] if 'call' in seq else []
            cell('R1 global lists', ' '.join(seq), {'statements': pre + stmts})
    for n in range(4):
        for seq in itertools.product(V if n < 3 else (list(V)[:13] if ck.thorough else small), repeat=n):
            stmts = [V[s] for s in seq]
            for args in ((), ('v',), ('v', 'v'), ('a', 'v'), ('p',)) if n < 3 else ((), ('v', 'p')):
                model = {'statements': [fdef, fn('g', stmts, list(args)), ex(string('gv'), 'v'), ex(fcall('g', string('1'), string('2')), 'r'), ex(fcall('g'), 'r2'), lab('a'), ex(fcall('log', string('end')))]}
                cell('R2 function bodies', f'({", ".join(args)}) {" ".join(seq)}', model)
    for n in range(3):
        for seq in itertools.product(('La', 'Lb', 'Ja', 'Ib', 'v=', 'log v', 'v'), repeat=n):
            for pre in ([lab('a'), jmp('a')], [lab('a')], [jmp('b'), lab('b')], [fn('k', [lab('a'), jmp('b')], ['v']), lab('b')], [ex(string('t'), 'v')]):
                cell('R2 function bodies', f'{" ".join(next(iter(x)) for x in pre)}, then {" ".join(seq)}', {'statements': pre + [fn('g', [V.get(s) or jif('b', fcall('cond')) for s in seq]), ex(fcall('g'))]})
    # longer label-only lists
    for n in (4, 5, 6) if ck.thorough else (4, 5):
        for seq in itertools.product(('La', 'Lb', 'Ja', 'Jb'), repeat=n):
            stmts = [V[s] for s in seq]
            cell('R1 global lists', ' '.join(seq), {'statements': stmts}, execute_edits=n < 5)
            if n < 5:
                cell('R2 function bodies', ' '.join(seq), {'statements': [fn('g', stmts), jmp('a'), lab('b'), ex(fcall('g'))]})

    # R3 several functions, nested functions, argument lists
    bodies = {'empty': [], 'uses v': [ex(fcall('log', var('v')))], 'sets v': [ex(num(1), 'v')], 'jumps a': [jmp('a')], 'label a': [lab('a')], 'both': [jmp('a'), lab('a')],
              'pointless': [ex(var('v'))], 'dup label': [lab('a'), lab('a'), jmp('a')], 'returns': [{'return': {'expr': var('v')}}], 'reads then sets': [ex(var('v'), 'v')]}
    argl = {'none': None, 'v': ['v'], 'v v': ['v', 'v'], 'v w v': ['v', 'w', 'v'], 'v v v': ['v', 'v', 'v'], 'v w': ['v', 'w'], 'v v w w': ['v', 'v', 'w', 'w']}
    for (na, a), (nb, b) in itertools.product(argl.items(), bodies.items()):
        for last in (False, True):
            f = fn('f', b, a, **({'lastArgArray': True} if last else {}))
            cell('R3 functions', f'{na}{"..." if last else ""}: {nb}', {'statements': [f, ex(fcall('f', string('1'), string('2')), 'r'), ex(fcall('f'))]})
    for (n1, b1), (n2, b2) in itertools.product(bodies.items(), repeat=2):
        for same, nested in itertools.product((True, False), (False, True)):
            f1, f2 = fn('f', b1, ['v']), fn('f' if same else 'g', b2)
            top = [fn('h', [f1, f2, *b1], ['u']), ex(fcall('h', num(1)))] if nested else [f1, f2]
            cell('R3 functions', f'{n1}; {n2} {"same name" if same else ""} {"nested" if nested else ""}', {'statements': top + [ex(fcall('f', string('1')), 'r'), lab('a')]})
            if ck.thorough:
                deep = [fn('h', [fn('i', [f1, lab('a')], ['v']), f2, ex(fcall('i')), jmp('b')]), ex(fcall('h'))]
                cell('R3 functions', f'{n1}; {n2} {"same name" if same else ""} deeply nested', {'statements': deep + [ex(fcall('f', string('1')), 'r')]})
    # one name in several scopes: a definition is repeated only within its own list of statements
    for nm in itertools.product(('f', 'g'), repeat=4):
        d = lambda k, b=(): fn(nm[k], [ex(fcall('log', string(str(k)))), *b])  # noqa: E731
        for shape, st in (('a(b) c', [d(0, [d(1)]), d(2)]), ('a(b(c))', [d(0, [d(1, [d(2)])])]), ('a(b c)', [d(0, [d(1), d(2)])]), ('a b(c)', [d(0), d(1, [d(2)])]), ('a(b) c(d)', [d(0, [d(1)]), d(2, [d(3)])]),
                          ('a(b c) d', [d(0, [d(1), d(2)]), d(3)]), ('a b(c d)', [d(0), d(1, [d(2), d(3)])]), ('a(b(c) d)', [d(0, [d(1, [d(2)]), d(3)])]), ('a b c(d)', [d(0), d(1), d(2, [d(3)])])):
            cell('R3 functions', f'{shape} named {" ".join(nm)}', {'statements': st + [ex(fcall(nm[0])), ex(fcall(nm[0]), 'r')]})
            cell('R3 functions', f'{shape} named {" ".join(nm)}, called between', {'statements': [y for x in st for y in (x, ex(fcall(x['function']['name'])))]})
    for names in itertools.product(('f', 'g'), repeat=4):
        cell('R3 functions', f'definitions {" ".join(names)}', {'statements': [x for i, n in enumerate(names) for x in (fn(n, [ex(fcall('log', string(f'{i}')))]), ex(fcall(n)))]})

    # R4 every expression form: what is read, what may have an effect
    atoms = {'num': num(1), 'str': string('s'), 'v': var('v'), 'null': var('null'), 'true': var('true'), 'call': fcall('log', string('c')), 'call v': fcall('log', var('v')), 'v()': fcall('v'),
             'noargs': {'function': {'name': 'log'}}, 'if': fcall('if', var('v'), fcall('log', string('a'))), 'int': {'number': 1}}

    def level(xs):
        for na, a in xs.items():
            yield f'-{na}', unary('-', a)
            yield f'!{na}', unary('!', a)
            yield f'({na})', {'group': a}
            yield f'f({na})', fcall('log', a)
        for (na, a), (nb, b) in itertools.product(xs.items(), repeat=2):
            yield f'{na} + {nb}', binary('+', a, b)
            yield f'{na} && {nb}', binary('&&', a, b)
            yield f'f({na}, {nb})', fcall('log', a, b)
    lev1 = {**atoms, **dict(level(atoms))}
    few = {k: lev1[k] for k in ('num', 'v', 'call', '-v', '!call', '(v)', '(call)', 'v + num', 'num && call', 'v && v', 'f(v)', 'f(num, v)', '-call')}
    lev2 = {**lev1, **dict(level(few))}
    few = {k: lev2[k] for k in ('num', '-(v)', '!(call)', '(v + num)', '(num && call)', '-v + (call)', '(v) && (v)', 'f((v))', '(!call)') if k in lev2}
    lev3 = {**lev2, **dict(level(few))}
    for ne, e in (lev3 if ck.thorough else {**lev2, **dict(list(level(few))[:120])}).items():
        model = {'statements': [fn('g', [ex(e), ex(string('l'), 'v'), ex(e), jif('x', e), lab('x'), ex(fcall('log', var('u')))], ['u']), ex(e), ex(string('g'), 'v'), ex(fcall('g', string('1'))), ex(e)]}
        cell('R4 expressions', ne, model)
        model = {'statements': [fn('g', [ex(string('l'), 'v'), {'return': {'expr': e}}], ['u']), ex(fcall('g', string('1')), 'r')]}
        cell('R4 expressions', f'return {ne}', model)
        model = {'statements': [fn('g', [ex(e, 'v'), ex(num(1), 'w'), ex(e, 'w')], ['v', 'w']), ex(fcall('g', string('1')), 'r')]}
        cell('R4 expressions', f'w = {ne}', model)
    for op in OPS:
        for a, b in itertools.product((var('v'), num(0), string('x'), fcall('log', var('v'))), repeat=2):
            cell('R4 expressions', f'{show(a)} {op} {show(b)}', {'statements': [ex(binary(op, a, b)), fn('g', [ex(binary(op, a, b)), ex(binary(op, a, b), 'z')]), ex(fcall('g'))]})

    # R5 unusual but valid models: odd names, empty lists, optional members, opaque names
    odd = ['', ' ', 'a b', '"', '" in function "', 'é', '𐍈', '__bareScriptIf0', 'null', 'true', 'if', 'a" (index 3)', '\n', '0', 'constructor', '__proto__', 'x' * 300]
    for x in odd:
        if '\n' in x or '"' in x:
            model = {'statements': [lab(x), jmp(x), fn(x, [lab(x), jmp(x), ex(var(x), x)], [x]), ex(fcall(x, num(1)))]}
            cell('R5 unusual models', f'names {x!r}', model)
            continue
        for nm, st in (('label', [lab(x)]), ('jump', [jmp(x)]), ('both', [jmp(x), lab(x)]), ('two', [jmp(x), lab(x), lab(x)]), ('assigned', [ex(num(1), x)]), ('read', [ex(var(x))]),
                       ('arg', [fn('f', [ex(fcall('log', num(1)))], [x]), ex(fcall('f', num(1)))]), ('args', [fn('f', [ex(fcall('log', var(x)))], [x, x]), ex(fcall('f', num(1)))]),
                       ('local', [fn('f', [ex(num(1), x)]), ex(fcall('f'))]), ('function', [fn(x, [lab(x), ex(num(2), x)], [x]), ex(fcall('log', var('f')))]), ('twice', [fn(x, []), fn(x, [])]),
                       ('local read', [fn('f', [ex(num(1), x), {'return': {'expr': var(x)}}]), ex(fcall('log', fcall('f')))]), ('called', [fn('f', [ex(num(1), x), ex(fcall('log', var(x)))]), ex(fcall('f'))])):
            cell('R5 unusual models', f'{nm} {x[:20]!r}', {'statements': st})
    for nm, st in (('empty', []), ('empty function', [fn('f', [])]), ('async', [fn('f', [], ['a'], **{'async': True})]), ('return only', [{'return': {}}]), ('no args member', [ex({'function': {'name': 'log'}})]),
                   ('empty args', [ex({'function': {'name': 'log', 'args': []}})]), ('include', [{'include': {'includes': [{'url': 'inc.bare'}]}}]),
                   ('includes', [{'include': {'includes': [{'url': 'inc.bare', 'system': True}, {'url': 'inc.bare', 'system': False}]}}]), ('include in function', [fn('f', [ex(num(1), 'v'), {'include': {'includes': [{'url': 'inc.bare'}]}}], ['a']), ex(fcall('f'))]),
                   ('flags false', [fn('f', [], ['a'], **{'async': False, 'lastArgArray': False})]), ('last without args', [fn('f', [], None, lastArgArray=True), ex(fcall('f', num(1)))])):
        cell('R5 unusual models', nm, {'statements': st})
    # a shared statement object, in several scopes
    s1, s2 = lab('a'), ex(var('v'))
    cell('R5 unusual models', 'shared statements', lambda it: {'statements': [s1, fn('f', [s1, s2, s1]), s2, fn('g', [s1, s2])]})
    deep = var('v')
    for i in range(60):
        deep = binary('+', deep, num(i)) if i % 3 else {'group': deep}
    cell('R5 unusual models', 'deep expression', {'statements': [ex(deep), fn('f', [ex(num(1), 'v'), ex(deep, 'w')])]})
    cell('R5 unusual models', 'many statements', {'statements': [x for i in range(60) for x in (lab(f'l{i % 45}'), jmp(f'l{(i * 7) % 50}'), ex(var(f'v{i}')), fn(f'f{i % 50}', [ex(num(i), f'v{i % 10}')], [f'a{i}']))]}, execute_edits=False)

    # opaque names: labels, arguments, functions that may or may not coincide
    def opaque(kind, n):
        def make(it):
            xs = [sym(f'name{i}', 'str') for i in range(n)]
            if kind == 'labels':
                return {'statements': [lab(xs[0]), lab(xs[1]), jmp(xs[2])]}
            if kind == 'function labels':
                return {'statements': [fn('f', [lab(xs[0]), lab(xs[1]), jmp(xs[2])])]}
            if kind == 'arguments':
                return {'statements': [fn('f', [ex(fcall('log', var(xs[2])))], [xs[0], xs[1]])]}
            if kind == 'variables':
                return {'statements': [fn('f', [ex(num(1), xs[0]), ex(var(xs[1]), xs[2])], None)]}
            return {'statements': [fn(xs[0], []), fn(xs[1], []), ex(fcall(xs[2]))]}

        def thunk(it):
            m = make(it)
            xs = [sym(f'name{i}', 'str') for i in range(n)]
            it.freeze(m, 'model')
            w = it.call(lint, [m], {})
            eq = {(i, j): it.truth(it.eq(xs[i], xs[j])) for i, j in ((0, 1), (0, 2), (1, 2))}
            return w, eq

        def judge(p):
            if p.kind != 'return':
                return False, f'lint raises {p.value!r}'
            if any(e[0] == 'mutate' for e in p.effects):
                return False, 'lint modifies the model'
            w, eq = p.value
            if not isinstance(w, list):
                return None, show(w)[:200]
            txt = [show(x) for x in w]
            count = lambda s: sum(s in t for t in txt)
            if kind in ('labels', 'function labels'):
                want = (eq[0, 1], not (eq[0, 2] or eq[1, 2]))
                got = (count('Redefinition') > 0, count('Unknown') > 0)
            elif kind == 'arguments':
                want, got = (eq[0, 1],), (count('Duplicate') > 0,)
            elif kind == 'variables':
                want = got = ()
            else:
                want, got = (eq[0, 1],), (count('Redefinition') > 0,)
            return got == want, f'{txt} with {eq}'
        ck.cell('R5 unusual models', f'opaque {kind}', where, thunk, judge, max_paths=200)
    for kind in ('labels', 'function labels', 'arguments', 'variables', 'functions'):
        opaque(kind, 3)

    # R6 structured programs, through the parser
    progs = list(pr.depth1()) + list(pr.depth2()) + (list(pr.depth3()) if ck.thorough else list(pr.depth3())[::4])
    for i, (name, block) in enumerate(progs):
        if not ck.thorough and i % 3 and ' ' in name and 'twice' not in name:
            continue
        for wrap in (False, True):
            text = '\n'.join(pr.text(pr.infunction('f', block)[1] if wrap else block))
            cell('R6 structured programs', f'{name}{" in a function" if wrap else ""}', lambda it, text=text: it.call(parse, [text], {}), execute_edits=False, pairs=False)
    for text in SINGLES:
        if not text.startswith(('if(', 'while(')):
            cell('R6 structured programs', repr(text), lambda it, text=text: it.call(parse, [text], {}), execute_edits=False)

    # R8 one name in several roles: label, variable, argument, function, global
    def mixed(rng, n, names, depth=0):
        out = []
        for _ in range(n):
            x, y, z = (rng.choice(names) for _ in range(3))
            k = rng.randrange(14 if depth == 0 else 11)
            e = rng.choice((var(y), num(1), fcall('log', var(y)), fcall(y, var(z)), binary('+', var(y), var(z)), fcall('log', string(y)), {'group': var(y)}, fcall('if', var(y), var(z)), unary('!', var(y))))
            if k < 2:
                out.append(lab(x))
            elif k == 2:
                out.append(jmp(x))
            elif k == 3:
                out.append(jif(x, rng.choice((var(y), e, num(0)))))
            elif k < 7:
                out.append(ex(e, x))
            elif k == 7:
                out.append(ex(var(x)))
            elif k == 8:
                out.append(ex(e))
            elif k == 9:
                out.append(ex(fcall('log', var(x), var(y))))
            elif k == 10:
                out.append({'return': {'expr': e}} if rng.random() < 0.7 else {'return': {}})
            else:
                args = [rng.choice(names) for _ in range(rng.randrange(4))]
                out.append(fn(x, mixed(rng, rng.randrange(1, 6), names, 1), args or None))
                if rng.random() < 0.7:
                    out.append(ex(fcall(x, *[num(i) for i in range(len(args))]), rng.choice((None, y))))
        return out
    for seed in range(4000 if ck.thorough else 1000):
        rng = random.Random(seed)
        cell('R8 shared names', f'model {seed}', {'statements': mixed(rng, rng.randrange(3, 8), ('a', 'b', 'c')[:rng.choice((1, 2, 2, 3))])})

    # R7 shipped scripts, and the same with statements dropped, doubled or renamed
    for path in sorted(SRC.rglob('*.bare')):
        text = path.read_text(encoding='utf-8')
        cell('R7 shipped scripts', ck.rel(path), lambda it, text=text: it.call(parse, [text], {}), execute_edits=False)

        def mutated(it, text=text, seed=0):
            m = copy.deepcopy(it.call(parse, [text], {}))
            rng = random.Random(seed)
            for _, stmts in list(scopes(m['statements'])):
                for _ in range(2):
                    if stmts:
                        k, how = rng.randrange(len(stmts)), rng.randrange(3)
                        if how == 0:
                            del stmts[k]
                        elif how == 1:
                            stmts.insert(k, copy.deepcopy(stmts[rng.randrange(len(stmts))]))
                        else:
                            stmts.insert(k, rng.choice((lab('a'), jmp('b'), ex(var('zz')), ex(num(1), 'unused1'))))
            return m
        for seed in range(6 if ck.thorough else 2):
            cell('R7 shipped scripts', f'{ck.rel(path)} edited {seed}', lambda it, f=mutated, s=seed: f(it, seed=s), execute_edits=False, pairs=False)
    return ck.finish()
