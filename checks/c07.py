"""C07 Lowered code is well formed: schema-valid with intact, unique jump targets"""

import itertools
import re

from absint import schema
from absint.models import ASchema

from . import programs as pr
from .c01 import LAYOUTS, MISPLACED, nest
from .common import Check
from .lab import OPS

TECHNIQUE = 'abstract interpretation of the parser over enumerated programs, with a jump-target and schema analysis of the emitted model'
NOTE = ('Every well-formed arrangement of block-structured lines up to a line bound, all control-flow skeletons to depth 3 and every statement and expression '
        'form is abstractly parsed; each emitted statement list is checked for undefined, duplicate and unused labels, the model is checked against the '
        'schema text read from model.py, and the abstractly executed lint must give no label warning. Longer programs rest on the absence of state '
        'beyond the block stack and the label counter, not on a proof.')


def scopes(statements, name='global'):
    """Every statement list of a model"""
    yield name, statements
    for s in statements:
        if 'function' in s:
            yield from scopes(s['function']['statements'], f'function {s["function"].get("name")}')


def label_problem(model, only=None):
    for name, stmts in scopes(model['statements']):
        defs, uses = {}, {}
        for i, s in enumerate(stmts):
            if 'label' in s:
                defs.setdefault(s['label'], []).append(i)
            elif 'jump' in s:
                uses.setdefault(s['jump']['label'], []).append(i)
        for lab in {**defs, **uses}:
            if only is not None and not lab.startswith(only):
                continue
            if lab not in defs:
                return f'{name}: jump at {uses[lab]} to label {lab!r}, which is not defined there'
            if len(defs[lab]) > 1:
                return f'{name}: label {lab!r} is defined at {defs[lab]}'
            if lab not in uses:
                return f'{name}: label {lab!r} at {defs[lab]} is not the target of any jump'
    return None


def arrangements(n, infunc=False, loop=False):
    """All well-formed statement blocks of exactly n lines, as line lists (conditions are tagged later)"""
    key = (n, infunc, loop)
    if key in _MEMO:
        return _MEMO[key]
    out = []
    if n == 0:
        out.append([])
    else:
        for first, used in statements(n, infunc, loop):
            for rest in arrangements(n - used, infunc, loop):
                out.append(first + rest)
    _MEMO[key] = out
    return out


_MEMO = {}


def statements(n, infunc, loop):
    """Single statements of at most n lines: (lines, number of lines)"""
    simple = [['x()'], ['return']]
    if loop:
        simple += [['break'], ['continue']]
    for s in simple:
        yield s, 1
    for k in range(n - 1):
        for b in arrangements(k, infunc, loop):
            yield ['if c:'] + b + ['endif'], k + 2
            if k <= n - 3:
                # split into branches
                for j in range(n - 2 - k):
                    for b2 in arrangements(j, infunc, loop):
                        yield ['if c:'] + b + ['else:'] + b2 + ['endif'], k + j + 3
                        yield ['if c:'] + b + ['elif d:'] + b2 + ['endif'], k + j + 3
                        if k + j <= n - 4:
                            for m in range(n - 3 - k - j):
                                for b3 in arrangements(m, infunc, loop):
                                    yield ['if c:'] + b + ['elif d:'] + b2 + ['else:'] + b3 + ['endif'], k + j + m + 4
                                    yield ['if c:'] + b + ['elif d:'] + b2 + ['elif e:'] + b3 + ['endif'], k + j + m + 4
        for b in arrangements(k, infunc, True):
            yield ['while c:'] + b + ['endwhile'], k + 2
            yield ['while true:'] + b + ['endwhile'], k + 2
            yield ['for v in a:'] + b + ['endfor'], k + 2
        if not infunc:
            for b in arrangements(k, True, False):
                yield ['function f(p):'] + b + ['endfunction'], k + 2


ATOMS = ['x', '1', '1.5', '0', '1e+5', "'s'", '"d"', "''", '[x y]', 'null', 'true', 'f()', 'f(x)', "f(x, 1, 'a')", 'f(g())', '(x)', '((x))', '-x', '!x', '- -x', '!!x', '-(x)', '!f(x)', '(-x)', '(x + 1)']

FORMS = {
    'assignment': 'x = {e}', 'expression': '{e}', 'return': 'return {e}', 'jumpif': 'jumpif ({e}) lab\nlab:', 'if': 'if {e}:\nendif', 'elif': 'if a:\nelif {e}:\nendif', 'while': 'while {e}:\nendwhile',
    'for': 'for v in {e}:\nendfor', 'function': 'function f():\nx = {e}\nreturn {e}\nendfunction', 'break': 'while {e}:\nbreak\nendwhile',
}

SINGLES = ['', '# c', '\n\n', 'function f():\nendfunction', 'function f(a):\nendfunction', 'function f(a, b):\nendfunction', 'function f(a...):\nendfunction', 'function f( a , b ... ):\nendfunction',
           'function f(...):\nendfunction', 'async function f():\nendfunction', 'async function f(a, b...):\nendfunction', ' async  function f ( ) :\nendfunction', 'function f(a,b,c,d):\nreturn\nendfunction',
           'return', 'lab:\njump lab', 'jump lab\nlab:', 'jumpif (x) lab\nlab:', "include 'a'", 'include <a>', "include 'a'\ninclude 'b'", "include 'a'\ninclude <b>\ninclude 'c'", "include ''", 'include <>',
           "x = 1\ninclude 'a'\nx = 2\ninclude 'b'", "function f():\ninclude 'a'\ninclude <b>\nendfunction", "include 'it\\'s'", "include 'a'\nfunction f():\ninclude 'b'\nendfunction",
           "if a:\ninclude 'a'\nelse:\ninclude 'b'\nendif", 'x = 1 + \\\n  2', "if a && \\\n  b:\nendif", 'f(\\\n1,\\\n2\\\n)', "include 'a'\n# c\n\ninclude 'b'", 'for x in y:\nfor x in y:\nendfor\nendfor',
           'function for_(a):\nendfunction', 'iff = 1', 'endif2 = 1', 'breakfast()', 'returned = 1', 'jumper()', 'else1:\njump else1', 'if(a):\nendif', 'if (a):\nendif', 'while(a):\nendwhile', 'elif1 = 1']


def run(prop, tier):
    ck = Check(prop, tier, 'program texts; for each, the model the parser emits is analysed: schema of every node, and per statement list every jump target '
               'defined exactly once and every emitted label targeted')
    ps = ck.fn('parser', 'parse_script')
    lint = ck.fn('model', 'lint_script')
    types = ck.fn('model', 'BARE_SCRIPT_TYPES')
    text = types.text if isinstance(types, ASchema) else None
    where = ck.where(ps)

    def program(rule, name, src, structured=True, dolint=True, maybe=False):
        def thunk(it):
            try:
                m = it.call(ps, [src], {})
            except Exception as e:
                if type(e).__name__ == 'PyExc':
                    return ('rejected', e.inst)
                raise
            w = it.call(lint, [m], {}) if dolint else []
            return ('ok', m, w)

        def judge(p):
            if p.kind != 'return':
                return False, f'lint raises {p.value!r}\n{src}'
            if p.value[0] == 'rejected':
                return True if maybe else None, f'rejected: {p.value[1]!r}\n{src}'
            _, m, warnings = p.value
            r = schema.problem(text, 'BareScript', m, ck.it) if text else schema.Unknown('schema text not found')
            if isinstance(r, schema.Unknown):
                return None, str(r)
            if r:
                return False, f'not schema-valid: {r}\n{src}'
            r = label_problem(m, None if structured else '__bareScript')
            if r:
                return False, f'{r}\n{src}'
            if structured:
                bad = [w for w in warnings if isinstance(w, str) and ' label ' in w]
                if bad:
                    return False, f'lint reports {bad}\n{src}'
            return True
        ck.cell(rule, name, where, thunk, judge)

    # R1 every well-formed arrangement of block lines
    top = 7 if ck.thorough else 6
    for k in range(top + 1):
        for lines in arrangements(k):
            src = '\n'.join(lines)
            program('R1 block arrangements', src.replace('\n', ' / '), src)
            if ck.over():
                break

    # R2 the control-flow skeletons of C01
    for gen in (pr.depth1, pr.depth2, pr.depth3):
        for nm, block in gen():
            program('R2 skeletons', nm, '\n'.join(pr.text(block)))
            fn, fb = pr.infunction(nm, block, 1)
            program('R2 skeletons', fn, '\n'.join(pr.text(fb)))
            # the same construct at top level, in a function and at top level again
            program('R2 skeletons', f'top, function, top: {nm}', '\n'.join(pr.text(block + fb + block)), dolint=False)
    m = pr.Maker()
    for j in (None, 'break', 'continue'):
        for kinds in (('while',), ('for',), ('while', 'if'), ('for', 'ifelse'), ('if', 'while'), ('ifelif', 'for'), ('whiletrue', 'elsebody'), ('forix', 'ifelifelse', 'while')):
            for d in (4, 8, 12):
                def wrap(i, inner, kinds=kinds):
                    return m.make(kinds[i % len(kinds)], lambda vs: inner + ([m.guard((j,))] if j and any(k in pr.LOOPS for k in kinds[i % len(kinds):i % len(kinds) + 1]) else []))
                block = nest(d, wrap, [m.log()])
                program('R2 skeletons', f'nest {d} {kinds} {j}', '\n'.join(pr.text(block)))
                program('R2 skeletons', f'sequence {d} {kinds} {j}', '\n'.join(pr.text([wrap(i, [m.log()]) for i in range(d)])))
                fb = [('func', f'fn{i}', [], [wrap(i, [m.log()])]) for i in range(d)]
                program('R2 skeletons', f'functions {d} {kinds} {j}', '\n'.join(pr.text(fb)))
                program('R2 skeletons', f'functions and statements {d} {kinds} {j}', '\n'.join(pr.text([x for i in range(d) for x in (wrap(i, [m.log()]), fb[i])])))

    # R3 statement and expression forms
    exprs = list(ATOMS) + [f'x {op} {a}' for op in OPS for a in ATOMS] + [f'{a} {op} y' for op in OPS for a in ATOMS] + \
        [f'x {o1} y {o2} z' for o1 in OPS for o2 in OPS] + [f'f({a}, {b})' for a in ATOMS for b in ATOMS]
    for e in exprs:
        for fn, form in FORMS.items():
            if not ck.thorough and fn not in ('assignment', 'if', 'for', 'jumpif') and e not in ATOMS:
                continue
            program('R3 statement and expression forms', f'{fn}: {e}', form.format(e=e), fn != 'jumpif', False)
    for s in SINGLES:
        program('R3 statement and expression forms', s.replace('\n', ' / '), s, not re.search(r'jump|^\w+:$', s, re.M))

    # R4 layouts, start lines and chunked texts
    for nm, block in list(pr.depth2())[::5 if not ck.thorough else 1]:
        src = '\n'.join(pr.text(block))
        for lay, f in LAYOUTS.items():
            program('R4 layouts', f'{nm} {lay}', f(src), True, False)

    # R5 user labels and jumps beside structured code: the emitted labels stay intact
    for u in ('lab:', 'jump lab', 'jumpif (x) lab', 'lab:\nlab:', 'If0:', 'Done0:\njump Done0', 'Loop1:', 'bareScriptDone0:', '_bareScriptDone0:\njump _bareScriptDone0', 'done:\njump done', 'loop:\njump loop'):
        for lines in (x for k in range(2, 5) for x in arrangements(k)):
            if any(x in ('if c:', 'while c:', 'while true:', 'for v in a:') for x in lines):
                for pos in {0, len(lines) // 2, len(lines)}:
                    src = '\n'.join(lines[:pos] + [u] + lines[pos:])
                    program('R5 user labels', src.replace('\n', ' / '), src, False, False)

    # R6 ill-formed arrangements: rejected, or else intact
    for nm, src in MISPLACED.items():
        program('R6 ill-formed arrangements', nm, src, True, False, True)
    lines = ['if c:', 'elif d:', 'else:', 'endif', 'while c:', 'endwhile', 'for v in a:', 'endfor', 'function f():', 'endfunction', 'break', 'continue', 'x()']
    for k in range(1, 5 if ck.thorough else 4):
        for seq in itertools.product(lines, repeat=k):
            program('R6 ill-formed arrangements', ' / '.join(seq), '\n'.join(seq), True, False, True)
    openers = [('if c:', 'endif'), ('while c:', 'endwhile'), ('for v in a:', 'endfor'), ('if c:\nelse:', 'endif')]
    for outer in (o for k in range(1, 4) for o in itertools.product(openers, repeat=k)):
        for inner in [()] + [(o,) for o in openers]:
            for j in ('break', 'continue', 'else:', 'elif e:', 'endif', 'endwhile', 'endfor'):
                seq = [o[0] for o in outer] + ['function f():'] + [o[0] for o in inner] + [j] + [o[1] for o in reversed(inner)] + ['endfunction'] + [o[1] for o in reversed(outer)]
                program('R6 ill-formed arrangements', ' / '.join(seq).replace('\n', ' / '), '\n'.join(seq), True, False, True)
    for a in arrangements(5):
        if len(set(a)) < 4 and not ck.thorough:
            continue
        for i in range(5):
            for seq in ([a[:i] + a[i + 1:]] + [a[:i] + a[i + 1:i + 2] + [a[i]] + a[i + 2:]] + ([a[:i] + [x] + a[i + 1:] for x in lines] if ck.thorough else [])):
                program('R6 ill-formed arrangements', ' / '.join(seq), '\n'.join(seq), True, False, True)
    return ck.finish()
