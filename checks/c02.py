"""C02 Expression text parses to the tree the precedence rules dictate"""

import itertools

from absint.values import show

from . import grammar
from .common import Check
from .lab import OPS, exc_is

TECHNIQUE = 'abstract interpretation of the expression parser over operator chains (right-spine induction) and token-class strings'
NOTE = ('The chain parser looks only at the operators on the right spine: every strictly increasing spine of precedence levels is extended by '
        'every operator (the induction step), plus every ordered pair of operators in every operand form; token-class strings up to a bounded length '
        'decide acceptance and rejection against an independent precedence-climbing grammar. Trees are compared by the domain, the parser is never run '
        'by Python. Longer irregular token strings are not enumerated.')

REPS = {1: '||', 2: '&&', 3: '==', 4: '<', 5: '+', 6: '*', 7: '**'}


def run(prop, tier):
    ck = Check(prop, tier, 'expression texts by operator chain shape and token class; each is abstractly parsed and its tree compared with an independent '
               'precedence-climbing grammar; distinct texts count')
    pe = ck.fn('parser', 'parse_expression')
    where = ck.where(pe)
    it = ck.it
    seen = set()

    def check(rule, text):
        if text in seen:
            return
        seen.add(text)
        try:
            want = grammar.parse(text)
        except grammar.Unclear:
            return

        def judge(p):
            if p.kind == 'raise':
                if not exc_is(p, 'BareScriptParserError'):
                    return False, f'{text!r} raises {p.value!r} instead of a parser error'
                return want is None, f'{text!r} is rejected ({p.value!r}); it is well-formed: {show(want)}'
            if want is None:
                return False, f'{text!r} is not a well-formed expression but is parsed as {show(p.value)}'
            return it.same(p.value, want), f'{text!r} parses to {show(p.value)} want {show(want)}'
        ck.cell(rule, text, where, lambda i: i.call(pe, [text], {}), judge)

    # R1 induction on the right spine
    levels = range(1, 8)
    for n in range(0, 8):
        for spine in itertools.combinations(levels, n):
            for op in OPS:
                ops = [REPS[x] for x in spine] + [op]
                text = 'a0'
                for i, o in enumerate(ops):
                    text += f' {o} a{i + 1}'
                check('R1 right spine step', text)
    # chains whose spine was already re-ordered once
    for a, b, c in itertools.product(OPS, repeat=3):
        check('R1 right spine step', f'a {a} b {b} c {c} d')
    for chain in itertools.product(levels, repeat=4):
        check('R1 right spine step', 'a ' + ' '.join(f'{REPS[x]} v{i}' for i, x in enumerate(chain)))

    # R2 operand forms
    forms = ['x', '1', '1.5', "'s'", '"d"', '[x y]', '(x)', '(x + y)', '(x || y)', '-x', '!x', '-(x + y)', '!(x || y)', '- -x', '!-x', '!!x', 'f()', 'f(x)',
             'f(x + y, z)', '-f(x)', '((x))', 'ff(g(x), (y))', '-1', '-1.5', '!true']
    for a, b in itertools.product(OPS, repeat=2):
        for f in forms:
            check('R2 operand forms', f'{f} {a} p {b} q')
            check('R2 operand forms', f'p {a} {f} {b} q')
            check('R2 operand forms', f'p {a} q {b} {f}')
        check('R2 operand forms', f'(p {a} q) {b} r')
        check('R2 operand forms', f'p {a} (q {b} r)')
        check('R2 operand forms', f'-p {a} -q {b} -r')
        check('R2 operand forms', f'!p {a} !q {b} !r')
        check('R2 operand forms', f'f(p {a} q, r {b} s)')
        check('R2 operand forms', f'f(p {a} q {b} r)')
        check('R2 operand forms', f'-(p {a} q {b} r)')
        check('R2 operand forms', f'(p {a} q {b} r)')
    for a in OPS:
        for u in ('-', '!', '- ', '! ', '--', '!!', '-!', '!-'):
            check('R2 operand forms', f'{u}x {a} y')
            check('R2 operand forms', f'x {a} {u}y')
            check('R2 operand forms', f'x{a}{u}y')
            check('R2 operand forms', f'{u}1{a}{u}2')
        for s in ('{0}{1}{2}', '{0} {1}{2}', '{0}{1} {2}', ' {0}  {1}  {2} ', '\t{0}\t{1}\t{2}\t', '{0}\n{1}\n{2}', '({0}){1}({2})', '{0}{1}(-{2})'):
            for x, y in (('x', 'y'), ('1', '2'), ('1', '-2'), ('1', '+2'), ('1.', '2.'), ("'a'", "'b'"), ('[a]', '[b]'), ('f()', 'g()'), ('x', '!y')):
                check('R2 operand forms', s.format(x, a, y))
    # every two-operator chain without white space
    for a, b in itertools.product(OPS, repeat=2):
        check('R2 operand forms', f'a{a}b{b}c')
        check('R2 operand forms', f'1{a}2{b}3')

    # R3 literals and names
    for text in ('0', '1', '01', '10', '1.0', '1.', '0.5', '123.456', '1e+5', '1e-5', '1.5e+10', '1.5e-10', '1e5', '1E+5', '1e+', '1e', '.5', '1..2', '1.2.3', '+1', '+ 1',
                 '+1.5', '++1', '+a', '+(1)', '-1', '- 1', '--1', '1a', '1 a', 'a1', '_', '_a', 'a_b', 'a.b', 'a-b', 'a b', 'a,b', 'a;b', '$a', 'a$', '@', '#', '`a`', '{}', '{a}', '[]',
                 '[a]', '[a b]', '[ a]', '[a\\]b]', '[a\\\\b]', '[a', 'a]', '[a[b]', '[a]b', '[a] b', '[a](b)', '[a]+[b]',
                 "''", '""', "'a'", '"a"', "'a", "a'", '"a', "'a\"", '"a\'', "'a''b'", "'a' 'b'", "'a'b", "'a\\'b'", "'a\\\\'", "'a\\nb'", "'\\\\'", "'\\''", '"a\\"b"', '"\\\\"', "'\"'", '"\'"', "'a\\\\' + 'b'",
                 "'a\\'' + 'b'", "'a)' + (b)", "'(' + b", "f('a,b', 'c)')", "'a + b' + c", "'é' + 'ü'",
                 'true', 'false', 'null', '!true', 'truex', 'nulls', 'if(a, b, c)', 'if (a)', 'iff(a)'):
        check('R3 literals and names', text)
        check('R3 literals and names', f'({text})')
        check('R3 literals and names', f'f({text})')
        check('R3 literals and names', f'{text} + 1')
        check('R3 literals and names', f'1 + {text}')
        check('R3 literals and names', f'-{text}')
        check('R3 literals and names', f'f(1, {text}, 2)')

    # R4 calls
    args = ['a', '1', '-a', 'a + b', "'s'", 'g()', 'g(a, b)', '(a)', 'a || b && c']
    for fn in ('f', 'f1', '_f', 'fn', 'f ', 'fn  '):
        for n in range(0, 4):
            for t in itertools.product(args, repeat=n) if n < 3 else itertools.product(args[:4], repeat=n):
                for sep in ((', ', ',', ' , ') if n > 1 else (', ',)):
                    check('R4 calls', f'{fn}({sep.join(t)})')
    for t in ('f(', 'f)', 'f((', 'f())', 'f(,)', 'f(a,)', 'f(,a)', 'f(a,,b)', 'f(a b)', 'f(a;b)', 'f()()', 'f()(a)', 'f() g()', 'f()a', '(f)(a)', '(f)()', 'f(a)(b)', 'f[a]', 'f(a', 'f(a,', 'f(a + )', 'f(+ a)',
              'f(a)) + b', '(f(a)', 'f(a +)', '1(a)', "'f'(a)", 'f(-)', 'f(!)', 'f(!!a)', 'f (a) (b)', 'f( )', 'f(  a  )'):
        for w in ('{}', '{} + x', 'x + {}', '-{}', '({})', 'g({})'):
            check('R4 calls', w.format(t))

    # R6 every character before, after and between well-formed texts
    chars = [chr(c) for c in range(32, 127)] + ['\t', '\n', '\r', '\x0b', '\x0c', '\x00', '\x07', '\x7f', '\xa0', '\u2028', '\ufeff', '\u200b', '\xe9', '\u03c0', '\xd7', '\u2212']
    for t in ('a', '1', '1.5', "'s'", '[x y]', 'f(a)', 'f()', '(a)', '-a', 'a + b', '!f(a, b)', "'a' + b * (c)"):
        for c in chars:
            for form in ('{t}{c}', '{t} {c}', '{t} {c} ', '{c}{t}', '{c} {t}', '{t}{c}b', '{t} {c} b', '{t} {c}b'):
                check('R6 characters', form.format(t=t, c=c))
            check('R6 characters', f'f({t}{c})')
            check('R6 characters', f'f({t} {c}, b)')
            check('R6 characters', f'({t} {c}) + b')
            check('R6 characters', f'f(b {c} {t})')
        for c in ('# x', '#x', '// x', '/* x */', '; x', ';', '\\', '\\ ', ' \\\n', '\n# x', '\n# x\n', '# x\n', '<!-- x', '-- x', "'", '"', '#', '=', '==', '= b', ':', ': b', '? b : c', '=> b',
                  'and b', 'or b', 'not b', 'in b', 'is b', 'if b else c', '++', '--', '**', '***', '* * b', '& & b', '| | b', '= = b', '! = b', '< = b', '> = b', '<> b', '=== b', '!== b',
                  '<< b', '>> b', '>>> b', '// b', '%% b', '^ b', '~ b', '& b', '| b', '?? b', '?. b', '. b', '.b', '[0]', '[b]', '{b}', '@b', '$b', '+= b', '-= b', 'e5', 'e+5', '.5', '..5', '0', ' 0', '_', ' _'):
            check('R6 characters', f'{t}{c}')
            check('R6 characters', f'{t} {c}')
            check('R6 characters', f'({t} {c})')
            check('R6 characters', f'f({t} {c})')
            check('R6 characters', f'{c} {t}')

    # R5 token-class strings: accepted exactly when well-formed
    toks = ['a', '1', "'s'", '(', ')', ',', '+', '**', '<', '!', '-', 'f(']
    short = ['a', '1', '(', ')', ',', '+', '-', 'f(']
    tiny = ['a', '(', ')', '+', '-', 'f(', ',']
    plans = [(toks, n) for n in range(0, 4)] + [(short, 4)] + ([(tiny, 5), (toks, 4), (tiny[:6], 6)] if ck.thorough else [])
    for alphabet, n in plans:
        for t in itertools.product(alphabet, repeat=n):
            check('R5 token strings', ' '.join(t))
            if n <= 3:
                check('R5 token strings', ''.join(t))
            if ck.over():
                break
    # single corruptions of well-formed texts
    base = ['a + b * c', '(a + b) * c', 'f(a, b) + -c', "x == 's' && !y", 'f(g(a), (b - 1) / 2)', 'a ** b ** c']
    for t in base:
        for i in range(len(t) + 1):
            for ins in ('', ')', '(', ',', '+', ' ', 'x ', '= ', '!', '&', '|', '.', '5'):
                check('R5 token strings', t[:i] + ins + t[i + (1 if not ins else 0):])
            for rep in (' ', ')', '(', ',', '*', '=', 'x'):
                check('R5 token strings', t[:i] + rep + t[i + 1:])
    return ck.finish()
