"""C10 Source layout does not change the parsed program"""

import copy
import itertools
import re

from absint.values import AInst, PyExc, show

from . import programs as pr
from .common import Check

TECHNIQUE = 'abstract interpretation of the parser on a text and each layout rewriting of it; module-state and aliasing analysis across calls'
NOTE = ('Every statement and block form is abstractly parsed in every listed layout: line ends, all chunkings at line boundaries, blank and comment lines at every '
        'position, indentation, trailing blanks, and a continuation at every token boundary; the models must be identical. State between calls is excluded '
        'by comparing module state and by mutating a returned model before parsing again.')

TEXTS = {
    'assignments': "x = 1\ny = x + 2 * f(x, 'a b', [c d])\nz = -x ** !y",
    'strings': "x = 'a  b'\ny = \"c # d\"\nz = 'it\\'s \\\\ '\nw = '# no'\nv = ' lead'",
    'expressions': "f()\ng(1, 2)\nx\n(a + b) * c\n-x\n!f(g(x), h())\na && b || c",
    'numbers': 'x = 1.5\ny = 1e+10\nz = 1.5e-3\nw = 0\nv = 2 - 1\nu = 2 -1',
    'jumps': 'a:\njump a\njumpif (x > 1) a\njumpif (f(x, (y))) b\nb:',
    'returns': 'return\nreturn x\nreturn (x + 1)',
    'includes': "include 'a.bare'\ninclude <b.bare>\nx = 1\ninclude 'c d.bare'\ninclude ''",
    'functions': 'function f():\nendfunction\nfunction g(a):\nreturn a\nendfunction\nfunction h(a, b, c...):\nx = a\nendfunction\nasync function k(a...):\ng(a)\nendfunction',
    'if': "if a:\nx = 1\nelif b > 2:\nx = 2\nelif c:\nx = 3\nelse:\nx = 4\nendif\nif (a):\nendif",
    'while': 'while a < 1:\nif b:\nbreak\nendif\ncontinue\nendwhile\nwhile true:\nbreak\nendwhile',
    'for': 'for v in a:\nfor w, i in f(v):\nif w:\ncontinue\nendif\nendfor\nendfor',
    'function blocks': 'function f(a, b):\nfor v in a:\nif v:\nreturn v\nelse:\nbreak\nendif\nendfor\nwhile b:\nb = b - 1\nendwhile\nreturn b\nendfunction\nx = f(1, 2)',
    'words': 'iff = 1\nendif_ = 2\nreturn1 = 3\nfunctional()\nforx = breakx + continuex\nincludes = jumps\nelse1:\njump else1',
    'tight': 'x=1\ny=f(x,1)+2*(z-1)\nif a:\nx=2\nendif\nfunction f(a,b...):\nreturn a\nendfunction',
    'names': 'x = [a b] + [c]\n[d e]\ny = f([g h])',
    'unicode': "x = 'é ü'\ny = 'a\u2028b'\nz = '🙂'\nw = 'a\u00a0b'\nv = 'a\x0cb'",
}

TOKEN = re.compile(r"""'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*"|\[[^\]]*\]|<[^<>]*>(?=$)|\d+(?:\.\d*)?(?:e[+-]\d+)?|[A-Za-z_]\w*|\.\.\.|\*\*|<=|>=|==|!=|&&|\|\||[-+*/%<>=!(),:]""")


def tokens(line):
    """Token spans of a line, or None"""
    out, i = [], 0
    inc = line.strip().startswith('include <')
    while i < len(line):
        if line[i].isspace():
            i += 1
            continue
        m = TOKEN.match(line, i)
        if not m or (m.group(0)[0] == '<' and len(m.group(0)) > 2 and not inc):
            return None
        out.append((i, m.end()))
        i = m.end()
    return out


def rewrites(text, thorough):
    """(name, source text or list of chunks)"""
    lines = text.split('\n')
    n = len(lines)
    yield 'crlf', '\r\n'.join(lines)
    yield 'mixed line ends', ''.join(ln + ('\r\n', '\n')[i % 2] for i, ln in enumerate(lines))
    yield 'final newline', text + '\n'
    yield 'final crlf newlines', text + '\r\n\r\n'
    yield 'leading newlines', '\n\r\n' + text
    yield 'lines', list(lines)
    yield 'lines with newlines', [ln + '\n' for ln in lines]
    yield 'lines with crlf', [ln + '\r\n' for ln in lines]
    yield 'tuple of lines', tuple(lines)
    yield 'one chunk', [text]
    yield 'empty chunks', [''] + [x for ln in lines for x in (ln, '')]
    for k in range(1, n):
        yield f'two chunks at {k}', ['\n'.join(lines[:k]), '\n'.join(lines[k:])]
        yield f'two crlf chunks at {k}', ['\r\n'.join(lines[:k]) + '\r\n', '\r\n'.join(lines[k:])]
        if k + 1 < n:
            yield f'three chunks at {k}', ['\n'.join(lines[:k]), lines[k], '\n'.join(lines[k + 1:])]
    for k in range(n + 1):
        for what, ins in (('blank', ''), ('spaces', '   '), ('tab', '\t'), ('comment', '# comment'), ('indented comment', '    # x = 1'), ('comment with backslash', '# c \\'),
                          ('comment keyword', '# endif'), ('bare comment', '#'), ('form feed', '\x0c')):
            yield f'{what} line at {k}', '\n'.join(lines[:k] + [ins] + lines[k:])
    for nm, f in (('indent 1', lambda s: ' ' + s), ('indent 4', lambda s: '    ' + s), ('tab', lambda s: '\t' + s), ('trailing space', lambda s: s + ' '), ('trailing tab', lambda s: s + '\t'),
                  ('both', lambda s: ' \t ' + s + '  \t'), ('deep', lambda s: ' ' * 40 + s)):
        yield f'{nm} everywhere', '\n'.join(f(x) for x in lines)
        yield f'{nm} everywhere crlf', '\r\n'.join(f(x) for x in lines)
        for k in range(n):
            yield f'{nm} on {k}', '\n'.join(lines[:k] + [f(lines[k])] + lines[k + 1:])
    yield 'growing indent', '\n'.join(' ' * i + x for i, x in enumerate(lines))
    # continuations
    for k in range(n):
        ts = tokens(lines[k])
        if not ts:
            continue
        ln = lines[k]
        cuts = [b for (_, b), (c, _) in zip(ts, ts[1:])]
        for ci, cut in enumerate(cuts):
            a, b = ln[:cut], ln[cut:]
            for nm, j in (('plain', a + ' \\\n' + b), ('tight', a + '\\\n' + b.lstrip()), ('indented', a + '\\  \n        ' + b.lstrip()), ('comment inside', a + ' \\\n# c\n' + b),
                          ('blank inside', a + ' \\\n\n  \n' + b), ('crlf', a + ' \\\r\n' + b), ('empty part', a + ' \\\n\\\n' + b), ('tab', a + '\t\\\t\n\t' + b.lstrip())):
                if not thorough and nm not in ('plain', 'tight') and ci % 2:
                    continue
                yield f'continuation {nm} on {k} at {cut}', '\n'.join(lines[:k] + [j] + lines[k + 1:])
            yield f'continuation as chunks on {k} at {cut}', lines[:k] + [a + ' \\', b] + lines[k + 1:]
        if cuts:
            parts = [ln[i:j].strip() for i, j in zip([0] + cuts, cuts + [len(ln)])]
            yield f'continuation everywhere on {k}', '\n'.join(lines[:k] + [' \\\n  '.join(parts)] + lines[k + 1:])
            yield f'continuation before the first token on {k}', '\n'.join(lines[:k] + [' \\\n' + ln] + lines[k + 1:])
    # blanks between tokens (a space is allowed wherever two tokens meet)
    for nm, sep in (('one space', ' '), ('spaces', '   '), ('tab', '\t')):
        out = []
        for ln in lines:
            ts = tokens(ln)
            out.append(sep.join(ln[a:b] for a, b in ts) if ts else ln)
        yield f'{nm} between tokens', '\n'.join(out)


BROKEN = ['x = 1\ny = (', 'if a:', 'while a:\nfor b in c:', 'function f():\nx = 1', 'x = 1 \\', 'endif', 'break', 'function f(a...):\nif x:\nendfunction', '@', "x = 'abc"]


def run(prop, tier):
    ck = Check(prop, tier, 'program texts x layout rewritings; the model of every rewriting must be identical to the model of the text')
    ps = ck.fn('parser', 'parse_script')
    pe = ck.fn('parser', 'parse_expression')
    where = ck.where(ps)
    base = {}

    def out(it, f, *args):
        try:
            return ('ok', it.call(f, list(args), {}))
        except PyExc as e:
            x = e.inst
            a = getattr(x, 'attrs', None)
            if isinstance(x, AInst):
                return ('error', x.clsname(), a.get('error'))
            return ('raise', type(x).__name__)

    def rewriting(rule, nm, text, rw, src):
        def thunk(it):
            if text not in base:
                base[text] = copy.deepcopy(out(it, ps, text))
            s = iter(src) if rw.endswith('iterator') else src
            keep = copy.copy(src)
            r = out(it, ps, s)
            return r, keep == src, len(it.state_changes())

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            r, kept, ch = p.value
            w = base[text]
            if w[0] != 'ok':
                return None, f'the text is rejected: {w}'
            if r != w:
                return False, f'{show(r)[:500]} instead of {show(w)[:500]} for\n{src if isinstance(src, str) else list(src)}'
            if not kept:
                return False, 'the sequence of chunks is modified'
            if ch:
                return False, f'{ch} module-level containers differ after the call'
            return True
        ck.cell(rule, f'{nm}: {rw}', where, thunk, judge)

    # R1 every rewriting of every text
    for nm, text in TEXTS.items():
        for rw, src in rewrites(text, ck.thorough):
            rewriting('R1 layouts', nm, text, rw, src)
        lines = text.split('\n')
        rewriting('R1 layouts', nm, text, 'line iterator', lines)
        if len(lines) <= (9 if ck.thorough else 6):
            # all chunkings
            for bits in itertools.product((0, 1), repeat=len(lines) - 1):
                chunks, cur = [], [lines[0]]
                for b, ln in zip(bits, lines[1:]):
                    if b:
                        chunks.append('\n'.join(cur))
                        cur = []
                    cur.append(ln)
                chunks.append('\n'.join(cur))
                rewriting('R1 layouts', nm, text, f'chunks {bits}', chunks)

    # R2 the control-flow skeletons in the main layouts
    for i, (nm, block) in enumerate(list(pr.depth1()) + list(pr.depth2())):
        if not ck.thorough and i % 4:
            continue
        text = '\n'.join(x.strip() for x in pr.text(block))
        ind = '\n'.join(pr.text(block))
        rewriting('R2 skeleton layouts', nm, text, 'indented', ind)
        rewriting('R2 skeleton layouts', nm, text, 'comments', '\n'.join(f'# c\n{x}\n\n' for x in text.split('\n')))
        rewriting('R2 skeleton layouts', nm, text, 'crlf lines', [x + '\r\n' for x in ind.split('\n')])
        rewriting('R2 skeleton layouts', nm, text, 'continued', text.replace('(', '( \\\n ').replace(', ', ', \\\n# c\n').replace(' in ', ' \\\n in \\\n'))

    # R3 no state between calls: whatever is parsed before, and whatever is done with the returned models
    def spoil(v):
        if isinstance(v, dict):
            for x in list(v.values()):
                spoil(x)
            v['__spoiled__'] = True
        elif isinstance(v, list):
            for x in v:
                spoil(x)
            v.append('__spoiled__')

    texts = list(TEXTS.items())
    for (n1, t1), (n2, t2) in itertools.product(texts, texts + [(repr(b), b) for b in BROKEN]):
        def thunk(it, t1=t1, t2=t2):
            a = out(it, ps, t1)
            ref = copy.deepcopy(a)
            spoil(a[1])
            b = out(it, ps, t2)
            refb = copy.deepcopy(b)
            if b[0] == 'ok':
                spoil(b[1])
            it.set_flip = True
            again = out(it, ps, t1)
            again2 = out(it, ps, t2)
            it.set_flip = False
            return ref, again, refb, again2, len(it.state_changes())

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            ref, again, refb, again2, ch = p.value
            if ref != again:
                return False, f'parsing again gives {show(again)[:400]} instead of {show(ref)[:400]}'
            if refb != again2:
                return False, f'parsing again gives {show(again2)[:400]} instead of {show(refb)[:400]}'
            return ch == 0, f'{ch} module-level containers differ after the calls'
        ck.cell('R3 no state between calls', f'{n1}; {n2}', where, thunk, judge)
    # a default argument or cached object shared by two models
    for n1, t1 in texts:
        def thunk(it, t1=t1):
            a, b = out(it, ps, t1), out(it, ps, t1)
            ids = set()

            def walk(v, f):
                if isinstance(v, (dict, list)):
                    f(id(v))
                    for x in v.values() if isinstance(v, dict) else v:
                        walk(x, f)
            walk(a[1], ids.add)
            shared = []
            walk(b[1], lambda i: shared.append(i) if i in ids else None)
            return len(shared)
        ck.cell('R3 no state between calls', f'fresh models {n1}', where, thunk, lambda p: (p.kind == 'return' and p.value == 0, f'{p.value} containers shared by two models'))
    exprs = ['x', '1', "'a'", 'f(x, 1)', 'a + b * c', '(a)', '-x', '[a b]', "f(g('x'), -1) && !y"]
    for e1, e2 in itertools.product(exprs, exprs + ['(', 'a b', '@']):
        def thunk(it, e1=e1, e2=e2):
            a = out(it, pe, e1)
            ref = copy.deepcopy(a)
            spoil(a[1])
            out(it, pe, e2)
            return ref, out(it, pe, e1), len(it.state_changes())
        ck.cell('R3 no state between calls', f'expression {e1}; {e2}', ck.where(pe), thunk,
                lambda p: (p.kind == 'return' and p.value[0] == p.value[1] and p.value[2] == 0, f'{show(p.value)[:500]}'))
    # blanks around and inside expressions
    for e in ("f(x,1)+2*(z-1)", 'a&&b||!c', '-x**y', "'a b'+[c d]", '1.5e+3-1', 'a<=b==c!=d>=e', 'f()', '((a))'):
        ts = tokens(e)
        for nm, s in (('spaces', ' '.join(e[a:b] for a, b in ts)), ('leading', '  ' + e), ('trailing', e + '  \t'), ('tabs', '\t'.join(e[a:b] for a, b in ts)), ('newlines', '\n'.join(e[a:b] for a, b in ts))):
            ck.cell('R4 expression blanks', f'{e} {nm}', ck.where(pe), lambda it, e=e, s=s: (out(it, pe, e), out(it, pe, s)),
                    lambda p: (p.kind == 'return' and p.value[0] == p.value[1] and p.value[0][0] == 'ok', f'{show(p.value)[:500]}'))
    return ck.finish()
