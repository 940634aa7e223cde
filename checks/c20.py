"""C20 diffLines from the shipped include library reconstructs both inputs"""

import importlib.resources
import itertools
import random
import re

from absint.facts import ANY, EQ, GT, LT
from absint.values import HostFn, HostObj, PyExc, Sym, show, sym

from . import c18
from .common import SRC, Check
from .refrun import outcome

TECHNIQUE = ('abstract interpretation of execute_script with the CLI include fetcher on diff.bare over arrays and texts of opaque lines (an equality domain: every pattern of equal lines is a path), '
             'and of parse_script, validate_script and lint_script on every shipped include script')
NOTE = ('Line arrays up to 6 x 6 (thorough 8 x 8) hold opaque lines, so every alphabet is covered; unequal lines are given one consistent order on the larger sizes and every order up to 2 x 3. Texts of opaque lines with LF, CRLF and mixed '
        'endings, with and without a final line break, reach 3 x 3 lines; constant pairs over unusual lines reach 40 lines. Every *.bare file of the package is parsed, validated and linted; lines are split at LF or CRLF.')

INCLUDE = SRC / 'bare_script' / 'include'
MAIN = 'include <diff.bare>\nreturn diffLines(l, r)'


def split_lines(text):
    return re.split('\r?\n', text)


def lines_of(v):
    """The lines of a constant input"""
    if isinstance(v, list):
        return [x for p in v for x in split_lines(p)]
    return split_lines(v)


def run(prop, tier):
    ck = Check(prop, tier, 'reconstruction of both inputs and no Add/Remove for identical inputs, per equality pattern of opaque lines; every shipped include parses, validates and is lint-clean')
    es = ck.fn('runtime', 'execute_script')
    ps = ck.fn('parser', 'parse_script')
    vs = ck.fn('model', 'validate_script')
    ls = ck.fn('model', 'lint_script')
    bare = ck.mod('bare').env
    fetch = bare.get('_fetch_include')
    prefix = bare.get('_FETCH_INCLUDE_PREFIX')
    files = {str(f.relative_to(INCLUDE)): f.read_bytes() for f in sorted(INCLUDE.rglob('*.bare'))} if INCLUDE.is_dir() else {}
    wdiff = f'{ck.rel(INCLUDE / "diff.bare")} diffLines'

    # -- the package data
    def resource(path):
        def data(mode):
            key = path.lstrip('/')
            if key not in files:
                raise PyExc(FileNotFoundError(2, 'No such file', path))
            return files[key] if 'b' in mode else files[key].decode('utf-8')

        def op(i, a, k):
            d = data(a[0] if a else k.get('mode', 'r'))
            o = HostObj('file', read=HostFn('read', lambda i, a, k: d), close=HostFn('close', lambda i, a, k: None))
            o.attrs['__enter__'] = HostFn('enter', lambda i, a, k: o)
            o.attrs['__exit__'] = HostFn('exit', lambda i, a, k: None)
            return o
        join = lambda i, a, k: resource('/'.join(([path] if path else []) + [str(x) for x in a]))  # noqa: E731
        return HostObj('resource', joinpath=HostFn('joinpath', join), __truediv__=HostFn('truediv', join), open=HostFn('open', op),
                       read_text=HostFn('read_text', lambda i, a, k: data('r')), read_bytes=HostFn('read_bytes', lambda i, a, k: data('rb')))

    def fetched(i, a, k):
        i.host_natives = {importlib.resources.files: HostFn('files', lambda i, a, k: resource(''))}
        try:
            return i.call(fetch, list(a), dict(k))
        finally:
            i.host_natives = {}
    if fetch is not None and isinstance(prefix, str):
        fetcher, pre = HostFn('fetch', fetched), prefix
    else:
        # another loader: the package data as it is (the command line as a whole is decided by C17)
        pre = ':bare-include:/'

        def plain(i, a, k):
            u = a[0]['url']
            return files[u[len(pre):]].decode('utf-8') if u.startswith(pre) and u[len(pre):] in files else None
        fetcher = HostFn('fetch', plain)

    # -- parsing is a function of the text (C10): one abstract run per text and worker
    memo = {}
    key = ('bare_script.parser', 'parse_script')

    def parse(i, a, k):
        t = a[0]
        if len(a) > 1 or k or not isinstance(t, str):
            del i.overrides[key]
            try:
                return i.call(ps, a, k)
            finally:
                i.overrides[key] = PARSE
        if t not in memo:
            del i.overrides[key]
            try:
                memo[t] = i.call(ps, [t], {})
            finally:
                i.overrides[key] = PARSE
        return memo[t]
    PARSE = HostFn('parse_script', parse)

    def order_fixed(it, lines):
        """Unequal lines are ordered by name where their order is free"""
        rank = {s: n for n, s in enumerate(sorted(lines, key=str))}
        plain = type(it).compare.__get__(it)

        def compare(op, a, b):
            if op in ('<', '>', '<=', '>=') and isinstance(a, Sym) and isinstance(b, Sym) and a in rank and b in rank and a is not b:
                if it.facts.rel_get(a, b) == ANY:
                    it.truth(it.eq(a, b))
                r = it.facts.rel_get(a, b)
                if r == LT | GT:
                    it.facts.rel_set(a, b, LT if rank[a] < rank[b] else GT)
            return plain(op, a, b)
        it.compare = compare

    def diff(it, left, right, lines=(), fix=False, text=MAIN, extra=None):
        it.lines = frozenset(lines)
        it.overrides[key] = PARSE
        if fix:
            order_fixed(it, lines)
        it.freeze(left, 'the left input'), it.freeze(right, 'the right input')
        try:
            return outcome(it, es, it.call(ps, [text], {}), {'globals': {'l': left, 'r': right, **(extra or {})}, 'fetchFn': fetcher, 'systemPrefix': pre, 'maxStatements': 0})
        finally:
            it.overrides.pop(key, None)
            it.__dict__.pop('compare', None)

    def could_be_identical(it, left, right):
        """The facts of the path allow all lines to be equal"""
        if len(left) != len(right):
            return False
        f = it.facts
        try:
            for a, b in zip(left, right):
                if isinstance(a, str) and isinstance(b, str):
                    if a != b:
                        return False
                elif a is not b and not f.rel_get(a, b) & EQ:
                    return False
        except Exception:  # no order facts for such values
            return False
        saved = {k: dict(v) for k, v in f.rel.items()}
        try:
            for a, b in zip(left, right):
                if a is not b and not (isinstance(a, str) and isinstance(b, str)):
                    f.rel_set(a, b, EQ)
            return True
        except Exception:  # contradictory
            return False
        finally:
            f.rel = saved

    def same_line(x, y):
        if x is y or isinstance(x, str) and isinstance(y, str):
            return x == y
        if not isinstance(x, (str, Sym)):
            return False
        k = ck.it.known('==', x, y)
        if k is None and all(isinstance(z, str) or not z.args for z in (x, y)):
            return False      # some texts of this path have different lines here
        return k

    def reconstructs(o, left, right):
        it = ck.it
        if o[0] != 'ok':
            return False, f'fails: {show(o)[:300]}'
        d = o[1]
        if not isinstance(d, list):
            return False, f'not an array: {show(d)[:200]}'
        sides = ([], [])
        changed = False
        for b in d:
            if not isinstance(b, dict) or set(b) != {'type', 'lines'} or b['type'] not in ('Identical', 'Add', 'Remove') or not isinstance(b['lines'], list):
                return False, f'not a difference: {show(b)[:200]}'
            if not b['lines']:
                return False, f'a {b["type"]} block without lines: {show(d)[:400]}'
            changed = changed or b['type'] != 'Identical'
            if b['type'] != 'Add':
                sides[0].extend(b['lines'])
            if b['type'] != 'Remove':
                sides[1].extend(b['lines'])
        res = True
        for name, got, want in (('left', sides[0], left), ('right', sides[1], right)):
            if len(got) != len(want):
                return False, f'{len(got)} lines for the {len(want)} {name} lines {show(want)[:200]}: {show(d)[:500]}'
            for x, y in zip(got, want):
                r = same_line(x, y)
                if r is False:
                    return False, f'{name} line {show(y)} is given as {show(x)}: {show(d)[:500]}'
                if r is None:
                    res = None
        if changed and could_be_identical(it, left, right):
            return False, f'identical inputs give {show(d)[:400]}'
        return res

    def changes(p):
        return [e for e in p.effects if e[0] == 'mutate']

    def cell(rule, name, make, fix=True, max_paths=20000, text=MAIN, pick=None):
        """make() -> left, right, left lines, right lines, opaque lines"""
        def thunk(it):
            left, right, ll, rl, opaque = make()
            return diff(it, left, right, opaque, fix, text), ll, rl

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {show(p.value)}'
            o, ll, rl = p.value
            o = pick(o) if pick else o
            if changes(p):
                return False, f'changes its input: {show(changes(p)[0])[:200]}'
            return reconstructs(o, ll, rl)
        ck.it.cell_time = 400.0 if ck.thorough else 120.0
        ck.cell(rule, name, wdiff, thunk, judge, max_paths)

    def L(n, s='l'):
        return [sym(f'{s}{i:02d}', 'str') for i in range(n)]

    def statements(m):
        for s in m['statements']:
            yield s
            if 'function' in s:
                yield from statements(s['function'])
    # R1 the shipped scripts
    wincl = ck.rel(INCLUDE)
    for name in files:
        def thunk(it, name=name):
            text = it.call(fetcher, [{'url': pre + name}], {})
            o = outcome(it, ps, text)
            if o[0] != 'ok':
                return 'parse', o
            v = outcome(it, vs, o[1])
            w = it.call(ls, [o[1]], {})
            return 'done', v, w, o[1], text

        def judge(p, name=name):
            if p.kind != 'return':
                return False, f'{name}: raises {show(p.value)[:300]}'
            v = p.value
            if v[0] == 'parse':
                return False, f'{name} is not parsed: {show(v[1])[:400]}'
            if v[1][0] != 'ok':
                return False, f'{name} is not valid: {show(v[1])[:400]}'
            if v[2] != []:
                return False, f'{name} is not lint-clean: {show(v[2])[:400]}'
            if v[4] != files[name].decode('utf-8'):
                return False, f'the fetched text of {name} differs from the file'
            m = v[3]
            r = c18.exact_problem(m, v[2])
            if r:
                return False, f'{name}: {r}'
            if not m['statements']:
                return False, f'{name}: no statements'
            missing = [i['url'] for s in statements(m) if 'include' in s for i in s['include']['includes'] if i.get('system') and i['url'] not in files]
            if missing:
                return False, f'{name} includes <{missing[0]}>, which is not shipped'
            return True
        ck.cell('R1 shipped scripts', name, f'{wincl}/{name}', thunk, judge, 16)

    if 'diff.bare' not in files and ck.mine():
        ck.bad('R1 shipped scripts', 'diff.bare', wincl, 'include <diff.bare> is not shipped')

    # R5 constants
    odd = ['', ' ', 'a', 'A', ' a', 'a ', '1', '1.0', '01', 'null', 'é', 'e\u0301', '\u2028', 'a\u2028b', 'a\x0bb', 'a\x0cb', '\x85', 'a\rb', '\r', '\t', '---', '+++', '"', '\\n', '0', 'false', 'Identical', '\U0001f600', 'a' * 300]

    def const(rule, name, left, right, **kw):
        cell(rule, name, lambda: (left if isinstance(left, str) else list(left), right if isinstance(right, str) else list(right), lines_of(left), lines_of(right), []), fix=False, max_paths=8, **kw)
    for i, x in enumerate(odd):
        const('R5 unusual lines', f'{x!r} kept'[:80], [x, 'z'], ['y', x])
        for y in odd[i + 1:] if ck.thorough else odd[i + 1:i + 4]:
            const('R5 unusual lines', f'{x!r} to {y!r}'[:120], [x, y, x], [y, x])
        const('R5 unusual lines', f'text {x!r}'[:80], f'{x}\nb\n{x}', f'b\r\n{x}\r\n')
        const('R5 unusual lines', f'text {x!r} against itself'[:80], f'{x}\nb\n{x}', f'{x}\nb\n{x}')
    for n, left, right in [('empty arrays', [], []), ('empty texts', '', ''), ('empty array and text', [], ''), ('text and empty array', '', []), ('breaks', '\n\n\n', '\n'), ('CRLF breaks', '\r\n\r\n', '\n'), ('CR CR LF', 'a\r\r\nb', 'a\r\nb'),
                           ('LF CR', 'a\n\rb', 'a\nb'), ('one line', 'a', 'a'), ('array of texts', ['a\nb', 'c\r\nd\n'], ['a', 'b', 'c', 'd', '']), ('CR', 'a\rb', 'a\nb')]:
        const('R5 unusual lines', n, left, right)
    # array elements that hold several lines, on either side, in every grouping
    def groups(ls, cuts, sep):
        out = [[]]
        for i, x in enumerate(ls):
            out[-1].append(x)
            if i in cuts:
                out.append([])
        return [sep.join(g) for g in out]
    for ls, rs in ((['a', 'b', 'c'], ['a', 'b', 'c']), (['a', 'b', 'c'], ['b', 'c', 'a']), (['a', '', 'b'], ['', 'a', 'b']), (['a', 'b'], ['c', 'd', 'b'])):
        for cl in ((), (0,), (1,), (0, 1)):
            for cr in ((), (0,), (1,), (0, 1)):
                for sep, sep2 in (('\n', '\n'), ('\r\n', '\n'), ('\n', '\r\n')) if cl == cr or ck.thorough else (('\n', '\r\n'),):
                    left, right = groups(ls, [c for c in cl if c < len(ls) - 1], sep), groups(rs, [c for c in cr if c < len(rs) - 1], sep2)
                    const('R5 unusual lines', f'arrays {left} and {right}', left, right)
        for f, g in itertools.product((list, '\n'.join, '\r\n'.join, lambda x: ['\n'.join(x)], lambda x: ['\r\n'.join(x)]), repeat=2):
            const('R5 unusual lines', f'{f(ls)!r} and {g(rs)!r}', f(ls), g(rs))
    r = random.Random(20)
    for i in range(600 if ck.thorough else 60):
        alpha = r.choice([['a', 'b', 'c'], ['a', 'b'], [str(x) for x in range(10)], [str(x) for x in range(60)], odd[:20]])
        k = r.choice([6, 12, 25, 40])
        left = [r.choice(alpha) for _ in range(r.randint(0, k))]
        if r.random() < 0.6:
            right = list(left)
            for _ in range(r.randint(0, 6)):
                x = r.random()
                at = r.randint(0, len(right))
                if x < 0.4 and right:
                    del right[at - 1:at]
                elif x < 0.7:
                    right.insert(at, r.choice(alpha))
                elif right:
                    b = r.randint(0, len(right))
                    right[at:at] = right[min(at, b):max(at, b)][:5]
            right = right[:40]
        else:
            right = [r.choice(alpha) for _ in range(r.randint(0, k))]
        f = r.choice([lambda x: x, '\n'.join, '\r\n'.join])
        g = r.choice([lambda x: x, '\n'.join, '\r\n'.join])
        const('R6 random pairs', f'{i}: {len(left)} x {len(right)} lines', f(left), g(right))
    for i in range(2000 if ck.thorough else 150):
        left, right = ([r.choice('abc') for _ in range(r.randint(3, 6))] for _ in range(2))
        const('R6 random pairs', f'three letters {i}', left, right)

    # R7 more than one call and include
    for n, text in [('two includes', 'include <diff.bare>\n' + MAIN), ('after another call', 'include <diff.bare>\ndiffLines(r, l)\nx = diffLines(l, l)\nreturn diffLines(l, r)'),
                    ('in a function', 'include <diff.bare>\nfunction f(a, b):\n  return diffLines(a, b)\nendfunction\nreturn f(l, r)'),
                    ('changed result', "include <diff.bare>\nfor d in diffLines(l, r):\n  arrayPush(objectGet(d, 'lines'), 'more')\nendfor\nreturn diffLines(l, r)"),
                    ('globals of the same names', 'include <diff.bare>\nix = 3\nleftLines = 1\nrightLines = 2\ndiffs = arrayNew(1)\nixLeft = 9\nidenticalLines = arrayNew(7)\nreturn diffLines(l, r)'),
                    ('through unittest.bare', 'include <unittest.bare>\nreturn diffLines(l, r)')]:
        for left, right in [(['a', 'b', 'c', 'x'], ['b', 'c', 'd']), (['a'], ['a']), ('a\nb', 'b\na'), ([], ['a'])]:
            const('R7 calls', f'{n}: {left} {right}', left, right, text=text)

    # R2 arrays of opaque lines
    big = 8 if ck.thorough else 6
    sizes = sorted(itertools.product(range(big + 1), repeat=2), key=lambda x: -sum(x) if sum(x) > 4 else -99)
    for n, m in sizes:
        # split by the first decision: which right line the first left line equals
        def make(n=n, m=m):
            a, b = L(n), L(m, 'r')
            return list(a), list(b), a, b, a + b
        if n + m < 9:
            cell('R2 opaque arrays', f'{n} x {m}', make)
            continue
        # large sizes in parts: the row of the first left line in the equality pattern
        for j in range(m + 1):
            def thunk(it, n=n, m=m, j=j):
                a, b = L(n), L(m, 'r')
                for k in range(j):
                    it.facts.rel_set(a[0], b[k], LT)
                if j < m:
                    it.facts.rel_set(a[0], b[j], EQ)
                return diff(it, list(a), list(b), a + b, True), a, b

            def judge(p):
                if p.kind != 'return':
                    return False, f'raises {show(p.value)}'
                return reconstructs(*p.value)
            ck.it.cell_time = 500.0 if ck.thorough else 150.0
            ck.cell('R2 opaque arrays', f'{n} x {m}, the first left line {"equals first right line " + str(j) if j < m else "is on no right line"}', wdiff, thunk, judge, 40000)
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3)):
        def make(n=n, m=m):
            a, b = L(n), L(m, 'r')
            return list(a), list(b), a, b, a + b
        cell('R2 opaque arrays', f'{n} x {m}, every order of unequal lines', make, fix=False)

    # lines that repeat on a side, and identical inputs
    for pat in itertools.chain(*(itertools.product('abc', repeat=n) for n in range(0, 7))):
        ids = {}
        if [ids.setdefault(c, len(ids)) for c in pat] != ['abc'.index(c) for c in pat]:
            continue

        def make(pat=pat):
            t = {c: sym('l' + c, 'str') for c in 'abc'}
            a = [t[c] for c in pat]
            return list(a), list(a), a, a, list(t.values())
        cell('R3 identical inputs', ''.join(pat) or 'empty', make)

    def distinct():
        a = L(30)
        return list(a), list(a), a, a, a
    cell('R3 identical inputs', '30 opaque lines', distinct)

    # R4 texts
    ends = ['\n', '\r\n']

    def joined(it_lines, seps, final):
        out = []
        for x, e in zip(it_lines, seps):
            out += [x, e]
        out = out[:-1] if not final and out else out
        return out
    for n, m in itertools.product(range(1, 4), repeat=2):
        if n + m > 5 and not ck.thorough:
            continue
        for le, re_ in itertools.product(('\n', '\r\n', 'mixed'), repeat=2):
            for lf, rf in itertools.product((False, True), repeat=2):
                if 'mixed' in (le, re_) and (lf or rf) and not ck.thorough:
                    continue

                def make(n=n, m=m, le=le, re_=re_, lf=lf, rf=rf):
                    a, b = L(n), L(m, 'r')
                    sa = [ends[i % 2] for i in range(n)] if le == 'mixed' else [le] * n
                    sb = [ends[(i + 1) % 2] for i in range(m)] if re_ == 'mixed' else [re_] * m
                    ck.it.lines = frozenset(a + b)
                    return (ck.it.concat(*joined(a, sa, lf)), ck.it.concat(*joined(b, sb, rf)), a + ([''] if lf else []), b + ([''] if rf else []), a + b)
                cell('R4 texts', f'{n} x {m} lines, {le!r} and {re_!r}, final line break {lf} and {rf}', make)
    for n in range(1, 4):
        def make(n=n):
            a = L(n)
            return ck.it.concat(*joined(a, ['\n'] * n, False)), ck.it.concat(*joined(a, ['\r\n'] * n, False)), a, a, a

        def make2(n=n):
            a = L(n)
            return list(a), ck.it.concat(*joined(a, ['\r\n'] * n, False)), a, a, a

        def make3(n=n):
            a, b = L(n), L(2, 'r')
            return ck.it.concat(*joined(a, ['\n'] * n, False)), [ck.it.concat(b[0], '\n', b[1]), b[0]], a, [*b, b[0]], a + b
        cell('R4 texts', f'{n} lines, LF against CRLF', make)
        cell('R4 texts', f'{n} lines, an array against CRLF text', make2)
        cell('R4 texts', f'{n} lines, text against an array with an element of two lines', make3)
    return ck.finish()
