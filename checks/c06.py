"""C06 The parser is total and its diagnostics point at the offending source"""

import itertools
import json

from absint.values import AInst, PyExc, show

from . import layout
from .c01 import MISPLACED
from .common import Check

TECHNIQUE = 'abstract interpretation of the parser over enumerated texts against a hand-written logical-line and block reading; position arithmetic of the error class'
NOTE = ('All texts of up to four characters over a 14 (thorough 16) character alphabet, all sequences of up to three (thorough four) block lines, every statement '
        'kind with every malformed expression in every layout, and every column of lines around the elision limits are abstractly parsed; outcome, line number, '
        'line text, column and caret are compared with an independent reading. Expressions nested 1,500 deep must be rejected with a parser error (or accepted), in every statement form.')

BAD = ['x +', '(x', 'f(x', 'f(x y)', 'x y', "'abc", '"abc', '1 2', '@', 'a @ b', 'f(,)', '!', '-', 'x + * y', '[x', 'f(a, b', '((x)', 'x)', '1.2.3', 'a ** ', 'f(@)',
       'x && ', 'f(g(h(@)))', 'f(a)(b)', 'a b c', '(', ')', '()', 'f(a,)', "'a' 'b'", 'x ++', 'x !', '[]', 'x[1]', 'a; b', 'a.b', 'x ? y', 'f(a, (b)', 'n n', 'f f', 'e e', 'r r', 'i i', 't (', 'l l', 'v v', 'x x', 'z @', 'if if', 'a ) a', 'w w', 'é +', "f('a', 'b' 'c')"]

CONTEXTS = [
    ('assignment', ['x = {e}'], 0), ('expression', ['{e}'], 0), ('return', ['return {e}'], 0), ('jumpif', ['jumpif ({e}) lab'], 0),
    ('if', ['if {e}:', 'endif'], 0), ('elif', ['if a:', 'x()', 'elif {e}:', 'endif'], 2), ('while', ['while {e}:', 'endwhile'], 0),
    ('for', ['for v in {e}:', 'endfor'], 0), ('for index', ['for v , i in {e}:', 'endfor'], 0), ('in function', ['function f(a):', 'y = 1', 'x = {e}', 'endfunction'], 2),
    ('return in function', ['function f():', 'return {e}', 'endfunction'], 1), ('in while', ['while a:', '{e}', 'endwhile'], 1), ('while in if', ['if a:', 'while {e}:', 'endwhile', 'endif'], 1),
    ('last line', ['x = 1', 'y()', 'z = {e}'], 2), ('wide assignment', ['x   =   {e}'], 0), ('wide return', ['return    {e}'], 0), ('wide if', ['if    {e}  :  ', 'endif'], 0),
    ('wide jumpif', ['jumpif   ({e})   lab'], 0), ('wide while', ['while   {e}   :', 'endwhile'], 0), ('wide for', ['for   v   in   {e}   :', 'endfor'], 0),
]

PREFIXES = [[], ['# comment'], [''], ['   '], ['x = 1'], ['f()'], ['# a', '', 'x = 1', '# b'], ['x = 1 + \\', '    2'], ['function g():', 'endfunction'], ['lab:'], ["include 'a'"],
            ['if a:', 'endif'], ['# c'] * 11]


def run(prop, tier):
    ck = Check(prop, tier, 'script texts x layouts; for each the outcome class, statements, and the line number, line text, column and caret of the error are compared with '
               'an independent reading of the text')
    ps = ck.fn('parser', 'parse_script')
    pe = ck.fn('parser', 'parse_expression')
    err = ck.fn('parser', 'BareScriptParserError')
    where = ck.where(ps)

    def outcome(it, f, *args):
        try:
            return ('ok', it.call(f, list(args), {}))
        except PyExc as e:
            x = e.inst
            if isinstance(x, AInst) and x.clsname() == 'BareScriptParserError':
                a = x.attrs
                return ('error', a.get('error'), a.get('line'), a.get('column_number'), a.get('line_number'), (a.get('args') or ('',))[0])
            return ('raise', x)

    def caret(o, line):
        """The caret line of the message agrees with the column"""
        _, error, ln, col, num, msg = o
        if not isinstance(col, int) or not 1 <= col <= len(line) + 1:
            return f'column {col!r} outside 1..{len(line) + 1}'
        if '\n' in line or '\r' in line:
            return None
        parts = msg.split('\n')
        if len(parts) < 4 or parts[-1] != '' or not parts[-2].endswith('^') or parts[-2].strip() != '^':
            return f'message is {msg!r}'
        shown, p = parts[-3], len(parts[-2])
        core = shown
        if len(line) <= 100 and shown != line:
            return f'the message shows {shown!r}'
        ch = line[col - 1:col] or ''
        at = core[p - 1:p]
        if ch:
            if at != ch:
                return f'caret under {at!r}, column {col} is {ch!r}: {msg!r}'
        elif p != len(core) + 1 and not core[p - 1:p + 4].strip() in ('', '...'):
            return f'caret {p} past the end of {shown!r}'
        if num is not None and f'line number {num}:' not in parts[-4]:
            return f'message does not name line {num}: {parts[-4]!r}'
        return None

    def check_error(o, text, start, allowed=None):
        """An error is well-formed: names a logical line of the text"""
        try:
            lines = layout.logical(text)
            dangling = None
        except layout.Dangling as d:
            dangling = d.args
            lines = logical_prefix(text) + [dangling]
        _, error, line, col, num, msg = o
        if not isinstance(num, int):
            return f'line number {num!r}'
        hit = [i for i, (n, _) in enumerate(lines) if n + start == num]
        if not hit:
            return f'line number {num} is not the number of a logical line'
        if line != lines[hit[0]][1] and not (dangling and hit[0] == len(lines) - 1 and isinstance(line, str) and line.strip() == dangling[1].strip()):
            return f'line text {line!r}, line {num} is {lines[hit[0]][1]!r}'
        if allowed is not None and hit[0] not in allowed:
            return f'error on logical line {hit[0]} ({line!r}), expected {sorted(allowed)}'
        return caret(o, line)

    # R1 texts over a character alphabet: total, consistent errors, one statement per line
    def chars(text, start=1):
        def thunk(it):
            return outcome(it, ps, text, start)

        def judge(p):
            o = p.value
            if p.kind != 'return' or o[0] == 'raise':
                return False, f'{text!r} raises {show(o[1] if p.kind == "return" else p.value)}'
            if o[0] == 'error':
                r = check_error(o, text, start)
                return r is None, f'{text!r}: {r}'
            try:
                lines = layout.logical(text)
            except layout.Dangling:
                return False, f'{text!r} ends in a continued line and is accepted'
            n = sum(1 for s in o[1]['statements'])
            return n == len(lines), f'{text!r}: {n} statements for {len(lines)} lines'
        ck.cell('R1 character strings', repr(text), where, thunk, judge)

    alphabet = "a1 ()'\\:=#\n+," + '.'
    for n in range(4):
        for cs in itertools.product(alphabet + '/;"-!%&|[]<>*$@_?{}^~`', repeat=n):
            chars(''.join(cs))
    for cs in itertools.product("a ()'\\:=#\n+" if not ck.thorough else alphabet + '[!', repeat=4):
        chars(''.join(cs), 7)
        if ck.over():
            break
    for cs in itertools.product(['a', '\\', '\n', '#', ' ', '\r\n', '\t', 'b('], repeat=5):
        chars(''.join(cs))
    for t in ['\x00', 'é', 'a\u2028b', 'a\x0bb', '\x0c', 'a\x0cb', '\ufeffa', 'a\xa0= 1', '\xa0', 'a = \u3000 1', '١', 'a١ = 1', '²', 'a = ²', "'\u2028'", 'ａ = 1', '🙂', "'🙂'", 'a\rb', 'a\r', '\r', '\r\n', 'x = 1\r\r\n',
              'if\xa0a:', 'if', 'while', 'for', 'function', 'function f', 'function f(', 'function f():x', 'jump', 'jumpif', 'jumpif ()', 'jumpif () a', 'return(', 'return (', 'include', 'include a', "include 'a", 'include <a',
              "include 'a' b", 'async', 'async function', 'async f():', 'else', 'elif', 'elif a', 'if :', 'while :', 'for a in :', 'for in a:', 'for a, in b:', 'for a b in c:', 'for a,b,c in d:', 'break;', 'continue x', 'endif:',
              'else: x', 'a:b', 'a: b', ':', '::', 'a::', '1:', 'x =', '= 1', 'x == 1 =', 'x = = 1', 'x === 1', 'x != 1', 'x <= 1', 'x := 1', '[x] = 1', "'x' = 1", 'x, y = 1', 'x += 1', '#', '#\\', 'x # c', 'x = 1 # c',
              'x = 99999999999999999999', 'x = 1e+999', 'x = 1e-999', 'x = 1e', 'x = 0x10', "x = '" + 'a' * 300 + "'", 'x = ' + '+ ' * 200, 'x = ' + '(' * 60, 'x = ' + '(' * 60 + '1' + ')' * 60, 'a' * 500 + ' b', 'f(' * 50]:
        def thunk(it, t=t):
            return outcome(it, ps, t, 3)

        def judge(p, t=t):
            o = p.value
            if p.kind != 'return' or o[0] == 'raise':
                return False, f'{t!r} raises {show(o[1] if p.kind == "return" else p.value)}'
            if o[0] == 'error':
                r = check_error(o, t, 3)
                return r is None, f'{t!r}: {r}'
            return True
        ck.cell('R2 odd texts', repr(t)[:80], where, thunk, judge)

    # R3 block sequences: accepted exactly when well-formed; every line leaves its mark; errors name the offending line
    alpha = ['if c{i}:', 'elif d{i}:', 'else:', 'endif', 'while w{i}:', 'endwhile', 'for v{i} in a{i}:', 'endfor', 'function f{i}(p{i}):', 'endfunction', 'break', 'continue', 'x{i}()',
             'return r{i}', 'y{i} = 1']

    def seq(rule, lines, start=1):
        text = '\n'.join(lines)
        want = layout.blocks(lines)

        def judge(p):
            o = p.value
            if p.kind != 'return' or o[0] == 'raise':
                return False, f'raises {show(o[1] if p.kind == "return" else p.value)}\n{text}'
            if o[0] == 'error':
                if want is None:
                    return False, f'a well-formed text is rejected: {o[5]}\n{text}'
                r = check_error(o, text, start, want if isinstance(want, set) else {want})
                return r is None, f'{r}\n{text}'
            if want is not None:
                return False, f'accepted although line {want} is misplaced or a block is left open\n{text}'
            flat = json.dumps(o[1])
            for ln in lines:
                for w in ln.replace('(', ' ').replace(')', ' ').replace(':', ' ').replace(',', ' ').split():
                    if w[-1].isdigit() and w[0].isalpha() and f'"{w}"' not in flat:
                        return False, f'{w} of line {ln!r} does not appear in the model\n{text}'
            n = sum(x in ('break', 'continue') for x in lines)
            return True if not n or flat.count('"jump"') >= n else (False, f'a jump is missing\n{text}')
        ck.cell(rule, text.replace('\n', ' / '), where, lambda it: outcome(it, ps, text, start), judge)

    few = alpha[:12] + alpha[12:13]
    for k in range(1, 5 if ck.thorough else 4):
        for ls in itertools.product(alpha if k < 4 else few, repeat=k):
            seq('R3 block structure', [x.format(i=i) for i, x in enumerate(ls)], 1 if k != 2 else 40)
            if ck.over():
                break
    opens = ['if c{i}:', 'while w{i}:', 'for v{i} in a{i}:', 'function f{i}(p{i}):', 'else:', 'elif e{i}:']
    ends = ['endif', 'endwhile', 'endfor', 'endfunction']
    for k in range(1, 4):
        for os_ in itertools.product(opens, repeat=k):
            for cs in itertools.product(ends, repeat=min(k, 2)):
                for mid in ('x9()', 'break', 'continue', 'else:', 'elif z9:'):
                    ls = [*os_, mid, *cs]
                    seq('R3 block structure', [x.format(i=i) for i, x in enumerate(ls)])
    for nm, src in MISPLACED.items():
        seq('R3 block structure', src.split('\n'))

    def judge_simple(p, text):
        o = p.value
        if p.kind != 'return' or o[0] == 'raise':
            return False, f'raises {show(p.value)}\n{text}'
        want = layout.model(text)
        if o[0] == 'error':
            if want is not None:
                return False, f'rejected: {o[5]}\n{text}'
            r = check_error(o, text, 1)
            return r is None, f'{r}\n{text}'
        return o[1] == want, f'model {o[1]} expected {want}\n{text}'

    # R4 simple lines: the model holds exactly one statement per line, in order and in the right scope
    simple = ['x = 1', 'f(x)', 'return', 'return x', 'lab:', 'jump lab', 'jumpif (x) lab', "include 'a'", 'include <b>', 'function f():', 'function g(a, b...):', 'async function h(a):', 'endfunction', 'x', '# c', '']
    for k in range(1, 5 if ck.thorough else 4):
        for ls in itertools.product(simple, repeat=k):
            text = '\n'.join(ls)
            ck.cell('R4 simple lines', ' / '.join(ls), where, lambda it, text=text: outcome(it, ps, text),
                    lambda p, text=text: judge_simple(p, text))
            if ck.over():
                break

    # R5 positions: statement kinds x malformed expressions x layouts
    def position(nm, lines, ix, e, pre, ind, start, parts=False):
        body = [ind + x.replace('{e}', e) for x in lines]
        text = pre + body
        full = '\n'.join(text)
        src = text if parts else full

        def thunk(it):
            alone = outcome(it, pe, e)
            return alone, outcome(it, ps, src, start)

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}\n{full}'
            alone, o = p.value
            if o[0] == 'raise' or alone[0] == 'raise':
                return False, f'raises {show(o[1])}\n{full}'
            if o[0] != 'error':
                return False, f'the malformed line is accepted\n{full}'
            if alone[0] != 'error':
                return None, f'expression {e!r} is accepted'
            if alone[2] != e or alone[4] is not None or not 1 <= alone[3] <= len(e) + 1:
                return False, f'parse_expression({e!r}) error: line {alone[2]!r} column {alone[3]}'
            r = caret(alone, e)
            if r:
                return False, f'{e!r}: {r}'
            num = start + len(pre) + ix
            if o[4] != num:
                return False, f'line number {o[4]}, expected {num}\n{full}'
            if o[2] != body[ix]:
                return False, f'line text {o[2]!r}, expected {body[ix]!r}'
            r = caret(o, body[ix])
            if r:
                return False, f'{r}\n{full}'
            off = lines[ix].index('{e}') + len(ind)
            want = off + alone[3]
            if o[3] != want and not (o[3] < want and body[ix][o[3] - 1:want - 1].isspace()):
                return False, f'column {o[3]}, the offending character is at {want}: {body[ix]!r}'
            return True
        ck.cell('R5 error positions', f'{nm}: {e} indent={len(ind)} prefix={pre[:2]}x{len(pre)} start={start} parts={parts}', where, thunk, judge)
    for nm, lines, ix in CONTEXTS:
        for e in BAD:
            for ind in ('', '    ', '\t') if not ck.thorough else ('', ' ', '    ', '\t', '          '):
                position(nm, lines, ix, e, [], ind, 1)
            position(nm, lines, ix, e, PREFIXES[6], '  ', 10)
    for nm, lines, ix in CONTEXTS:
        for pre in PREFIXES:
            for start in (1, 0, 5, 1000):
                for parts in (False, True):
                    position(nm, lines, ix, 'f(a, @)', pre, '  ', start, parts)
        # expressions nested deeper than the host can recurse
        for e in ('(' * 1500, '(' * 1500 + 'a' + ')' * 1500, 'f(' * 1200, 'f(' * 1200 + ')' * 1200, '-' * 1500, '!' * 1500 + 'a', 'a ' + '+ a ' * 1500, 'a ' + '* ' * 1500, 'f(a, ' * 1200, '-(' * 800 + 'a b'):
            def deep(p, text, line, e=e):
                o = p.value
                if p.kind != 'return' or o[0] == 'raise':
                    return False, f'raises {show(o[1] if p.kind == "return" else p.value)[:300]} for {e[:20]}...'
                if o[0] == 'ok':
                    return (True if layout_ok(e) else False), f'accepted {e[:20]}...'
                r = check_error(o, text, 4, {line})
                return r is None, f'{str(r)[:300]}: {e[:20]}...'
            text = '\n'.join(x.replace('{e}', e) for x in lines)
            ck.cell('R5 error positions', f'{nm}: {e[:6]}... of {len(e)} characters', where, lambda it, text=text: outcome(it, ps, text, 4), lambda p, text=text, ix=ix, deep=deep: deep(p, text, ix))
        # long lines, with the error early, in the middle and late
        for before in (0, 10, 40, 59, 60, 61, 100, 119, 120, 121, 180, 300):
            for after in (0, 10, 58, 59, 60, 61, 119, 120, 200):
                e = "f('" + 'a' * before + "', @, '" + 'b' * after + "')"
                position(nm, lines, ix, e, ['# c'], '  ', 3)

    # R6 continued lines: the number of the first physical line, the joined text
    for nm, lines, ix in CONTEXTS:
        for e in ('f(a, @)', 'a + ', '(a', 'a b'):
            for cut in ('mid', 'comment', 'blank', 'many'):
                for start in (1, 20):
                    for pre in ([], ['# c', 'x = 1']):
                        body = [x.replace('{e}', e) for x in lines]
                        ln = body[ix]
                        k = ln.index(e)
                        sp = [i for i, c in enumerate(ln) if c == ' ' and 0 < i < len(ln) - 1]
                        if not sp:
                            continue
                        i = sp[len(sp) // 2]
                        mids = {'mid': ['\\'], 'comment': ['\\', '# comment'], 'blank': [' \\  ', ''], 'many': ['\\', '\\', '# c', '  \\']}[cut]
                        phys = [ln[:i] + mids[0]] + mids[1:] + ['    ' + ln[i + 1:]]
                        text = '\n'.join(pre + body[:ix] + phys + body[ix + 1:])

                        def judge(p, text=text, start=start, num=start + len(pre) + ix):
                            o = p.value
                            if p.kind != 'return' or o[0] != 'error':
                                return False, f'{show(p.value)[:200]}\n{text}'
                            if o[4] != num:
                                return False, f'line number {o[4]}, expected {num}\n{text}'
                            r = check_error(o, text, start)
                            return r is None, f'{r}\n{text}'
                        ck.cell('R6 continued lines', f'{nm}: {e} {cut} start={start} pre={len(pre)}', where, lambda it, text=text, start=start: outcome(it, ps, text, start), judge)
    for text in ('x = 1 \\', 'x = 1 \\\n', 'x = 1\\\n# c', 'if a: \\', 'a\nb \\\n  c \\', '\\', ' \\ ', 'function f():\nx = \\', 'x = 1\n\\\n\n', 'x \\\n\\', 'include \\', '# c \\\nx \\'):
        for start in (1, 9):
            def judge(p, text=text, start=start):
                o = p.value
                if p.kind != 'return' or o[0] == 'raise':
                    return False, f'raises {show(p.value)}\n{text}'
                if o[0] == 'ok':
                    return False, f'text ending inside a continued line is accepted: {text!r}'
                r = check_error(o, text, start)
                return r is None, f'{r}: {text!r}'
            ck.cell('R6 continued lines', f'dangling {text!r} start={start}', where, lambda it, text=text, start=start: outcome(it, ps, text, start), judge)

    # R8 prepended lines and start lines move the reported line and change nothing else
    for nm, src in list(MISPLACED.items()) + [(x, x) for x in ('if a:', 'while a:', 'for a in b:', 'function f():', 'if a:\nelse:', 'if a:\nwhile b:\nendwhile', 'function f():\nif a:\nendif', 'for a, b in c:\nif a:\nendif',
                                                               'while a:\nfor b in c:\nendfor', 'while true:', 'async function f(a...):', 'if a:\nelif b:\nx = 1', 'x = (', 'function f():\nfunction g():')]:
        for pre in PREFIXES:
            for start in (1, 5):
                for parts in (False, True):
                    text = '\n'.join(pre + src.split('\n'))

                    def thunk(it, src=src, text=text, start=start, parts=parts):
                        return outcome(it, ps, src), outcome(it, ps, text.split('\n') if parts else text, start)

                    def judge(p, pre=pre, start=start, text=text):
                        if p.kind != 'return':
                            return False, f'raises {p.value!r}'
                        a, b = p.value
                        if a[0] != 'error' or b[0] != 'error':
                            return False, f'{show(a)[:200]} and with the prefix {show(b)[:200]}\n{text}'
                        want = a[4] + len(pre) + start - 1
                        if b[4] != want or b[1:4] != a[1:4]:
                            return False, f'{b[1:5]}, expected {a[1:4]} at line {want}\n{text}'
                        return True
                    ck.cell('R8 prepended lines', f'{nm} prefix={pre[:2]}x{len(pre)} start={start} parts={parts}', where, thunk, judge)

    # R7 the caret of the message for every column around the elision limits
    lens = [0, 1, 2, 60, 119, 120, 121, 122, 123, 124, 125, 130, 150, 179, 180, 181, 182, 183, 184, 185, 239, 240, 241, 242, 260, 300, 500]
    for n in lens if not ck.thorough else range(0, 400):
        line = ''.join(chr(0x4E00 + i) for i in range(n))
        for c0 in range(1, n + 2, 20):
            for num, prefix in ((None, None), (12, 'Included from "x"')):
                def thunk(it, line=line, c0=c0, n=n, num=num, prefix=prefix):
                    out = []
                    for c in range(c0, min(c0 + 20, n + 2)):
                        x = it.call(err, ['Syntax error', line, c] + ([num, prefix] if num is not None else []), {})
                        out.append(('error', x.attrs.get('error'), x.attrs.get('line'), x.attrs.get('column_number'), x.attrs.get('line_number'), (x.attrs.get('args') or ('',))[0]))
                    return out

                def judge(p, line=line, c0=c0, num=num, prefix=prefix):
                    if p.kind != 'return':
                        return False, f'raises {p.value!r}'
                    for i, o in enumerate(p.value):
                        if o[1:5] != ('Syntax error', line, c0 + i, num):
                            return False, f'attributes {o[1:5]}'
                        r = caret(o, line)
                        if r:
                            return False, f'length {len(line)}: {r}'
                        if prefix and not o[5].startswith(prefix + '\n'):
                            return False, f'the prefix is missing: {o[5]!r}'
                    return True
                ck.cell('R7 caret under elision', f'length {n} columns {c0}.. line={num}', ck.where(err) if not isinstance(err, type) else 'BareScriptParserError', thunk, judge)
    return ck.finish()


def layout_ok(e):
    """The nested expression is well-formed, so a parser that recurses less may accept it"""
    return 'a b' not in e and e.count('(') == e.count(')') and e.rstrip()[-1] in 'a)'


def logical_prefix(text):
    """Logical lines before a dangling continuation"""
    lines = layout.physical(text)
    for n in range(len(lines) - 1, -1, -1):
        try:
            return layout.logical('\n'.join(lines[:n]))
        except layout.Dangling:
            continue
    return []
