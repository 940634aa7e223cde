"""C09 The statement budget is exact, complete and monotone"""

import itertools

from absint.values import HostFn, PyExc, show

from .common import Check
from .refrun import Ref, RefRun, matches, outcome

TECHNIQUE = 'abstract interpretation of the statement loop under every limit, against a reference count of statement starts; effect-prefix comparison between limits'
NOTE = ('Programs composed of calls, recursion, loops, callbacks through array and data functions, partial functions, host callbacks and nested includes are '
        'abstractly run without a limit and under every limit from 1 to N+2; the trace, result or error and counted statements must equal a reference that '
        'counts each statement start. Also includes non-terminating programs under small limits.')

UNITS = {
    'assign': ([], 'x = 1\ny = x + 1'),
    'call': (['function f(a):', "log('f', a)", 'return a', 'endfunction'], 'f(1)'),
    'nested call': (['function f(a):', 'b = g(a)', "log('f', a)", 'endfunction', 'function g(a):', "log('g')", 'return a', 'endfunction'], 'f(f(1))'),
    'recursion': (['function r(n):', "log('r', n)", 'if n > 0:', 'r(n - 1)', 'endif', 'endfunction'], 'r(2)'),
    'while': ([], "i = 0\nwhile i < 2:\nlog('w', i)\ni = i + 1\nendwhile"),
    'for': ([], "for v in arr:\nif v == 2:\ncontinue\nendif\nlog('v', v)\nendfor"),
    'sort': (['function cmp(a, b):', "log('cmp')", 'return b - a', 'endfunction'], 'arraySort(arr, cmp)'),
    'index of': (['function is(v):', "log('is', v)", 'return v == 2', 'endfunction'], 'log(arrayIndexOf(arr, is))'),
    'last index of': (['function is(v):', "log('is', v)", 'return v == 2', 'endfunction'], 'log(arrayLastIndexOf(arr, is))'),
    'filter': (['function keep(v):', "log('keep', v)", 'return v > 1', 'endfunction'], "log(arrayLength(dataFilter(rows, 'keep(a)')))"),
    'filter variables': (['function keep(v, w):', "log('keep', v)", 'return v > w', 'endfunction'], "log(arrayLength(dataFilter(rows, 'keep(a, q)', objectNew('q', 1))))"),
    'calculated': (['function dbl(v):', 'u = v * 2', 'return u', 'endfunction'], "dataCalculatedField(rows, 'b', 'dbl(a)')\nlog(rows)"),
    'calculated variables': (['function dbl(v, w):', 'u = v * w', 'return u', 'endfunction'], "dataCalculatedField(rows, 'b', 'dbl(a, q)', objectNew('q', 2))\nlog(rows)"),
    'join': (['function key(v):', "log('key', v)", 'return v', 'endfunction'], "log(dataJoin(rows, rows, 'key(a)'))"),
    'join variables': (['function key(v, q):', "log('key', v)", 'return v + q', 'endfunction'], "log(dataJoin(rows, rows, 'key(a, q)', 'key(a, q)', false, objectNew('q', 2)))"),
    'partial': (['function f(a, b):', "log('f', a, b)", 'return b', 'endfunction'], 'p = systemPartial(f, 1)\np(2)'),
    'partial sort': (['function cmp(k, a, b):', 'log(k)', 'return k * (a - b)', 'endfunction'], 'arraySort(arr, systemPartial(cmp, -1))'),
    'host callback': (['function f(a):', "log('f', a)", 'return a', 'endfunction'], 'twice(f)'),
    'contained failure': (['function f(a):', "log('f')", 'return arrayGet(a, 9)', 'endfunction'], 'f(arr)\nfailing(f)'),
    'alias': (['function f(a):', "log('f')", 'endfunction'], "g = f\ng(1)\nsystemGlobalGet('f')(2)".replace("systemGlobalGet('f')(2)", "h = systemGlobalGet('f')\nh(2)")),
    'include': ([], "include 'a'"),
    'include nested': ([], "include 'n'"),
    'include twice': ([], "include 'a'\ninclude 'a'\ninclude <a>"),
    'include function': ([], "include 'd'\nfd(3)"),
    'include in function': (['function f():', "include 'a'", "log('f')", 'endfunction'], 'f()'),
    'include callback': (['function f(a):', "include 'a'", 'return a', 'endfunction'], 'twice(f)'),
    'include in sort': (['function cmp(a, b):', "include 'a'", 'return a - b', 'endfunction'], 'arraySort(arr, cmp)'),
    'include return': ([], "include 'r'"),
    'include empty': ([], "include 'e'"),
    'filter in function': (['function keep(v):', "log('keep', v)", 'return v > 1', 'endfunction', 'function f():', "return dataFilter(rows, 'keep(a)', objectNew())", 'endfunction'], 'f()'),
    'filter in include': (['function keep(v):', "log('keep', v)", 'return v > 1', 'endfunction'], "include 'flt'"),
    'nested filter': (['function keep(v):', "return arrayLength(dataFilter(rows, 'k2(a)', objectNew('z', 1))) > v", 'endfunction', 'function k2(v):', "log('k2')", 'return true', 'endfunction'],
                      "dataFilter(rows, 'keep(a)', objectNew('y', 1))"),
    'return': ([], "log('last')\nreturn 7"),
    'jumps': ([], "jump skip\nlog('no')\nskip:\nlog('yes')"),
}
FILES = {
    'a': "log('a')\nx = 5",
    'n': "log('n')\ninclude 'a'\nlog('n2')",
    'd': "function fd(n):\nlog('fd', n)\nreturn n\nendfunction",
    'r': "log('r')\nreturn 5\nlog('no')",
    'e': '# nothing',
    'flt': "log(arrayLength(dataFilter(rows, 'keep(a)', objectNew('q', 1))))",
    'self': "log('self')\ninclude 'self'",
    'two': "include 'self'\nlog('no')",
}
LAST = {
    'assignment': ([], 'x = 1'), 'expression': ([], '1 + 1'), 'call': ([], "log('c')"), 'return': ([], 'return'), 'return value': ([], 'return 3'),
    'label': ([], 'jump l\nl:'), 'unused label': ([], 'l:'), 'labels': ([], 'jump l\nk:\nl:\nm:'), 'jump': ([], "jumpif (z) e\ne:\nz = null\njumpif (z) e"), 'jump back': ([], "e:\nz = if(z, null, 1)\njumpif (z) e"),
    'if': ([], "if true:\nx = 1\nendif"), 'if not taken': ([], "if false:\nx = 1\nendif"), 'else': ([], "if false:\nx = 1\nelse:\nx = 2\nendif"),
    'empty if': ([], 'if true:\nendif'), 'while': ([], 'i = 0\nwhile i < 2:\ni = i + 1\nendwhile'), 'while not run': ([], 'while false:\nendwhile'), 'for': ([], 'for v in arr:\nendfor'),
    'for not run': ([], 'for v in arrayNew():\nendfor'), 'break': ([], 'for v in arr:\nbreak\nendfor'), 'function': ([], 'function h():\nendfunction'), 'functions': ([], 'function h():\nendfunction\nfunction h2():\nx = 1\nendfunction'),
    'include': ([], "include 'a'"), 'empty include': ([], "include 'e'"), 'failing call': ([], 'failing(arr)'),
    'call of an empty function': (['function em():', 'endfunction'], 'em()'), 'call of a label': (['function em():', 'jump z', 'z:', 'endfunction'], 'em()'), 'return of an empty function': (['function em():', 'endfunction'], 'return em()'),
}
ENDLESS = {
    'while': 'while true:\nendwhile',
    'while logs': "while true:\nlog('x')\nendwhile",
    'jump': 'a:\njump a',
    'empty label loop': 'jump a\na:\nb:\njump a',
    'recursion': "function f():\nlog('f')\nf()\nendfunction\nf()",
    'mutual recursion': "function f():\ng()\nendfunction\nfunction g():\nlog('g')\nf()\nendfunction\nf()",
    'callback loop': "function f(a):\nwhile true:\nlog('c')\nendwhile\nendfunction\ntwice(f)",
    'callback recursion': "function f(a):\nlog('c')\ntwice(f)\nendfunction\nf(1)",
    'sort loop': "function f(a, b):\nwhile true:\nlog('c')\nendwhile\nendfunction\narraySort(arr, f)",
    'filter loop': "function f(a):\nwhile true:\nlog('c')\nendwhile\nendfunction\ndataFilter(rows, 'f(a)', objectNew('q', 1))",
    'filter recursion': "function f(a):\nlog('f')\nreturn dataFilter(rows, 'f(a)', objectNew('q', 1))\nendfunction\nf(1)",
    'repeated filter': "function f(a):\nreturn a\nendfunction\nwhile true:\nlog('w')\ndataFilter(rows, 'f(a)', objectNew('q', 1))\nendwhile",
    'include self': "include 'self'",
    'include two': "include 'two'",
    'repeated include': "while true:\ninclude 'a'\nendwhile",
    'repeated call': "function f():\nlog('f')\nendfunction\nwhile f() == null:\nendwhile",
    'include function loop': "include 'd'\nwhile fd(1):\nendwhile",
}


def run(prop, tier):
    ck = Check(prop, tier, 'programs (ordered pairs of call, callback and include forms) x every limit from 1 to N+2 and 0; trace, result or error against a '
               'reference count of statement starts, and prefix order between limits; a cell is one program')
    es = ck.fn('runtime', 'execute_script')
    ps = ck.fn('parser', 'parse_script')
    library = ck.mod('library').env['SCRIPT_FUNCTIONS']
    ref = Ref(ck)
    where = ck.where(es)

    more = {}

    def setup(it, trace, fetched):
        def log(i, a, kw):
            trace.append(tuple(show(x) if isinstance(x, (list, dict)) else x for x in a[0]))

        def twice(i, a, kw):
            opts = a[1] if len(a) > 1 else None
            x = it.call(a[0][0], [[1], opts], {})
            trace.append(('between',))
            return it.call(a[0][0], [[x], opts], {})

        def failing(i, a, kw):
            opts = a[1] if len(a) > 1 else None
            it.call(a[0][0], [[[]], opts], {})
            raise PyExc(ValueError('host failure'))

        def fetch(i, a, kw):
            fetched.append(a[0]['url'])
            trace.append(('fetch', a[0]['url']))
            return more[a[0]['url']] if a[0]['url'] in more else FILES[a[0]['url']]
        g = {'log': HostFn('log', log), 'twice': HostFn('twice', twice), 'failing': HostFn('failing', failing),
             'arr': [3.0, 1.0, 2.0], 'rows': [{'a': 1.0}, {'a': 2.0}]}
        return g, HostFn('fetch', fetch)

    def go(it, model, limit, opts=None):
        trace, fetched = [], []
        g, fetch = setup(it, trace, fetched)
        options = opts if opts is not None else {}
        options.update({'globals': g, 'fetchFn': fetch})
        if limit is None:
            options.pop('maxStatements', None)
        else:
            options['maxStatements'] = limit
        return outcome(it, es, model, options), trace

    parsed = {}

    def parse(it, text):
        if text not in parsed:
            parsed[text] = it.call(ps, [text], {})
        return parsed[text]

    def refgo(it, model, limit):
        trace, fetched = [], []
        g, fetch = setup(it, trace, fetched)
        rr = RefRun(ref, it, g, limit, library=library, fetch=lambda u: it.call(fetch, [{'url': u}], {}), parse=lambda t: parse(it, t))
        return rr.run(model), trace, rr.count

    def program(rule, name, text, limits=None, single=False, files=None):
        def thunk(it):
            more.clear()
            more.update(files or {})
            model = parse(it, text)
            out = []
            want0 = full = None
            if limits is None:
                want0 = refgo(it, model, 0)
                full = go(it, model, 0)
                n = want0[2]
                ls = list(range(1, n + 3)) + [10 * n + 100]
                if not ck.thorough and n > 24:
                    ls = list(range(1, 8)) + list(range(8, n - 4, 3)) + list(range(n - 4, n + 3))
            else:
                ls = limits
            shared = {}
            for lim in ls:
                got = go(it, model, lim, shared if single else None)
                want = refgo(it, model, lim)
                out.append((lim, got, want))
                if matches(it, got, want[:2]) is False:
                    break
            return full, want0, out

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            full, want0, out = p.value
            res = True
            runs = ([('unlimited', full, want0)] if full else []) + out
            for lim, got, want in runs:
                r = matches(ck.it, got, want[:2])
                if r is False:
                    return False, f'limit {lim}: {show(got)[:500]}, expected {show(want)[:500]}'
                if r is None:
                    res = None
            if full:
                for lim, got, want in out:
                    if got[1] != full[1][:len(got[1])]:
                        return False, f'limit {lim}: the effects are not a prefix of those of the unlimited run: {show(got[1])[:300]}'
                    if lim >= want0[2] and matches(ck.it, got, full) is False:
                        return False, f'limit {lim}: differs from the unlimited run of {want0[2]} statements'
                    if lim < want0[2] and got[0] != ('runtime', f'Exceeded maximum script statements ({lim})'):
                        return False, f'limit {lim}: not aborted ({show(got[0])[:200]}) though {want0[2]} statements start'
            return res, 'undetermined comparison'
        ck.cell(rule, name, where, thunk, judge, max_paths=16)

    def text(units):
        defs, names = [], {}
        body = []
        for i, u in enumerate(units):
            d, b = UNITS[u]
            if d:
                # the second unit's functions get their own names
                import re
                for ln in d:
                    m = re.match(r'function (\w+)', ln)
                    if m:
                        names[m.group(1)] = f'{m.group(1)}_{i}'
            loc = {m: f'{m}_{i}' for m in [re.match(r'function (\w+)', ln).group(1) for ln in d if ln.startswith('function')]} if d else {}

            def sub(ln, loc=loc):
                for a, b_ in loc.items():
                    ln = re.sub(rf'\b{a}\b(?=\(|\)|$|, )', b_, ln)
                return ln
            defs += [sub(ln) for ln in d]
            body += [sub(ln).replace('skip', f'skip{i}') for ln in b.split('\n')]
        return '\n'.join(defs + body + ["log('end')", 'return 1'])

    for u in UNITS:
        program('R1 single forms', u, text([u]))
        program('R1 single forms', f'{u}, one options object', text([u]), single=True)
    for a, b in itertools.product(UNITS, repeat=2):
        program('R2 pairs of forms', f'{a}; {b}', text([a, b]))
    # every form inside a function that is called back, and inside a loop
    for u in UNITS:
        d, b = UNITS[u]
        body = [x.replace('skip', 'skipf') for x in b.split('\n')]
        program('R3 forms in context', f'{u} in a callback', '\n'.join(d + ['function outer(k):'] + body + ['return k', 'endfunction', 'twice(outer)', "log('end')"]))
        program('R3 forms in context', f'{u} in a loop', '\n'.join(d + ['for q in arrayNew(1, 2):'] + body + ['endfor', "log('end')"]))
        program('R3 forms in context', f'{u} in an expression filter', '\n'.join(d + ['function outer(k):'] + body + ['return k', 'endfunction', "t = dataFilter(arrayNew(objectNew('a', 1)), 'outer(a)', objectNew('zz', 1))", "log('end')"]))
    # every kind of statement as the last one of a script, a function, a callback and an included text
    for nm, (before, last) in LAST.items():
        b, ls = before, last.split('\n')
        program('R5 last statements', nm, '\n'.join(b + ls))
        program('R5 last statements', f'{nm}, after others', '\n'.join(b + ["log('a')"] + ls))
        fn = ['function ff(p):', "log('f')"] + ls + ['endfunction'] if not any(x.startswith('function') for x in ls) else None
        if fn:
            program('R5 last statements', f'{nm} of a function', '\n'.join(b + fn + ['ff(1)']))
            program('R5 last statements', f'{nm} of a function in an assignment', '\n'.join(b + fn + ['x = ff(1)']))
            program('R5 last statements', f'{nm} of a function in a return', '\n'.join(b + fn + ['return ff(1)']))
            program('R5 last statements', f'{nm} of a host callback', '\n'.join(b + fn + ['twice(ff)']))
            program('R5 last statements', f'{nm} of a callback of the library', '\n'.join(b + fn + ['x = arrayIndexOf(arr, ff)']))
            program('R5 last statements', f'{nm} of a callback in an expression', '\n'.join(b + fn + ["x = dataFilter(rows, 'ff(a)', objectNew('zz', 1))"]))
            program('R5 last statements', f'{nm} of a partial', '\n'.join(b + fn + ['p = systemPartial(ff, 1)', 'x = p()']))
        program('R5 last statements', f'{nm} of an included text', '\n'.join(b + ["log('a')", "include 'last'"]), files={'last': '\n'.join(ls)})
        program('R5 last statements', f'{nm} of an included text in a function', '\n'.join(b + ['function gg():', "include 'last'", 'endfunction', 'gg()']), files={'last': '\n'.join(ls)})
    # endless programs under limits
    for nm, t in ENDLESS.items():
        program('R4 endless programs', nm, t, limits=[1, 2, 3, 4, 5, 7, 10, 16] + ([25, 40] if ck.thorough else []))
    return ck.finish()
