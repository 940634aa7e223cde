"""C04 Scoping, calling convention and host globals behave as documented"""

import copy
import itertools

from absint.values import HostFn, show, sym

from .common import Check
from .lab import cell_values, fcall, num, string, var
from .refrun import Ref, RefRun, matches, outcome

TECHNIQUE = 'abstract interpretation of the runtime over parameter/argument shapes with opaque values, enumerated scoping programs and every library and built-in name'
NOTE = ('Binding is decided for every parameter count 0-4 x trailing array x argument count 0-6 x way of calling, with opaque arguments; scoping for all small '
        'programs over one shared name in three scopes; injection, replacement and shadowing for every name of the library and of the expression built-ins. '
        'The if() form is not a name lookup and is left to C03.')


def call(name, *args):
    return {'expr': {'expr': fcall(name, *args)}}


def assign(name, e):
    return {'expr': {'name': name, 'expr': e}}


def run(prop, tier):
    ck = Check(prop, tier, 'parameter shapes x argument counts x call routes; scoping programs over a shared name; every library and expression function name x the '
               'kinds of value a caller may bind; compared with a reference run')
    es = ck.fn('runtime', 'execute_script')
    ev = ck.fn('runtime', 'evaluate_expression')
    ps = ck.fn('parser', 'parse_script')
    library = ck.mod('library').env['SCRIPT_FUNCTIONS']
    builtin = ck.mod('library').env['EXPRESSION_FUNCTIONS']
    ref = Ref(ck)
    where = ck.where(es)

    def hosts(trace):
        def log(i, a, kw):
            trace.append(tuple(copy.copy(x) if isinstance(x, list) else x for x in a[0]))
            return a[0][0] if a[0] else None

        def invoke(i, a, kw):
            # a host function that calls a script function with an argument list of its own
            args = list(a[0][1:])
            keep = list(args)
            r = i.call(a[0][0], [args, a[1] if len(a) > 1 else None], {})
            trace.append(('arguments kept', len(args) == len(keep) and all(x is y for x, y in zip(args, keep))))
            return r
        return {'log': HostFn('log', log), 'invoke': HostFn('invoke', invoke)}

    def strip(g):
        return {k: v for k, v in g.items() if not (k in library and v is library[k]) and k not in ('log', 'invoke')}

    def script(rule, name, model, extra=None, lib=True, fetch=None, max_paths=64):
        def thunk(it):
            m = model if isinstance(model, dict) else it.call(ps, [model], {})
            ex = extra() if extra else {}
            t1, t2 = [], []
            g1, g2 = {**hosts(t1), **ex}, {**hosts(t2), **ex}
            opts = {'globals': g1}
            if fetch:
                opts['fetchFn'] = HostFn('fetch', lambda i, a, kw: fetch.get(a[0]['url']))
            o1 = outcome(it, es, m, opts)
            w = RefRun(ref, it, g2, 0, library=library, fetch=fetch.get if fetch else None, parse=lambda t: it.call(ps, [t], {})).run(m)
            return (o1, t1, strip(g1)), (w, t2, strip(g2)), opts['globals'] is g1, len(it.state_changes())

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            got, want, same, st = p.value
            if not same:
                return False, 'the globals object of the caller is replaced'
            if st:
                return False, f'{st} module-level containers differ after the run'
            res = True
            for what, a, b in zip(('result', 'trace', 'globals'), got, want):
                r = matches(ck.it, a, b)
                if r is False:
                    return False, f'{what} {show(a)[:500]}, expected {show(b)[:500]}'
                if r is None:
                    res = None
            return res, f'undetermined comparison {show(got)[:300]}'
        ck.cell(rule, name, where, thunk, judge, max_paths)

    # R1 binding
    vals = [var(f'a{i}') for i in range(7)]
    ex = lambda: {f'a{i}': sym(f'a{i}') for i in range(7)}
    for n, last, k in itertools.product(range(5), (None, False, True), range(7)):
        if last and not n:
            continue
        params = [f'p{i}' for i in range(n)]
        f = {'name': 'f', 'statements': [call('log', *[var(p) for p in params]), call('log', var('a0')), {'return': {'expr': var(params[-1]) if params else num(1)}}]}
        if params:
            f['args'] = params
        if last is not None:
            f['lastArgArray'] = last
        fst = {'function': f}
        args = vals[:k]
        nm = f'{n} parameters {last} {k} arguments'
        ret = lambda e: {'return': {'expr': e}}
        script('R1 binding', f'{nm}: direct', {'statements': [fst, ret(fcall('f', *args))]}, ex)
        script('R1 binding', f'{nm}: in a function', {'statements': [fst, {'function': {'name': 'g', 'args': ['p0', 'q'], 'statements': [call('log', var('p0')), assign('r', fcall('f', *args)), call('log', var('p0'), var('q')), ret(var('r'))]}},
                                                                    ret(fcall('g', num(7), num(8)))]}, ex)
        script('R1 binding', f'{nm}: host callback', {'statements': [fst, ret(fcall('invoke', var('f'), *args))]}, ex)
        script('R1 binding', f'{nm}: variable', {'statements': [fst, assign('h', var('f')), ret(fcall('h', *args))]}, ex)
        for b in range(1, k + 1):
            script('R1 binding', f'{nm}: partial of {b}', {'statements': [fst, assign('h', fcall('systemPartial', var('f'), *args[:b])), call('h', *args[b:]), ret(fcall('h', *args[b:]))]}, ex)
        if last:
            # the trailing array is the call's own
            m = {'function': dict(f, statements=[call('arrayPush', var(params[-1]), string('m'))] + f['statements'])}
            for route, st in (('direct', [call('f', *args), ret(fcall('f', *args))]), ('host callback', [call('invoke', var('f'), *args), ret(fcall('invoke', var('f'), *args))]),
                              ('partial', [assign('h', fcall('systemPartial', var('f'), *(args[:1] or [num(1)]))), call('h', *args[1:]), ret(fcall('h', *args[1:]))])):
                script('R1 binding', f'{nm}: modified trailing array, {route}', {'statements': [m] + st}, ex)
    # arguments of every kind are passed through unchanged
    for nm, mk in cell_values('a'):
        for last in (False, True):
            f = {'name': 'f', 'args': ['p', 'q'], 'statements': [call('log', var('p'), var('q')), {'return': {'expr': var('q')}}]}
            if last:
                f['lastArgArray'] = True
            script('R1 binding', f'{nm} argument {last}', {'statements': [{'function': f}, {'return': {'expr': fcall('f', var('v'), var('v'))}}]}, lambda mk=mk: {'v': mk()})
    # assigning a parameter, and reading parameters named as keywords or library functions
    for src in ("function f(a, b...):\na = 5\nb = a\nlog(a, b)\nendfunction\nf(1, 2, 3)\nlog(a, b)",
                "function f(arrayNew):\nlog(arrayNew)\nreturn arrayNew\nendfunction\nreturn f(3)",
                "function f(g):\nreturn g(2)\nendfunction\nfunction g(x):\nlog('global', x)\nendfunction\nfunction h(x):\nlog('passed', x)\nreturn x\nendfunction\nreturn f(h)",
                "function f(log2):\nlog2 = log\nlog2(1)\nendfunction\nf(2)",
                "function f(f):\nlog(f)\nreturn f\nendfunction\nf(1)\nreturn f(2)",
                "function f(log):\nreturn log(1)\nendfunction\nlog(f(5))\nlog('after')"):
        script('R1 binding', src, src)

    # every call has its own arguments, whichever way and however often the function is called
    COPY = {'f': 'function f(args...):\narrayPush(args, 9)\nreturn args\nendfunction\n', 'arrayNew': 'f = arrayNew\n', 'two': 'function f(a, b):\na = arrayNew(a, b)\nb = 9\nreturn a\nendfunction\n'}
    for fn, head in COPY.items():
        for bound in ('1', '1, 2', '1, 2, 3', 'arr', "arr, 'x'"):
            for later in ('', '5', '5, 6', 'arr'):
                b, k = ([] if not x else [{'arr': [7.0], "'x'": 'x'}.get(y, None) if y in ('arr', "'x'") else float(y) for y in x.split(', ')] for x in (bound, later))
                full = b + k
                want = full + [9.0] if fn == 'f' else (list(full) if fn == 'arrayNew' else (full + [None, None])[:2])
                src = head + f"arr = arrayNew(7)\np = systemPartial(f, {bound})\nx = p({later})\narrayPush(x, 'm')\ny = p({later})\nz = p({later})\nreturn arrayNew(x, y, z)"
                ck.cell('R1 binding', f'own arguments: {fn} partial {bound} then {later}', where, lambda it, src=src: it.call(es, [it.call(ps, [src], {}), {'globals': {}}], {}), lambda p, want=want: (
                    p.kind == 'return' and ck.it.same(p.value, [want + ['m'], want, want]), f'{show(p.value)}, expected {show([want + ["m"], want, want])}'))
    NESTED = "function f(args...):\nreturn args\nendfunction\np = systemPartial(f, 1)\nq = systemPartial(p, 2)\nr = systemPartial(p, 3, 4)\n"
    for nm, src, want in (('nested partials', NESTED + 'return arrayNew(q(5), r(), p(), q(), r(6))', [[1.0, 2.0, 5.0], [1.0, 3.0, 4.0], [1.0], [1.0, 2.0], [1.0, 3.0, 4.0, 6.0]]),
                          ('partial of a partial in a callback', NESTED + "return arrayNew(arrayIndexOf(arrayNew(8, 9), q), q(0), q(0))", [0.0, [1.0, 2.0, 0.0], [1.0, 2.0, 0.0]]),
                          ('partial of a library function with defaults', "p = systemPartial(arraySlice, arrayNew(1, 2, 3))\nreturn arrayNew(p(1), p(), p(2), p(), p(0, 1), p())", [[2.0, 3.0], [1.0, 2.0, 3.0], [3.0], [1.0, 2.0, 3.0], [1.0], [1.0, 2.0, 3.0]]),
                          ('bound library function', "p = systemPartial(stringIndexOf, 'abcb', 'b')\nreturn arrayNew(p(), p(2), p(), p(2))", [1.0, 3.0, 1.0, 3.0]),
                          ('bound trailing arguments', "p = systemPartial(arrayPush, arrayNew())\np(1)\np(2, 3)\nreturn p()", [1.0, 2.0, 3.0]),
                          ('bound max', "p = systemPartial(mathMax, 4)\nreturn arrayNew(p(9), p(), p(5), p())", [9.0, 4.0, 5.0, 4.0]),
                          ('bound objectNew', "p = systemPartial(objectNew, 'a', 1)\nx = p('b', 2)\nobjectSet(x, 'c', 3)\nreturn arrayNew(x, p(), p('b', 5))", [{'a': 1.0, 'b': 2.0, 'c': 3.0}, {'a': 1.0}, {'a': 1.0, 'b': 5.0}])):
        ck.cell('R1 binding', nm, where, lambda it, src=src: it.call(es, [it.call(ps, [src], {}), {'globals': {}}], {}), lambda p, want=want: (
            p.kind == 'return' and (ck.it.same(p.value, want) if ck.it.same(p.value, want) is not False else p.value == want), f'{show(p.value)}, expected {show(want)}'))

    # R2 scoping: all small programs over one name
    tops = {'set': "x = 'T'", 'log': "log('t', x)", 'f': 'f(1)', 'g': 'g()', 'copy': 'y = x'}
    fs = {'set': "x = 'F'", 'log': "log('f', x)", 'g': 'g()', 'copy': 'y = x', 'gset': "systemGlobalSet('x', 'S')", 'log y': "log('fy', y)"}
    gs = {'log': "log('g', x, y)", 'set': "x = 'G'\nlog('g', x)", 'copy': 'y = x\nx = y'}
    for par in ('', 'x', 'n', 'y, x'):
        for g in gs:
            for nf in range(3):
                for f in itertools.product(fs, repeat=nf):
                    for top in itertools.product(tops, repeat=2 if not ck.thorough else 3):
                        if 'f' not in top and 'g' not in top:
                            continue
                        src = '\n'.join([f'function f({par}):'] + [fs[s] for s in f] + ['endfunction', 'function g():', gs[g], 'endfunction'] + [tops[s] for s in top] + ["log('end', x, y)"])
                        script('R2 scoping', f'f({par}) {f} g {g} top {top}', src, (lambda: {'x': sym('x0')}) if len(f) % 2 else None)
    # activations, includes and callbacks
    for src in ("function r(n):\nx = n\nif n > 0:\nr(n - 1)\nendif\nlog('r', n, x)\nreturn x\nendfunction\nreturn r(3)",
                "function r(n, a...):\nif n > 0:\nr(n - 1, n, a)\nendif\nlog(n, a)\nendfunction\nr(2)",
                "function f():\nx = 1\ninclude 'set'\nlog('f', x)\nendfunction\nf()\nlog('top', x)",
                "include 'set'\nlog(x)\ninclude 'fn'\nx = 9\nfn(3)\nlog(x)",
                "function f(x):\ninvoke(g, 1)\nlog('f', x)\nendfunction\nfunction g(y):\nlog('g', x, y)\nx = y\nendfunction\nf(7)\nlog('top', x)",
                "function cmp(a, b):\nx = a\nlog('cmp', x)\nreturn a - b\nendfunction\nx = 'T'\narraySort(arrayNew(2, 1), cmp)\nlog(x)",
                "function f():\nfunctionLocal = 1\nendfunction\nf()\nlog(functionLocal)",
                "x = 1\nfunction f():\nlog(x)\nx = x + 1\nlog(x)\nendfunction\nf()\nf()\nlog(x)",
                "function f():\nfor v, i in arrayNew(1, 2):\nw = v\nendfor\nlog(v, i, w)\nendfunction\nf()\nlog(v, i, w)",
                "for v, i in arrayNew(1, 2):\nendfor\nlog(v, i)",
                "function f():\nlog(systemGlobalGet('x'))\nx = 2\nlog(systemGlobalGet('x'), x)\nsystemGlobalSet('x', 3)\nlog(systemGlobalGet('x'), x)\nendfunction\nx = 1\nf()\nlog(x)",
                "function f():\nx = 1\ng = log\ng(x)\nendfunction\nfunction g(v):\nlog('global g', v)\nendfunction\nf()\ng(2)",
                "function f():\ng = 5\nreturn g(1)\nendfunction\nfunction g(v):\nlog('global g', v)\nreturn v\nendfunction\nreturn arrayNew(f(), g(2))",
                "function f():\ng = null\nreturn g(1)\nendfunction\nfunction g(v):\nlog('global g', v)\nendfunction\nreturn f()"):
        for lay in (0, 1):
            script('R2 scoping', f'{src} {lay}', src, (lambda: {'x': sym('x0')}) if lay else None,
                   fetch={'set': "x = 'I'\ny = x", 'fn': "function fn(x):\nlog('fn', x)\nx = 4\nz = x\nlog('fn', x, z)\nendfunction\nz = 'Z'"})

    # R3 injection: names of the caller stay, all others are added
    kinds = [('null', lambda: None), ('false', lambda: False), ('zero', lambda: 0.0), ('empty', lambda: ''), ('opaque', lambda: sym('mine')), ('function', lambda: HostFn('mine', lambda i, a, k: 'mine'))]
    for name in library:
        for kn, mk in kinds:
            def thunk(it, name=name, mk=mk):
                v = mk()
                g = {name: v}
                opts = {'globals': g}
                it.call(es, [{'statements': [assign('q', num(1))]}, opts], {})
                kept = g[name] is v or g[name] == v and not hasattr(v, 'fn')
                return kept, opts['globals'] is g, sorted(k for k in library if k != name and g.get(k) is not library[k]), sorted(set(g) - set(library) - {"q"}, key=repr), g.get('q'), len(it.state_changes())
            ck.cell('R3 injection', f'{name} {kn}', where, thunk, lambda p: (p.kind == 'return' and p.value[0] and p.value[1] and not p.value[2] and not p.value[3] and p.value[4] == 1.0 and not p.value[5], f'{p.value}'))
    for nm, mk in (('no options', lambda: None), ('empty options', dict), ('null globals', lambda: {'globals': None}), ('empty globals', lambda: {'globals': {}})):
        for src in ('x = 1\nreturn x', 'return arrayLength(arrayNew(1, 2))', 'function f():\nx = 2\nreturn y\nendfunction\nx = 1\ny = 5\nreturn f() + x'):
            def thunk(it, mk=mk, src=src):
                m = it.call(ps, [src], {})
                o = mk()
                a = outcome(it, es, m, *([o] if o is not None else []))
                g = o.get('globals') if o else None
                b = outcome(it, es, m, {'globals': {}})
                return a, b, g, src, len(it.state_changes())
            ck.cell('R3 injection', f'{nm} {src}', where, thunk, lambda p: (p.kind == 'return' and p.value[0] == p.value[1] and p.value[0][0] == 'ok' and p.value[0][1] is not None and not p.value[4], f'{p.value}'))

    # R4 a script function replaces a library function of the same name, for this run only
    for name in library:
        src = (f"function before(v):\nreturn {name}(v)\nendfunction\nfunction {name}(v):\nlog('mine', v)\nreturn v\nendfunction\n"
               f"h = {name}\nreturn before(1) + {name}(2) + h(3)")
        script('R4 replacement', name, src)
        script('R4 replacement', f'{name} by an include', f"include 'i'\nlog({name}(2))", fetch={'i': f"function {name}(v):\nreturn v\nendfunction"})
        script('R4 replacement', f'{name} by assignment', f"function f(v):\nreturn v\nendfunction\n{name} = f\nlog({name}(2))")
        script('R4 replacement', f'{name} as a local', f"function f(v):\nreturn v\nendfunction\nfunction k():\n{name} = f\nreturn {name}(2)\nendfunction\nlog(k())")

    # R5 lookup of function names in expressions
    binds = [('function', True), ('null', False), ('opaque', None), ('number', False), ('array', False)]

    def value(kind, tag, trace):
        if kind == 'function':
            return HostFn(tag, lambda i, a, k: trace.append((tag, tuple(a[0]))) or tag)
        return {'null': None, 'opaque': sym(tag, 'dict'), 'number': 3.0, 'array': []}[kind]

    for name in builtin:
        if name == 'if':
            continue
        for lk in (None, 'function', 'null', 'number', 'array'):
            for gk in (None, 'function', 'null', 'opaque', 'number'):
                if lk is None and gk is None:
                    continue
                for b in (True, False):
                    def thunk(it, name=name, lk=lk, gk=gk, b=b):
                        trace = []
                        loc = {name: value(lk, 'local', trace)} if lk else {}
                        glo = {name: value(gk, 'global', trace)} if gk else {}
                        it.overrides.clear()
                        o = outcome(it, ev, fcall(name, num(1), string('s')), {'globals': glo}, loc, b)
                        return o, trace

                    def judge(p, lk=lk, gk=gk):
                        if p.kind != 'return':
                            return False, f'raises {p.value!r}'
                        o, trace = p.value
                        k, tag = (lk, 'local') if lk else (gk, 'global')
                        if k == 'function':
                            return o == ('ok', tag) and trace == [(tag, (1.0, 's'))], f'{o} {trace}'
                        if k == 'null':
                            return o[0] == 'runtime' and not trace, f'{o} {trace}'
                        return o == ('ok', None) and not trace, f'{o} {trace}'
                    ck.cell('R5 shadowing', f'{name} local={lk} global={gk} builtins={b}', ck.where(ev), thunk, judge)
        script('R5 shadowing', f'{name} in script mode', f"return {name}('a', 1)") if name not in library else None
        for kind in ('options', 'no options'):
            def thunk(it, name=name, kind=kind):
                trace = []
                loc = {name: value('function', 'local', trace)}
                args = [fcall(name, num(1), string('s')), {'globals': {}} if kind == 'options' else None, loc]
                return outcome(it, ev, *args), trace
            ck.cell('R5 shadowing', f'{name} local {kind}', ck.where(ev), thunk, lambda p: (p.kind == 'return' and p.value == (('ok', 'local'), [('local', (1.0, 's'))]), f'{p.value}'))
    # variables: locals first, then globals, then null
    for lk, gk in itertools.product((None, 'null', 'opaque', 'number', 'array'), repeat=2):
        for nm in ('x', 'abs', 'arrayNew', 'len', 'globals', 'self'):
            def thunk(it, lk=lk, gk=gk, nm=nm):
                tr = []
                lv, gv = value(lk, 'local', tr) if lk else None, value(gk, 'global', tr) if gk else None
                want = lv if lk else gv
                got = [outcome(it, ev, var(nm), {'globals': {nm: gv} if gk else {}}, {nm: lv} if lk else {}, b) for b in (True, False)]
                if not lk:
                    got.append(outcome(it, ev, var(nm), {'globals': {nm: gv} if gk else {}}))
                if not gk:
                    got.append(outcome(it, ev, var(nm), None, {nm: lv} if lk else {}))
                return got, want
            ck.cell('R5 shadowing', f'variable {nm} local={lk} global={gk}', ck.where(ev), thunk,
                    lambda p: (p.kind == 'return' and all(o[0] == 'ok' and (o[1] is p.value[1] or o[1] == p.value[1]) for o in p.value[0]), f'{p.value}'))
    _ = binds
    return ck.finish()
