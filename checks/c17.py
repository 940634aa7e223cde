"""C17 Includes resolve relative to the including file and run in global scope"""

import argparse
import importlib.resources
import itertools
import os
import random
import urllib.request

from absint.values import HostFn, HostObj, PyExc, show

from .common import Check
from .lab import binary, fcall, num, string, var
from .refrun import Ref, RefRun, allof, matches, norm_path, outcome, resolve

TECHNIQUE = 'abstract interpretation of include execution over enumerated include trees in a virtual file system, against the resolution rules'
NOTE = ('Chains to depth 4 over every reference style x base x system prefix, fan-out-3 trees, failures at every depth, includes in functions, loops and branches, '
        'debug runs, the parsing of include statements and the command line are abstractly executed; fetched locations, log sequence, globals, result and error '
        'must be those of the documented semantics. POSIX paths only; the network and the disk are models.')


# -- files: (text, model) built from one description ----------------------------------------------------

def quote(s):
    return "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"


def build(stmts, indent=''):
    """(lines, statements) of a description"""
    lines, model = [], []
    for s in stmts:
        k = s[0]
        if k == 'log':
            lines.append(f'{indent}log({quote(s[1])})')
            model.append({'expr': {'expr': fcall('log', string(s[1]))}})
        elif k == 'logv':
            lines.append(f'{indent}log({quote(s[1])}, {s[1]})')
            model.append({'expr': {'expr': fcall('log', string(s[1]), var(s[1]))}})
        elif k == 'set':
            lines.append(f'{indent}{s[1]} = {quote(s[2])}')
            model.append({'expr': {'name': s[1], 'expr': string(s[2])}})
        elif k == 'inc':
            system = len(s) > 2 and s[2]
            lines.append(f'{indent}include <{s[1]}>' if system else f'{indent}include {quote(s[1])}')
            inc = {'url': s[1], 'system': True} if system else {'url': s[1]}
            if model and 'include' in model[-1]:
                model[-1]['include']['includes'].append(inc)
            else:
                model.append({'include': {'includes': [inc]}})
        elif k == 'return':
            lines.append(indent + ('return ' + quote(s[1]) if len(s) > 1 else 'return'))
            model.append({'return': {'expr': string(s[1])}} if len(s) > 1 else {'return': {}})
        elif k == 'call':
            lines.append(f'{indent}w = {s[1]}({quote(s[2]) if len(s) > 2 else ""})')
            model.append({'expr': {'name': 'w', 'expr': fcall(s[1], *([string(s[2])] if len(s) > 2 else []))}})
        elif k == 'def':
            body = build(s[2], '    ')
            args = s[3] if len(s) > 3 else ()
            lines += [f'function {s[1]}({", ".join(args)}):', *body[0], 'endfunction']
            model.append({'function': {'name': s[1], **({'args': list(args)} if args else {}), 'statements': body[1]}})
        elif k == 'fetch':
            lines.append(f'{indent}systemFetch({quote(s[1])})')
            model.append({'expr': {'expr': fcall('systemFetch', string(s[1]))}})
        elif k == 'raw':
            lines += s[1]
            model += s[2]
        else:
            raise AssertionError(k)
    return lines, model


class Files:
    """A virtual file system: location -> description; text and model of each"""

    def __init__(self, files):
        self.text, self.model = {}, {}
        for url, d in files.items():
            if isinstance(d, str):
                self.text[url] = d
            elif d is None or isinstance(d, BaseException):
                self.text[url] = d
            else:
                lines, model = build(d)
                t = '\n'.join(lines)
                self.text[url] = t
                self.model[t] = {'statements': model}

    def fetch(self, url):
        t = self.text.get(url)
        return None if isinstance(t, BaseException) else t

    def parse(self, text):
        return self.model.get(text)


def canon(url):
    """One spelling per location"""
    if ':' in url.split('/', 1)[0]:
        return url
    return norm_path(url) if url else url


STYLES = [('same', 'b{}.bare', False), ('down', 'd{}/b.bare', False), ('up', '../u{}.bare', False), ('absolute', '/abs/{}/b.bare', False),
          ('url', 'https://h{}.com/p/b.bare', False), ('system', 's{}.bare', True), ('system down', 'sd/s{}.bare', True)]
BASES = [None, 'main.bare', 'dir/main.bare', '/root/a/main.bare', 'https://host.org/x/main.bare', 'file:///q/main.bare']
PREFIXES = [None, ':sys:/', '/opt/lib/', 'https://cdn.net/lib/', 'lib/']


def run(prop, tier):
    ck = Check(prop, tier, 'include trees x bases x system prefixes over a virtual file system; fetched locations, log sequence, globals, result, error, option '
               'values against the documented semantics; a cell is one tree and configuration')
    es, parse = ck.fn('runtime', 'execute_script'), ck.fn('parser', 'parse_script')
    ufr = ck.fn('options', 'url_file_relative')
    library = ck.mod('library').env['SCRIPT_FUNCTIONS']
    ref = Ref(ck)
    where = ck.where(es)
    partial = __import__('functools').partial

    # R1 resolution of one path against one file
    files = ['m.bare', 'a/m.bare', 'a/b/m.bare', '/m.bare', '/a/m.bare', '/a/b/m.bare', './m.bare', './a/m.bare', '../m.bare', '../a/m.bare', 'https://h/m.bare',
             'https://h/a/m.bare', 'https://h/a/b/m.bare', 'http://h/a/', 'https://h/', 'file:///a/m.bare', 'a/', '/a/', 'lib/x/', ':sys:/', ':bare-include:/',
             ':bare-include:/x/', 'a:b/m.bare', 'data:x/y', 'a.b/m.bare', 'a b/m.bare', 'http/m.bare', 'https://h/a.b/c:d/m.bare', ':sys:/d/m.bare', '-c 1', 'm']
    urls = ['b.bare', 'a/b.bare', 'a/c/b.bare', '../b.bare', '../../b.bare', './b.bare', '/b.bare', '/a/b.bare', '/', 'https://x/b.bare', 'http://x/y/b.bare', 'file:///b.bare',
            'mailto:x', 'a/../b.bare', 'b', 'b.x.y', 'a b.bare', 'a//b.bare', '/a//b.bare', './/b.bare', '.b', '..b/c', 'a/./b.bare', '/a/./b.bare', 'x/https://h/b.bare',
            'c%20d.bare', 'b.bare?q=1', '/b:c', 'é.bare', '/a/b/']
    for f, u in itertools.product(files, urls):
        def thunk(it, f=f, u=u):
            return it.call(ufr, [f, u], {})

        def judge(p, f=f, u=u):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            want = resolve(f, u)
            got = p.value
            if isinstance(got, str):
                if got == want:
                    return True
                if canon(got) == canon(want):
                    return True
                if os.path.normpath(got) == os.path.normpath(want) and '://' not in want:
                    return None, f'{got!r} for {want!r}'
                return False, f'{got!r}, expected {want!r}'
            return ck.it.same(got, want), f'{show(got)}'
        ck.cell('R1 resolution', f'{u!r} against {f!r}', ck.where(ufr), thunk, judge)

    # -- one configuration
    def hosts(trace):
        def log(i, a, kw):
            trace.append(('log', *a[0]))
            return None
        return {'log': HostFn('log', log)}

    def strip(g):
        return {k: v for k, v in g.items() if not (k in library and v is library[k]) and k not in ('log', 'systemFetch')}

    def cell(rule, name, fs, main, base=None, prefix=None, debug=False, nofetch=False, extra=None, limit=None, twice=False):
        """`main` a description; `fs` Files or a function making them given the locations"""
        lines, stmts = build(main)
        text = '\n'.join(lines)
        model = {'statements': stmts}

        def thunk(it):
            got, want, opts_kept = [], [], []
            trace = []
            g = {**hosts(trace), **(dict(extra) if extra else {})}
            reqs = []

            def fetch(i, a, kw):
                u = a[0]['url'] if isinstance(a[0], dict) else None
                trace.append(('fetch', u))
                reqs.append(a[0])
                t = fs.text.get(u)
                if isinstance(t, BaseException):
                    raise PyExc(t)
                return t
            logs = []
            opts = {'globals': g, 'fetchFn': HostFn('fetch', fetch), 'logFn': HostFn('logFn', lambda i, a, kw: logs.append(a[0]))}
            if nofetch:
                del opts['fetchFn']
            if limit is not None:
                opts['maxStatements'] = limit
            if debug:
                opts['debug'] = True
            else:
                del opts['logFn']
            if prefix is not None:
                opts['systemPrefix'] = prefix
            if base is not None:
                opts['urlFn'] = it.call(partial, [ufr, base], {})
            before = {k: v for k, v in opts.items() if k not in ('globals',)}
            script = it.call(parse, [text], {})
            for _ in range(2 if twice else 1):
                o = outcome(it, es, script, opts)
                got.append((o, list(trace), strip(g)))
                opts_kept.append(all(k in opts and opts[k] is v for k, v in before.items()) and not set(opts) - set(before) & {'urlFn', 'systemPrefix', 'fetchFn', 'logFn', 'debug', 'maxStatements'})
                trace.clear()
            tr = []
            g2 = {**hosts(tr), **(dict(extra) if extra else {})}

            def rfetch(u):
                tr.append(('fetch', u))
                return fs.fetch(u)
            rr = RefRun(ref, it, g2, limit or 0, fetch=None if nofetch else rfetch, parse=fs.parse, prefix=prefix, base=base)
            g2['systemFetch'] = HostFn('systemFetch', lambda i, a, k: rfetch(resolve(rr.current, a[0][0])))
            for _ in range(2 if twice else 1):
                w = rr.run(model)
                want.append((w, list(tr), strip(g2)))
                tr.clear()
            return got, want, opts_kept, reqs, logs

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            got, want, kept, reqs, logs = p.value
            it = ck.it
            res = True
            for n, ((o, tr, g), (w, wtr, wg)) in enumerate(zip(got, want)):
                run_ = f'run {n + 1}: ' if n else ''
                a = [x if x[0] != 'fetch' or not isinstance(x[1], str) else ('fetch', canon(x[1])) for x in tr]
                b = [x if x[0] != 'fetch' else ('fetch', canon(x[1])) for x in wtr]
                r = matches(it, a, b)
                if r is False:
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if matches(it, x, y) is False), min(len(a), len(b)))
                    return False, f'{run_}event {i}: {show(a[i:i + 3])}, expected {show(b[i:i + 3])}'
                if w[0] == 'parser':
                    ok = o[0] == 'parser' and isinstance(o[1], str)
                    if not ok:
                        return False, f'{run_}{show(o)[:300]}, expected a parser error naming {w[1]!r}'
                    loc = next((x[1] for x in reversed(tr) if x[0] == 'fetch'), w[1])
                    r2 = loc in o[1] or w[1] in o[1]
                    if not r2:
                        return False, f'{run_}the parser error does not name {w[1]!r}: {o[1][:300]!r}'
                elif w[0] == 'runtime' and w[1].startswith('Include of'):
                    if o[0] != 'runtime':
                        return False, f'{run_}{show(o)[:300]}, expected a runtime error naming the location: {w[1]}'
                    loc = w[1][len('Include of "'):-len('" failed')]
                    got_loc = next((x[1] for x in reversed(tr) if x[0] == 'fetch'), loc)
                    if isinstance(o[1], str) and loc not in o[1] and got_loc not in o[1]:
                        return False, f'{run_}the runtime error does not name {loc!r}: {o[1]!r}'
                else:
                    r2 = matches(it, o, w)
                    if r2 is False:
                        return False, f'{run_}result {show(o)[:300]}, expected {show(w)[:300]}'
                    r = allof((r, r2))
                r2 = matches(it, g, wg) if list(g) == list(wg) else matches(it, {k: g[k] for k in sorted(g)}, {k: wg[k] for k in sorted(wg)})
                if r2 is False:
                    return False, f'{run_}globals {show(g)[:300]}, expected {show(wg)[:300]}'
                if not kept[n]:
                    return False, f'{run_}the options given by the caller are changed'
                res = allof((res, r, r2))
            if it.state_changes():
                return False, 'module-level containers differ after the run'
            return res, ''
        ck.cell(rule, name, where, thunk, judge, max_paths=16)

    # R2 chains: every style at every depth; after each include the includer refers to a sibling of its own
    def chain(styles, base, prefix):
        """A chain of files and, per file, a sibling included after the chain's next file"""
        files = {}
        main = None
        cur = base
        locs = [base]
        for i, (_, pat, system) in enumerate(styles):
            u = pat.format(i)
            cur = resolve(prefix, u) if system and prefix is not None else resolve(cur, u)
            locs.append(cur)
        for i in range(len(styles), -1, -1):
            here = [('log', f'in {i}'), ('set', f'v{i}', 'x')]
            if i < len(styles):
                _, pat, system = styles[i]
                here += [('inc', pat.format(i), system), ('log', f'back {i}'), ('inc', f'sib{i}.bare'), ('logv', f'v{i + 1}'), ('inc', f'e/sib{i}.bare'), ('fetch', f'f/data{i}.json')]
                for s in (f'sib{i}.bare', f'e/sib{i}.bare'):
                    files[resolve(locs[i], s)] = [('log', f'{s} of {i}')]
            here += [('log', f'out {i}')] + ([('fetch', 'end.json')] if i % 2 else [])
            if i == 0:
                main = here
            else:
                files[locs[i]] = here + ([('return',), ('log', 'not reached')] if i % 2 else [])
        return Files(files), main

    depth = 4 if ck.thorough else 3
    for n in range(1, depth + 1):
        for styles in itertools.product(STYLES, repeat=n):
            if n > 2 and any(s[0] == 'system down' for s in styles[:-1]):
                continue
            pre = PREFIXES if any(s[2] for s in styles) else [None]
            if n == 4:
                pre = pre[:2]
            elif n == 3 and not ck.thorough:
                pre = pre[:1] + [pre[1 + (sum(map(len, [s[0] for s in styles])) % 4)]] if len(pre) > 1 else pre
            bases = BASES if n < 3 or ck.thorough and n < 4 else [BASES[(sum(map(len, [s[0] for s in styles])) + k) % len(BASES)] for k in (0, 3)]
            for base, prefix in itertools.product(bases, pre):
                fs, main = chain(styles, base, prefix)
                cell('R2 chains', f'{" > ".join(s[0] for s in styles)} from {base} prefix {prefix}', fs, main, base, prefix)
    if not ck.thorough:
        rng = random.Random(4)
        for _ in range(200):
            styles = [rng.choice(STYLES) for _ in range(4)]
            base, prefix = rng.choice(BASES), rng.choice(PREFIXES)
            fs, main = chain(styles, base, prefix)
            cell('R2 chains', f'{" > ".join(s[0] for s in styles)} from {base} prefix {prefix}', fs, main, base, prefix)

    # R3 trees: fan-out to 3, depth to 4, mixed styles, returns inside, the same file included from several places
    def tree(rng, base, prefix, depth_, fan):
        files = {}
        count = [0]

        def node(loc, d):
            me = count[0]
            count[0] += 1
            here = [('log', f'in {me}')]
            kids = rng.randint(1, fan) if d else 0
            for k in range(kids):
                _, pat, system = rng.choice(STYLES)
                u = pat.format(f'{me}x{k}' if rng.random() < .8 else 'same')
                to = resolve(prefix, u) if system and prefix is not None else resolve(loc, u)
                if to not in files:
                    files[to] = []         # cut cycles
                    files[to] = node(to, d - 1)
                here.append(('inc', u, system))
                if rng.random() < .5:
                    here.append(('log', f'after {me} {k}'))
                if rng.random() < .3:
                    here.append(('set', f'g{rng.randint(0, 3)}', f'{me} {k}'))
                if rng.random() < .15 and d < depth_:
                    here.append(('return', 'inner'))
            here.append(('log', f'out {me}'))
            return here
        main = node(base, depth_)
        return Files(files), main
    trees = 600 if ck.thorough else 120
    rng = random.Random(17)
    for i in range(trees):
        base, prefix = rng.choice(BASES), rng.choice(PREFIXES)
        d, fan = rng.choice(((2, 3), (3, 2), (4, 2), (3, 3), (4, 1)))
        fs, main = tree(rng, base, prefix, d, fan)
        if len(fs.text) > 40 or sum(len(t) for t in fs.text.values()) > 12000:
            continue
        cell('R3 trees', f'tree {i} from {base} prefix {prefix}', fs, main, base, prefix)
    # a file included several times, in one statement and in several
    for base, prefix in itertools.product(BASES, PREFIXES[:2]):
        for nm, main in (('twice', [('inc', 'a.bare'), ('inc', 'a.bare'), ('log', 'end')]), ('apart', [('inc', 'a.bare'), ('log', 'mid'), ('inc', 'a.bare')]),
                         ('spelt', [('inc', 'a.bare'), ('inc', 'd/../a.bare'), ('log', 'end')]),
                         ('three kinds', [('inc', 'a.bare'), ('inc', 'a.bare', True), ('inc', 'd/a.bare'), ('log', 'end')])):
            fs = {resolve(base, 'a.bare'): [('log', 'a'), ('inc', 'b.bare'), ('log', 'a2')], resolve(base, 'd/../a.bare'): [('log', 'spelt')],
                  resolve(base, 'd/a.bare'): [('log', 'da'), ('inc', 'b.bare')], resolve(base, 'b.bare'): [('log', 'b')], resolve(base, 'd/b.bare'): [('log', 'db')]}
            if prefix:
                fs.update({resolve(prefix, 'a.bare'): [('log', 'sys a'), ('inc', 'b.bare')], resolve(prefix, 'b.bare'): [('log', 'sys b')]})
            cell('R3 trees', f'{nm} from {base} prefix {prefix}', Files(fs), main, base, prefix, twice=True)

    # R4 failures: at every depth, of every kind; the script run afterwards starts from the caller's own base
    bad = [('missing', None), ('null', None), ('throws', ValueError('no')), ('os error', OSError(2, 'No such file')), ('key error', KeyError('url')),
           ('syntax', 'x = 1 +\n'), ('unclosed', 'log(\'in\')\nif true:\n'), ('late syntax', "log('never')\nfoo bar\n"), ('unterminated', "a = 'abc\n"), ('continued', 'a = 1 + \\\n')]
    for (nm, content), d, fail in itertools.product(bad, (1, 2, 3), ('same', 'down', 'url', 'system', 'absolute')):
        style = {s[0]: s for s in STYLES}
        for base, prefix in ((None, None), ('dir/main.bare', ':sys:/'), ('https://host.org/x/main.bare', 'https://cdn.net/lib/')):
            for before in ('down', 'url'):
                if d == 1 and before == 'url' or not ck.thorough and d == 3 and before == 'down':
                    continue
                fs, main = chain([style[before]] * (d - 1) + [style[fail]], base, prefix)
                cur = base
                for i in range(d):
                    _, pat, system = (style[fail] if i == d - 1 else style[before])
                    u = pat.format(i)
                    cur = resolve(prefix, u) if system and prefix is not None else resolve(cur, u)
                if nm == 'missing':
                    fs.text.pop(cur, None)
                else:
                    fs.text[cur] = content
                cell('R4 failures', f'{nm}: {fail} at depth {d} after {before} from {base}', fs, main, base, prefix, twice=True)
    for base in BASES:
        cell('R4 failures', f'no fetch function from {base}', Files({}), [('log', 'a'), ('inc', 'a.bare'), ('log', 'b')], base, nofetch=True)
        cell('R4 failures', f'no fetch function, system, from {base}', Files({}), [('log', 'a'), ('inc', 'a.bare', True), ('log', 'b')], base, ':sys:/', nofetch=True)
        # a runtime error and an unknown function inside an included file end the run; the statement limit spans files
        fs = Files({resolve(base, 'a/a.bare'): [('log', 'a'), ('call', 'nothing'), ('log', 'never')]})
        cell('R4 failures', f'undefined function in an included file from {base}', fs, [('inc', 'a/a.bare'), ('log', 'never')], base, twice=True)
        fs = Files({resolve(base, 'a/a.bare'): [('log', 'a'), ('inc', 'b.bare'), ('log', 'a2')], resolve(base, 'a/b.bare'): [('log', 'b'), ('log', 'b2')]})
        for lim in range(1, 9):
            cell('R4 failures', f'limit {lim} across files from {base}', fs, [('log', 'm'), ('inc', 'a/a.bare'), ('log', 'm2')], base, limit=lim, twice=True)
        # an empty file, a comment, blank lines, CRLF
        for nm, t, m in (('empty', '', []), ('comment', '# x', []), ('blank', '\n\n', []), ('crlf', "log('x')\r\nlog('y')\r\n", build([('log', 'x'), ('log', 'y')])[1])):
            fs = Files({})
            fs.text[resolve(base, 'a.bare')] = t
            fs.model[t] = {'statements': m}
            cell('R4 failures', f'{nm} file from {base}', fs, [('inc', 'a.bare'), ('log', 'm2')], base)

    # R5 scope: global scope from functions, loops and branches; functions defined by included files
    ref_a = [('log', 'a'), ('set', 'x', 'included'), ('set', 'y', 'new'), ('logv', 'x'), ('logv', 'p'), ('return', 'inner'), ('log', 'never')]
    for base in BASES:
        a = resolve(base, 's/a.bare')
        b = resolve(base, 's/b.bare')
        fs = Files({a: ref_a, b: [('log', 'b')]})
        mains = [
            ('top', [('set', 'x', 'main'), ('inc', 's/a.bare'), ('logv', 'x'), ('logv', 'y')]),
            ('function', [('set', 'x', 'main'), ('def', 'f', [('set', 'x', 'local'), ('inc', 's/a.bare'), ('logv', 'x'), ('logv', 'y'), ('log', 'end f'), ('return', 'r')], ['p']),
                          ('call', 'f', 'arg'), ('logv', 'x'), ('logv', 'y'), ('logv', 'w')]),
            ('function twice', [('def', 'f', [('inc', 's/a.bare'), ('inc', 's/b.bare'), ('logv', 'p')], ['p']), ('call', 'f', '1'), ('call', 'f', '2')]),
            ('nested call', [('def', 'g', [('set', 'y', 'g'), ('inc', 's/a.bare'), ('logv', 'y')]), ('def', 'f', [('set', 'x', 'f'), ('call', 'g'), ('logv', 'x')], ['p']), ('call', 'f', '1')]),
            ('result', [('inc', 's/a.bare'), ('return', 'outer')]),
            ('no result', [('inc', 's/a.bare')]),
            ('loop', [('raw', ["n = 0", "while n < 3:", "    include 's/b.bare'", "    n = n + 1", "endwhile"],
                       [{'expr': {'name': 'n', 'expr': num(0)}}, {'jump': {'label': '__d', 'expr': {'unary': {'op': '!', 'expr': binary('<', var('n'), num(3))}}}},
                        {'label': '__l'}, {'include': {'includes': [{'url': 's/b.bare'}]}}, {'expr': {'name': 'n', 'expr': binary('+', var('n'), num(1))}},
                        {'jump': {'label': '__l', 'expr': binary('<', var('n'), num(3))}}, {'label': '__d'}])]),
            ('branch', [('raw', ["if false:", "    include 's/missing.bare'", "else:", "    include 's/b.bare'", "endif"],
                         [{'include': {'includes': [{'url': 's/b.bare'}]}}])]),
            ('jumped over', [('raw', ["jump after", "include 's/missing.bare'", "after:"], [{'jump': {'label': 'after'}}, {'label': 'after'}]), ('inc', 's/b.bare')]),
            ('after return', [('inc', 's/b.bare'), ('return', 'r'), ('inc', 's/missing.bare')]),
            ('labels', [('raw', ["jump a", "include 's/b.bare'", "a:", "include 's/l.bare'"],
                         [{'jump': {'label': 'a'}}, {'label': 'a'}, {'include': {'includes': [{'url': 's/l.bare'}]}}]), ('log', 'end')]),
        ]
        fs.text[resolve(base, 's/l.bare')] = "log('l')\njump b\nlog('no')\nb:\nlog('b')\na:\nlog('la')"
        fs.model[fs.text[resolve(base, 's/l.bare')]] = {'statements': [*build([('log', 'l')])[1], {'jump': {'label': 'b'}}, *build([('log', 'no')])[1], {'label': 'b'},
                                                                       *build([('log', 'b')])[1], {'label': 'a'}, *build([('log', 'la')])[1]]}
        for nm, main in mains:
            for deb in (False, True):
                if nm in ('loop', 'branch', 'jumped over') and deb:
                    continue
                cell('R5 scope', f'{nm} from {base}{" debug" if deb else ""}', fs, main, base, debug=deb, twice=nm in ('result', 'no result', 'function'), limit=200)
        # definitions: a function of an included file, called by the includer and by another included file, whose body includes
        style = {s[0]: s for s in STYLES}
        for how, prefix in itertools.product(('down', 'url', 'absolute', 'up', 'system'), (None, ':sys:/')):
            _, pat, system = style[how]
            u = pat.format('L')
            lib = resolve(prefix, u) if system and prefix is not None else resolve(base, u)
            other = resolve(base, 'other/o.bare')
            fs = Files({lib: [('def', 'f', [('log', 'in f'), ('inc', 'part.bare'), ('logv', 'p'), ('return', 'done')], ['p']), ('log', 'lib')],
                        resolve(lib, 'part.bare'): [('log', 'part'), ('inc', 'q/part2.bare')], resolve(lib, 'q/part2.bare'): [('log', 'part2')],
                        other: [('log', 'o'), ('call', 'f', '2'), ('inc', 'p.bare')], resolve(other, 'p.bare'): [('log', 'p of o')],
                        resolve(base, 'm.bare'): [('log', 'm')]})
            main = [('inc', u, system), ('call', 'f', '1'), ('inc', 'other/o.bare'), ('call', 'f', '3'), ('inc', 'm.bare'), ('logv', 'w')]
            cell('R5 scope', f'a function of an included file ({how}, prefix {prefix}) includes, from {base}', fs, main, base, prefix)
            main = [('def', 'f', [('log', 'f'), ('inc', 'm.bare')], ['p']), ('inc', 'other/o.bare'), ('call', 'f', '3'), ('inc', u, system)]
            fs = Files({lib: [('call', 'f', '1'), ('inc', 'part.bare')], resolve(lib, 'part.bare'): [('log', 'part')], resolve(base, 'm.bare'): [('log', 'm')],
                        other: [('log', 'o'), ('call', 'f', '2'), ('inc', 'p.bare')], resolve(other, 'p.bare'): [('log', 'p of o')]})
            cell('R5 scope', f'a function of the includer called by an included file ({how}, prefix {prefix}), from {base}', fs, main, base, prefix)

    # every include statement runs what was fetched for it, also when a location gives another text the next time
    for base in BASES:
        for nm, text, n in (('twice', "include 'a.bare'\ninclude 'a.bare'", 2), ('apart', "include 'a.bare'\nx = 1\ninclude 'a.bare'", 2), ('function', "function f():\ninclude 'a.bare'\nendfunction\nf()\nf()\nf()", 3),
                            ('loop', "i = 0\nwhile i < 3:\ninclude 'a.bare'\ni = i + 1\nendwhile", 3), ('other spelling', "include 'a.bare'\ninclude 'd/../a.bare'\ninclude 'a.bare'", 3), ('nested', "include 'a.bare'\ninclude 'n.bare'\ninclude 'a.bare'", 3),
                            ('after a failure', "include 'a.bare'\nlast = 'm'\ninclude 'a.bare'", 2)):
            for debug in (False, True):
                def thunk(it, text=text, base=base, debug=debug):
                    got, count = [], [0]

                    def fetch(i, a, kw):
                        if a[0]['url'].endswith('n.bare'):
                            return "include 'a.bare'"
                        count[0] += 1
                        return f"log('{count[0]}')\nlast = '{count[0]}'"
                    opts = {'globals': {'log': HostFn('log', lambda i, a, kw: got.append(a[0][0]))}, 'fetchFn': HostFn('fetch', fetch), 'logFn': HostFn('logFn', lambda i, a, kw: None), 'debug': debug}
                    if base is not None:
                        opts['urlFn'] = it.call(partial, [ufr, base], {})
                    o = outcome(it, es, it.call(parse, [text], {}), opts)
                    return o, got, opts['globals'].get('last')
                ck.cell('R3 trees', f'changing text, {nm} from {base} debug={debug}', where, thunk, lambda p, n=n: (
                    p.kind == 'return' and p.value == (('ok', None), [str(k + 1) for k in range(n)], str(n)), f'{p!r}, expected {n} texts in turn'), max_paths=4)

    # R8 a host's own URL function: applied once to each plain include of the main script, never to a system include or inside an included file
    for prefix in (None, ':sys:/', '/sys/', 'https://cdn.net/lib/', 'sys/'):
        for u, system in itertools.product(('a.bare', 'd/a.bare', '../a.bare', '/abs/a.bare', 'https://host.org/a.bare', './a.bare', ':x:/a.bare', 'a'), (False, True)):
            for inner, isys in (('b.bare', False), ('d/b.bare', False), ('/abs/b.bare', False), ('https://host.org/b.bare', False), ('b.bare', True), ('/abs/b.bare', True), ('https://host.org/b.bare', True)):
                for place in ('top', 'function'):
                    if place == 'function' and (inner != 'b.bare' or isys):
                        continue
                    mapped = lambda x: f'map/{x.strip("/").replace(":", "_")}.m'  # noqa: E731
                    via = not (system and prefix is not None)
                    loc = mapped(u) if via else resolve(prefix, u)
                    iloc = resolve(prefix, inner) if isys and prefix is not None else resolve(loc, inner)
                    want = [*([('map', u)] if via else []), ('fetch', canon(loc)), ('fetch', canon(iloc)), ('map', 'last.bare'), ('fetch', canon(mapped('last.bare')))]
                    q = lambda x, sy: f'include <{x}>' if sy else f"include '{x}'"  # noqa: E731
                    text = '\n'.join([q(u, system), "include 'last.bare'"] if place == 'top' else ['function f():', q(u, system), "include 'last.bare'", 'endfunction', 'f()'])

                    def thunk(it, text=text, loc=loc, inner=inner, isys=isys, prefix=prefix, mapped=mapped, q=q):
                        ev, first = [], []

                        def fetch(i, a, kw):
                            x = a[0]['url']
                            ev.append(('fetch', canon(x) if isinstance(x, str) else x))
                            if canon(x) == canon(loc) and not first:
                                first.append(1)
                                return q(inner, isys)
                            return 'x = 1'

                        def urlfn(i, a, kw):
                            ev.append(('map', a[0]))
                            return mapped(a[0])
                        opts = {'globals': {}, 'fetchFn': HostFn('fetch', fetch), 'urlFn': HostFn('urlFn', urlfn)}
                        if prefix is not None:
                            opts['systemPrefix'] = prefix
                        o = outcome(it, es, it.call(parse, [text], {}), opts)
                        return o, ev

                    def judge(p, want=want):
                        if p.kind != 'return':
                            return False, f'raises {p.value!r}'
                        o, ev = p.value
                        return o == ('ok', None) and ev == want, f'{o} with the events {ev}, expected {want}'
                    ck.cell('R8 host URL function', f'{q(u, system)} holding {q(inner, isys)} prefix {prefix} {place}', where, thunk, judge, max_paths=4)

    # R6 include statements: spelling, quoting, merging; the parsed statement
    spell = [("include 'a.bare'", [('a.bare', 0)]), ("  include   'a.bare'  ", [('a.bare', 0)]), ('include <a.bare>', [('a.bare', 1)]), ("include 'it\\'s.bare'", [("it's.bare", 0)]),
             ("include 'a.bare'\ninclude 'b.bare'", [('a.bare', 0), ('b.bare', 0)]), ("include 'a.bare'\n\n# c\ninclude <b.bare>", [('a.bare', 0), ('b.bare', 1)]),
             ("include <a.bare>\ninclude 'b.bare'\ninclude <a.bare>", [('a.bare', 1), ('b.bare', 0), ('a.bare', 1)]), ("include 'a b/c.bare'", [('a b/c.bare', 0)]),
             ("include 'https://h/p?q=<x>&r=1#f'", [('https://h/p?q=<x>&r=1#f', 0)]), ("include <it's.bare>", [("it's.bare", 1)]), ("include '<a.bare>'", [('<a.bare>', 0)]),
             ("include 'a#b.bare'", [('a#b.bare', 0)]), ("include <d/a.bare>", [('d/a.bare', 1)]), ("include 'a\\\\b.bare'", [('a\\b.bare', 0)]), ("include 'a.bare' \t", [('a.bare', 0)]),
             ("include \\\n'a.bare'", [('a.bare', 0)]), ("include\t'a.bare'", [('a.bare', 0)]), ("include 'é€𐍈.bare'", [('é€𐍈.bare', 0)])]
    for text, incs in spell:
        want = [{'url': u, 'system': True} if s else {'url': u} for u, s in incs]

        def thunk(it, text=text):
            return it.call(parse, [text], {}), it.call(parse, ["x = 1\n" + text + "\ny = 2\ninclude 'z.bare'"], {}), it.call(parse, ["function f():\n" + text + "\nendfunction\n" + text], {})

        def judge(p, want=want):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            one, two, three = p.value
            flat = lambda sts: [i for s in sts if 'include' in s for i in s['include']['includes']]
            ok = (flat(one['statements']) == want and all('include' in s for s in one['statements'])
                  and flat(two['statements']) == want + [{'url': 'z.bare'}] and [next(iter(s)) for s in two['statements']][0] == 'expr'
                  and [next(iter(s)) for s in two['statements']][-2:] == ['expr', 'include']
                  and flat(three['statements'][0]['function']['statements']) == want and flat(three['statements'][1:]) == want)
            return ok, f'{show(p.value)[:400]}'
        ck.cell('R6 include statements', repr(text), ck.where(parse), thunk, judge)
    for text in ("include a.bare", "include 'a.bare", "include <a.bare", 'include "a.bare"', "include 'a.bare' 'b.bare'", "include <a.bare> x", "include a.bare>", "include 'a.bare'; x"):
        ck.cell('R6 include statements', f'{text!r} is not an include', ck.where(parse), lambda it, text=text: outcome(it, parse, text),
                lambda p: (p.kind == 'return' and p.value[0] == 'parser', f'{show(p.value)[:300]}'))

    cli(ck, ref)
    return ck.finish()


# -- R7 the command line ---------------------------------------------------------------------------------

def cli(ck, ref):
    bare = ck.mod('bare')
    main_fn = bare.env.get('main')
    if main_fn is None:
        return
    where = ck.where(main_fn)
    prefix = ':bare-include:/'

    def host_world(it, disk, package, net, args, events):
        """Stand-ins for the argument parser, the disk, the package data and the network"""
        def file_obj(text, binary_):
            data = text.encode('utf-8') if binary_ else text
            return HostObj('file', read=HostFn('read', lambda i, a, k: data), close=HostFn('close', lambda i, a, k: None))

        def opener(i, a, k):
            path, mode = str(a[0]), (a[1] if len(a) > 1 else k.get('mode', 'r'))
            events.append(('open', path))
            if path not in disk:
                raise PyExc(FileNotFoundError(2, 'No such file or directory', path))
            return file_obj(disk[path], 'b' in mode)

        def request(i, a, k):
            return HostObj('request', url=a[0] if a else k['url'], full_url=a[0] if a else k['url'])

        def urlopen(i, a, k):
            u = a[0].attrs['url'] if isinstance(a[0], HostObj) else a[0]
            events.append(('http', u))
            if u not in net:
                raise PyExc(OSError(f'HTTP Error 404: {u}'))
            return file_obj(net[u], True)

        def resource(path):
            def op(i, a, k):
                mode = a[0] if a else k.get('mode', 'r')
                events.append(('package', path))
                if path not in package:
                    raise PyExc(FileNotFoundError(2, 'No such file', path))
                return file_obj(package[path], 'b' in mode)
            join = lambda i, a, k: resource('/'.join(([path] if path else []) + [str(x) for x in a]))
            return HostObj('resource', joinpath=HostFn('joinpath', join), __truediv__=HostFn('truediv', join), open=HostFn('open', op),
                           read_text=HostFn('read_text', lambda i, a, k: op(i, ['r'], {}).attrs['read'].fn(i, [], {})),
                           read_bytes=HostFn('read_bytes', lambda i, a, k: op(i, ['rb'], {}).attrs['read'].fn(i, [], {})))
        ns = HostObj('namespace', **{'scripts': [], 'file': [], 'code': None, 'debug': False, 'markdown_up': False, 'static': False, 'var': [], **args})
        none = HostFn('none', lambda i, a, k: None)
        parser = HostObj('parser', add_argument=none, parse_args=HostFn('parse_args', lambda i, a, k: ns), print_help=none,
                         exit=HostFn('exit', lambda i, a, k: (_ for _ in ()).throw(PyExc(SystemExit(0)))))
        it.host_natives = {
            argparse.ArgumentParser: HostFn('ArgumentParser', lambda i, a, k: parser), open: HostFn('open', opener),
            urllib.request.Request: HostFn('Request', request), urllib.request.urlopen: HostFn('urlopen', urlopen),
            importlib.resources.files: HostFn('files', lambda i, a, k: resource('')),
            print: HostFn('print', lambda i, a, k: events.append(('print', *a))),
        }

    def cell(name, scripts, disk, package, net, want_code=None, **args):
        """scripts: [(kind, value)]; disk, package, net: location -> description"""
        fd, fp, fn = Files(disk), Files(package), Files(net)
        codes = [build(v) if not isinstance(v, str) else None for _, v in scripts]
        values = [(k, v if isinstance(v, str) else '\n'.join(c[0])) for (k, v), c in zip(scripts, codes)]

        def thunk(it):
            events = []
            try:
                host_world(it, {k: v for k, v in fd.text.items() if isinstance(v, str)}, {k: v for k, v in fp.text.items() if isinstance(v, str)},
                           {k: v for k, v in fn.text.items() if isinstance(v, str)}, {**args, 'scripts': values}, events)
                try:
                    it.call(main_fn, [[]], {})
                    end = ('returned',)
                except PyExc as e:
                    end = ('exit', e.inst.code) if isinstance(e.inst, SystemExit) else ('raise', show(e.inst))
            finally:
                it.host_natives = {}
            # reference
            want, code = [], 0
            models = {**fd.model, **fp.model, **fn.model}
            g = {}

            def fetch(u):
                if u.startswith(prefix):
                    want.append(('package', u[len(prefix):]))
                    return fp.fetch(u[len(prefix):])
                if ':' in u.split('/')[0]:
                    want.append(('http', u))
                    return fn.fetch(u)
                want.append(('open', u))
                return fd.fetch(u)
            n = 0
            for kind, value in ([('code', [('inc', 'markdownUp.bare', True)])] if args.get('markdown_up') else []) + scripts:
                if kind == 'file':
                    label = value
                    text = fetch(value)
                    if text is None:
                        want.append(('error', f'Failed to load "{value}"'))
                        code = 1
                        break
                    model = models.get(text)
                    if model is None:
                        want.append(('error', value))
                        code = 1
                        break
                else:
                    n += 1
                    label = f'-c {n}'
                    model = {'statements': build(value)[1]}
                log = HostFn('systemLog', lambda i, a, k: want.append(('print', *a[0])))
                g['systemLog'] = g['log'] = log
                rr = RefRun(ref, it, g, 0, fetch=fetch, parse=models.get, prefix=prefix, base=value if kind == 'file' else None)
                r = rr.run(model)
                if r[0] != 'ok':
                    want.append(('error', r[1] if r[0] == 'parser' else r[1].split('"')[1] if '"' in r[1] else r[1], label))
                    code = 1
                    break
                code = 1 if r[1] else 0
                if code:
                    break
            return end, events, want, code

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            end, events, want, code = p.value
            if end != ('exit', code):
                return False, f'ends with {end}, expected exit status {code}'
            # errors: every remaining printed text must name the location
            i = 0
            for w in want:
                if w[0] == 'error':
                    rest = ' '.join(str(x) for e in events[i:] for x in e)
                    if not all(str(x) in rest for x in w[1:2]):
                        return False, f'the error output {events[i:]} does not name {w[1]!r}'
                    return True
                if i >= len(events):
                    return False, f'event {i}: missing, expected {w}'
                e = events[i]
                r = matches(ck.it, (e[0], *(canon(x) if isinstance(x, str) and e[0] != 'print' else x for x in e[1:])),
                            (w[0], *(canon(x) if isinstance(x, str) and w[0] != 'print' else x for x in w[1:])))
                if r is not True:
                    return r, f'event {i}: {show(e)}, expected {show(w)}'
                i += 1
            return i == len(events), f'further events {show(events[i:i + 3])}'
        ck.cell('R7 command line', name, where, thunk, judge, max_paths=8)

    L = lambda s: ('raw', [f"systemLog('{s}')"], [{'expr': {'expr': fcall('systemLog', string(s))}}])
    leaf = lambda s: [L(s)]
    pk = {'args.bare': leaf('pkg args'), 'deep.bare': [L('deep in'), ('inc', 'args.bare'), ('inc', 'args.bare', True), ('inc', 'sub/x.bare'), L('deep out')],
          'sub/x.bare': [L('x'), ('inc', 'y.bare')], 'sub/y.bare': leaf('y'), 'out.bare': [('inc', 'https://n.org/z.bare'), ('inc', '/abs/z.bare')],
          'markdownUp.bare': leaf('mdup')}
    net = {'https://n.org/z.bare': [L('net z'), ('inc', 'w.bare'), ('inc', 'args.bare', True)], 'https://n.org/w.bare': leaf('net w'),
           'https://n.org/d/main.bare': [L('net main'), ('inc', 'e.bare'), ('inc', '/abs/z.bare')], 'https://n.org/d/e.bare': leaf('net e')}
    for d in ('', 'dir/', '/r/dir/', '../up/'):
        disk = {f'{d}main.bare': [L('main'), ('inc', 'a.bare'), ('inc', 'deep.bare', True), ('inc', 's/b.bare'), L('end')], f'{d}a.bare': [L('a'), ('inc', 's/b.bare')],
                f'{d}s/b.bare': [L('b'), ('inc', 'c.bare'), ('inc', 'args.bare', True)], f'{d}s/c.bare': leaf('c'), '/abs/z.bare': leaf('abs z'), 'cwd.bare': [L('cwd'), ('inc', 'cwd2.bare')],
                'cwd2.bare': leaf('cwd2'), f'{d}two.bare': [L('two'), ('inc', 'a.bare')], f'{d}net.bare': [('inc', 'https://n.org/z.bare'), ('inc', 'a.bare')],
                f'{d}out.bare': [('inc', 'out.bare', True), ('inc', 'a.bare')], f'{d}miss.bare': [L('m'), ('inc', 'none.bare')], f'{d}missys.bare': [L('m'), ('inc', 'none.bare', True)],
                f'{d}badinc.bare': [L('m'), ('inc', 's/broken.bare')], f'{d}s/broken.bare': "x = (1\n", f'{d}ret.bare': [('inc', 'r.bare'), L('after')],
                f'{d}r.bare': [L('r'), ('return', 'x'), L('no')], f'{d}missdeep.bare': [('inc', 's/md.bare')], f'{d}s/md.bare': [('inc', '../zz/none.bare')],
                f'{d}fn.bare': [('inc', 's/lib.bare'), ('call', 'f'), ('inc', 'a.bare')], f'{d}s/lib.bare': [('def', 'f', [L('f'), ('inc', 'c.bare')])]}
        F = lambda *names: [('file', f'{d}{n}.bare') for n in names]
        for nm, scripts in (('one file', F('main')), ('two files', F('main', 'two')), ('file then code', F('two') + [('code', [('inc', 'cwd.bare'), L('code')])]),
                            ('code then file', [('code', [L('code'), ('inc', 'cwd.bare')])] + F('main')), ('net include', F('net')), ('system to outside', F('out')),
                            ('missing include', F('miss', 'two')), ('missing system include', F('missys', 'two')), ('broken include', F('badinc', 'two')), ('return', F('ret', 'two')),
                            ('missing file', F('absent', 'two')), ('broken file', F('s/broken')), ('missing deep', F('missdeep')), ('function', F('fn')), ('function in second', F('fn', 'two')),
                            ('code system', [('code', [('inc', 'deep.bare', True), L('c')])]), ('code absolute', [('code', [('inc', '/abs/z.bare'), L('c')])]),
                            ('code missing', [('code', [('inc', 'nope.bare'), L('c')])]), ('url file', [('file', 'https://n.org/d/main.bare')] + F('two')),
                            ('code call', F('s/lib') + [('code', [('call', 'f'), L('c')])])):
            if d and not any(k == 'file' for k, _ in scripts):
                continue
            cell(f'{nm} in {d!r}', scripts, disk, pk, net)
            if nm in ('one file', 'two files', 'code then file', 'code system'):
                cell(f'{nm} in {d!r} -m', scripts, disk, pk, net, markdown_up=True)
