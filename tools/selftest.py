#!/usr/bin/env python3
"""Development tool: the abstract interpreter against Python itself, on small functions over opaque arguments.

Each snippet is interpreted over opaque arguments, then every argument is decided equal to one value of a small domain;
the abstract result on that path must be what Python computes for those values, and every assignment must have a path.
"""
import itertools
import pathlib
import shutil
import sys
import tempfile
import textwrap

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from absint.interp import Interp  # noqa: E402
from absint.closed import Open, close  # noqa: E402
from absint.values import PyExc, Sym, deep_concrete, show, sym  # noqa: E402

STR = ['', 'a', 'b', 'ab']
INT = [-1, 0, 1, 2]
ANY = [None, True, False, 0, 1, -2, 0.0, 1.5, '', 'a']
KIND = {type(None): 'none', bool: 'bool', int: 'int', float: 'float', str: 'str'}
FLOAT = [-1.0, 0.0, 0.5, 2.0]
LIST = V / 'tools' / 'selftest_snippets.txt'


def snippets():
    """(types, body) of each snippet: 'str: expression' or 'str:' followed by an indented body"""
    out = []
    for line in LIST.read_text().split('\n'):
        if not line.strip() or line.startswith('#'):
            continue
        if line.startswith(' '):
            out[-1][1].append(line)
        else:
            ty, _, expr = line.partition(':')
            out.append((ty, [f'    return {expr.strip()}'] if expr.strip() else []))
    return [(ty, '\n'.join(body)) for ty, body in out]


def deep(it, v):
    v = it.norm(v)
    if isinstance(v, Sym):
        try:
            return close(it, v, {})
        except Open:
            return v
    if isinstance(v, (list, tuple)) and not hasattr(v, '_fields'):
        return type(v)(deep(it, x) for x in v)
    if isinstance(v, (set, frozenset)):
        return {deep(it, x) for x in v}
    if isinstance(v, dict):
        return {deep(it, k): deep(it, x) for k, x in v.items()}
    return v


def same(a, b):
    if type(a) in (int, float, bool) and type(b) in (int, float, bool):
        return a == b and type(a) is type(b) or a != a and b != b
    if type(a) is not type(b) and not isinstance(a, (set, frozenset)):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def main():
    t = pathlib.Path(tempfile.mkdtemp(prefix='selftest'))
    try:
        fns = snippets()
        src = 'import functools\nimport itertools\nimport re\nimport math\nimport collections\nimport operator\nimport bisect\nimport heapq\nimport datetime\nimport json\n\n' + '\n\n'.join(
            f'def f{i}(x, y, z):\n{body}' for i, (_, body) in enumerate(fns)) + '\n'
        (t / 'snips.py').write_text(src)
        it = Interp(str(t))
        mod = it.module('snips')
        real = {}
        exec(compile(src, 'snips', 'exec'), real)
        bad = und = done = 0
        for i, (ty, body) in enumerate(fns):
            if len(sys.argv) > 1 and not any(a in body for a in sys.argv[1:]):
                continue
            dom = {'str': STR, 'int': INT, 'float': FLOAT, 'any': ANY}[ty]

            def thunk(it):
                xs = [sym(n, ty) for n in 'xyz']
                try:
                    r = ('ok', it.call(mod.env[f'f{i}'], list(xs), {}))
                except PyExc as e:
                    r = ('exc', type(e.inst).__name__)
                vals = []
                for s in xs:
                    t = it.ty(s) if isinstance(it.norm(s), Sym) else KIND.get(type(it.norm(s)))
                    for d in dom:
                        if t == KIND[type(d)] and it.truth(it.eq(s, d)):
                            vals.append(d)
                            break
                    else:
                        return None
                return vals, r[0], deep(it, r[1])
            ps = it.explore(thunk, max_paths=20000)
            seen = set()
            problems = set()
            for p in ps:
                if p.kind != 'return':
                    problems.add(f'UNDECIDED {str(p.value)[:150]}')
                    continue
                if p.value is None:
                    continue
                vals, kind, got = p.value
                try:
                    want = ('ok', real[f'f{i}'](*vals))
                except Exception as e:
                    want = ('exc', type(e).__name__)
                seen.add(tuple(vals))
                if kind == 'ok' and not deep_concrete(got):
                    problems.add('OPAQUE ' + show(got)[:150])
                elif p.imprecise:
                    problems.add('IMPRECISE ' + str(p.imprecise[0])[:150])
                elif want[0] != kind or not same(got, want[1]):
                    problems.add(f'WRONG {vals}: {kind} {got!r}, Python {want}')
            if not any(x.startswith('UNDECIDED') for x in problems):
                missing = [v for v in itertools.product(dom, repeat=3) if v not in seen]
                if missing:
                    problems.add(f'WRONG no path for {missing[:3]} ({len(missing)})')
            done += 1
            wrong = sorted(x for x in problems if x.startswith('WRONG'))
            if wrong:
                bad += 1
                print(f'--- {ty}\n{textwrap.dedent(body)}')
                for w in wrong[:3]:
                    print('   ', w)
            elif problems:
                und += 1
                if '-v' in sys.argv or len(sys.argv) > 1:
                    print(f'--- {ty}\n{textwrap.dedent(body)}\n    {sorted(problems)[0]}')
        print(f'{done} snippets, {bad} wrong, {und} undecided or opaque')
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    main()
