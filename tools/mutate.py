#!/usr/bin/env python3
"""Development tool: mechanical mutants of /repo that pass the repository's tests, and what the checks say about them.

python3 tools/mutate.py gen OUT.json [FILE..]        mutants that still pass the tests
python3 tools/mutate.py check OUT.json RES.json [N]  run the checks of the mutated file until one reports a violation
"""
import ast
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parent.parent
SRC = 'src/bare_script'
FILES = ['runtime.py', 'parser.py', 'value.py', 'data.py', 'options.py', 'bare.py', 'model.py', 'library.py']
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*', '//'], ast.FloorDiv: ['/'], ast.Mod: ['//']}


def mutants(path, text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x))
    raw = text.encode()
    bstarts = [0]
    for x in lines:
        bstarts.append(bstarts[-1] + len(x.encode()))

    def span(n):
        return bstarts[n.lineno - 1] + n.col_offset, bstarts[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append({'file': path, 'line': n.lineno, 'a': a, 'b': b, 'new': new, 'old': raw[a:b].decode(), 'what': what})
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n))
            skip.add(id(n.value))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(n, f'{src(n.left)} {o} {src(n.comparators[0])}', 'cmp')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + o.join(src(v) for v in n.values) + ')', 'boolop')
            if len(n.values) > 1:
                for i in range(len(n.values)):
                    rest = [src(v) for j, v in enumerate(n.values) if j != i]
                    put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', 'drop-cond')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, src(n.operand), 'drop-not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, src(n.operand), 'drop-neg')
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                put(n, f'{src(n.left)} {o} {src(n.right)}', 'binop')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'bool')
            elif isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1), 'const')
                put(n, repr(n.value - 1), 'const')
            elif n.value is None:
                put(n, 'False', 'none')
                put(n, '0', 'none')
            elif isinstance(n.value, str) and n.value and n.lineno == n.end_lineno and len(n.value) < 30:
                put(n, repr(n.value + 'x'), 'str')
                put(n, "''", 'str')
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, f'not ({src(n.test)})', 'negate')
            put(n.test, 'True', 'true')
            put(n.test, 'False', 'false')
        elif isinstance(n, ast.IfExp):
            put(n, src(n.body), 'ifexp')
            put(n, src(n.orelse), 'ifexp')
        elif isinstance(n, ast.Call):
            if n.args and len(n.args) > 1:
                put(n, f'{src(n.func)}(' + ', '.join([src(a) for a in n.args[:-1]] + [src(k.value) if k.arg is None else f'{k.arg}={src(k.value)}' for k in n.keywords]) + ')', 'drop-arg')
                put(n, f'{src(n.func)}(' + ', '.join([src(n.args[1]), src(n.args[0])] + [src(a) for a in n.args[2:]] + [f'{k.arg}={src(k.value)}' for k in n.keywords if k.arg]) + ')', 'swap-args')
            if n.keywords and all(k.arg for k in n.keywords):
                for i in range(len(n.keywords)):
                    put(n, f'{src(n.func)}(' + ', '.join([src(a) for a in n.args] + [f'{k.arg}={src(k.value)}' for j, k in enumerate(n.keywords) if j != i]) + ')', 'drop-kw')
            if len(n.args) == 1 and not n.keywords:
                put(n, src(n.args[0]), 'unwrap')
            if isinstance(n.func, ast.Attribute) and not n.args:
                put(n, src(n.func.value), 'unwrap-method')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, src(n.value), 'drop-slice')
        elif isinstance(n, ast.Dict) and len(n.keys) > 1 and n.lineno != n.end_lineno:
            pass
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Return, ast.Raise)) and id(n) not in skip:
            put(n, 'pass', 'delete')
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if isinstance(h.type, ast.Tuple):
                    for i in range(len(h.type.elts)):
                        rest = [src(x) for j, x in enumerate(h.type.elts) if j != i]
                        put(h.type, '(' + ', '.join(rest) + ',)', 'drop-exc')
    seen = set()
    for m in out:
        k = (m['a'], m['b'], m['new'])
        if k in seen:
            continue
        seen.add(k)
        new = (raw[:m['a']] + m['new'].encode() + raw[m['b']:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        yield m


def apply(w, m):
    p = w / SRC / m['file']
    raw = p.read_bytes()
    assert raw[m['a']:m['b']].decode() == m['old']
    p.write_bytes(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def worker_copy():
    t = pathlib.Path(tempfile.mkdtemp(prefix='mutant'))
    shutil.copytree('/repo', t / 'w', ignore=shutil.ignore_patterns('build', '.git'))
    return t


def gen(out, files):
    ms = []
    for f in files or FILES:
        ms += list(mutants(f, (pathlib.Path('/repo') / SRC / f).read_text()))
    print(len(ms), 'mutants')
    n = 8
    chunks = [ms[i::n] for i in range(n)]

    def work(chunk):
        t = worker_copy()
        w = t / 'w'
        env = dict(os.environ, PYTHONPATH=str(w / 'src'), PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
        live = []
        for m in chunk:
            p = w / SRC / m['file']
            orig = p.read_bytes()
            apply(w, m)
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', str(w / 'src/tests')], cwd=w,
                                   capture_output=True, text=True, env=env, timeout=30, preexec_fn=lambda: __import__('resource').setrlimit(9, (4 << 30, 4 << 30)))
                if r.returncode == 0:
                    live.append(m)
            except subprocess.TimeoutExpired:
                pass
            p.write_bytes(orig)
        shutil.rmtree(t)
        return live
    with ThreadPoolExecutor(n) as ex:
        live = [m for c in ex.map(work, chunks) for m in c]
    live.sort(key=lambda m: (m['file'], m['a'], m['new']))
    json.dump(live, open(out, 'w'), indent=0)
    print(len(live), 'survive')


# the checks of a file, the likeliest first
ORDER = {
    'runtime.py': 'C03 C04 C08 C09 C17 C05 C01',
    'parser.py': 'C10 C02 C06 C07 C01',
    'value.py': 'C11 C14 C13 C15 C16 C05 C12 C19',
    'data.py': 'C19 C05 C09',
    'options.py': 'C17',
    'bare.py': 'C17 C20',
    'model.py': 'C18',
    'library.py': 'C15 C12 C05 C11 C13 C14 C16 C19 C09',
}


def check(src, dst, count):
    ms = json.load(open(src))
    random.Random(7).shuffle(ms)
    res = json.load(open(dst)) if os.path.exists(dst) else []
    done = {(m['file'], m['a'], m['new']) for m in res}
    todo = [m for m in ms if (m['file'], m['a'], m['new']) not in done][:count]

    def work(m):
        t = worker_copy()
        try:
            apply(t / 'w', m)
            m = dict(m, caught=None, log=[])
            for p in ORDER[m['file']].split():
                env = dict(os.environ, VERIF_REPO=str(t / 'w'), VERIF_EVIDENCE=str(t), VERIF_JOBS='4', VERIF_FIRST=str(t / 'first'))
                c = subprocess.run([sys.executable, str(V / 'run.py'), p], cwd=V, capture_output=True, text=True, env=env)
                line = next((x for x in c.stdout.splitlines() if 'obligations' in x), c.stderr[-200:])
                m['log'].append(f'{p} {c.returncode} {line}')
                if c.returncode:
                    m['caught'] = p
                    m['why'] = [x.strip() for x in c.stdout.splitlines() if x.strip().startswith(('rule:', 'cell:', 'detail:'))][:3]
                    break
            return m
        finally:
            shutil.rmtree(t)
    with ThreadPoolExecutor(3) as ex:
        for m in ex.map(work, todo):
            res.append(m)
            print('CAUGHT' if m['caught'] else 'missed', m['caught'], m['file'], m['line'], m['what'], repr(m['old'][:80]), '->', repr(m['new'][:80]), flush=True)
            json.dump(res, open(dst, 'w'), indent=0)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], sys.argv[3:])
    else:
        check(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 6)
