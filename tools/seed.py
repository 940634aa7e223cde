#!/usr/bin/env python3
"""Development tool: (re)generate /verif/seeded/<id>/ from tools/seeds.py and confirm each planted bug.

python3 tools/seed.py make            write every seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json)
python3 tools/seed.py confirm [ID..]  apply to /repo: tests pass, demo fails; undo; demo passes
python3 tools/seed.py check [ID..]    run the property's quick check on a patched scratch copy
"""
import importlib.util
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parent.parent
S = V / 'seeded'
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src
exec timeout 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def specs():
    spec = importlib.util.spec_from_file_location('seeds', V / 'tools' / 'seeds.py')
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.SEEDS


def make(only):
    for b in specs():
        if only and not any(b['id'].startswith(o) for o in only):
            continue
        if any(f.endswith('.bare') for f, _, _ in b['edits']):
            continue # the final check counts changes of Python files only; such a change is tried with probes.py
        d = S / b['id']
        d.mkdir(parents=True, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            w = pathlib.Path(t) / 'w'
            subprocess.run(['git', 'clone', '-q', '/repo', str(w)], check=True)
            for f, old, new in b['edits']:
                p = w / 'src/bare_script' / f
                s = p.read_text()
                if s.count(old) != 1:
                    print('BAD EDIT', b['id'], f, s.count(old))
                    break
                p.write_text(s.replace(old, new))
            else:
                diff = subprocess.run(['git', '-C', str(w), 'diff'], capture_output=True, text=True, check=True).stdout
                (d / 'patch.diff').write_text(diff)
                (d / 'demo.sh').write_text(DEMO)
                (d / 'demo.sh').chmod(0o755)
                (d / 'demo.py').write_text(b['demo'].lstrip('\n'))
                (d / 'meta.json').write_text(json.dumps({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n')


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def confirm(ids):

    for i in ids:
        d = S / i
        a = run(['bash', str(d / 'demo.sh')], cwd='/repo')
        r = run(['git', '-C', '/repo', 'apply', str(d / 'patch.diff')])
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr[:200])
            continue
        try:
            bld = run(['bash', '/opt/vp/build.sh'])
            t = run(['bash', '/opt/vp/test.sh', '/tmp/seed_out.json'])
            res = json.load(open('/tmp/seed_out.json'))
            failed = [x for x in (res.get('failed') or [])]
            b = run(['bash', str(d / 'demo.sh')], cwd='/repo')
        finally:
            run(['git', '-C', '/repo', 'checkout', '--', '.'])
        good = a.returncode == 0 and b.returncode != 0 and not failed and bld.returncode == 0
        print(i, 'OK' if good else f'NOT OK clean-demo={a.returncode} patched-demo={b.returncode} failed={failed[:5]} build={bld.returncode} {a.stderr[-300:]}', flush=True)


def check(ids, props=None):
    def one(i):
        d = S / i
        prop = json.load(open(d / 'meta.json'))['property']
        t = tempfile.mkdtemp(prefix='seedchk')
        try:
            w = pathlib.Path(t) / 'w'
            run(['git', 'clone', '-q', '/repo', str(w)], check=True)
            r = run(['git', '-C', str(w), 'apply', str(d / 'patch.diff')])
            if r.returncode:
                return f'{i} DOES NOT APPLY'
            out = []
            for p in props or [prop]:
                e = dict(os.environ, VERIF_REPO=str(w), VERIF_EVIDENCE=t, VERIF_JOBS='4')
                c = run([sys.executable, str(V / 'run.py'), p, '--tier', 'quick'], env=e, cwd=str(V))
                first = [x for x in c.stdout.splitlines() if x.strip().startswith(('rule:', 'cell:'))][:2]
                out.append(f'{p} rc={c.returncode} {" ".join(x.strip() for x in first)[:160]}' + (c.stderr[-300:] if c.returncode not in (0, 1) else ''))
            return f'{i}: ' + ' | '.join(out)
        finally:
            shutil.rmtree(t)
    with ThreadPoolExecutor(2) as ex:
        for line in ex.map(one, ids):
            print(line, flush=True)


if __name__ == '__main__':
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        make(rest)
    else:
        props = [x for x in rest if x.startswith('--props=')]
        rest = [x for x in rest if not x.startswith('--')]
        pat = rest or ['']
        ids = sorted(p.name for p in S.iterdir() if any(p.name.startswith(r) for r in pat))
        if cmd == 'confirm':
            confirm(ids)
        else:
            check(ids, props[0][8:].split(',') if props else None)
