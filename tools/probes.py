#!/usr/bin/env python3
"""Development tool: small bugs, tried quickly: do the repository's tests pass with them, and what does the property's check say?

python3 tools/probes.py FILE.py [NAME..]    FILE.py calls P(property, name, (path, old, new)..)
"""
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

import refactors

V = refactors.V
PROBES = []


def P(prop, name, *edits):
    PROBES.append((prop, name, edits))


def work(probe):
    props, name, edits = probe
    t = pathlib.Path(tempfile.mkdtemp(prefix='probe'))
    w = t / 'w'
    try:
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('build', '.git'))
        for path, old, new in edits:
            p = w / 'src/bare_script' / path
            s = refactors.edit(p.read_text(), old, new)
            if s is None:
                return f'{name}: DOES NOT APPLY {old[:80]!r}'
            p.write_text(s)
        r = refactors.tests(w)
        if r.returncode:
            return f'{name}: tests: {[x for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))][:2]}'
        res = []
        for p in props.split():
            env = dict(os.environ, VERIF_REPO=str(w), VERIF_EVIDENCE=str(t), VERIF_JOBS='4', VERIF_FIRST=str(t / 'first'))
            c = subprocess.run([sys.executable, str(V / 'run.py'), p], cwd=V, capture_output=True, text=True, env=env)
            line = next((x for x in c.stdout.splitlines() if 'obligations' in x), c.stderr[-300:])
            why = [x.strip() for x in c.stdout.splitlines() if x.strip().startswith(('rule:', 'cell:', 'detail:'))][:3] if c.returncode else []
            res.append(f'{p} {"caught" if c.returncode == 1 else "MISSED"} {" ".join(line.split()[2:])} {why}')
            if c.returncode == 1:
                break
        return f'{name}: ' + ' / '.join(res)
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    exec(open(sys.argv[1]).read()) # pylint: disable=exec-used
    probes = [p for p in PROBES if not sys.argv[2:] or any(p[1].startswith(x) for x in sys.argv[2:])]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(work, probes):
            print(r[:600], flush=True)
