#!/usr/bin/env python3
"""Development tool: write MANIFEST.json from the checks present (TECHNIQUE / NOTE in each checks/cNN.py) and tools/na.json"""
import ast
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
checks, na = [], []
NA = json.loads((V / 'tools' / 'na.json').read_text())
for line in (V / 'properties.jsonl').read_text().splitlines():
    pid = json.loads(line)['id']
    f = V / 'checks' / f'{pid.lower()}.py'
    if f.exists():
        consts = {}
        for n in ast.parse(f.read_text()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id in ('TECHNIQUE', 'NOTE'):
                consts[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({'property': pid, 'quick_cmd': f'python3 run.py {pid} --tier quick', 'thorough_cmd': f'python3 run.py {pid} --tier thorough',
                       'evidence_file': f'evidence/{pid}.json', 'technique': consts['TECHNIQUE'], 'level': 'other', 'level_note': consts['NOTE']})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
(V / 'MANIFEST.json').write_text(json.dumps({
    'version': 1, 'setup_cmd': 'python3 --version', 'checks': checks, 'not_applicable': na,
    'notes': 'One abstract interpreter (absint/) over the Python syntax tree of /repo/src; every check re-reads the source on each run. '
             'Nothing of /repo is imported or executed.'}, indent=1) + '\n')
print(len(checks), 'checks;', len(na), 'not applicable')
