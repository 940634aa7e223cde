"""Shared machinery of the checks: the laboratory (abstract interpreter + anchors), obligations, evidence, known findings."""

import argparse
import json
import os
import pickle
import sys
import tempfile
import threading
import time
import traceback
from pathlib import Path as P

from absint.interp import Interp
from absint.values import AFunc, AInst, APartial, CUR, HostFn, PyExc, Sym, Unsupported, show, sym, term  # noqa: F401

VERIF = P(__file__).resolve().parent.parent
REPO = P(os.environ.get('VERIF_REPO', '/repo'))
SRC = REPO / 'src'


SHARD = [0, 1]       # this process's shard and the number of shards
SHARD_FILE = [None]


class AnchorMissing(Exception):
    pass

# development: a file whose existence ends the analysis at the first violation
FIRST = os.environ.get('VERIF_FIRST')


class Check:
    """One property's check: collects obligations and writes the evidence"""

    def __init__(self, prop, tier, technique_rule):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.rule_text = technique_rule
        self.t0 = time.time()
        self.results = {}         # (rule, cell) -> (rank, verdict, text, construct)
        self.counter = 0
        self.it = Interp(str(SRC))
        self.it.cell_time = 40.0 if self.thorough else 8.0
        self.paths = 0
        self.known = load_known(prop)
        self.known_hit = {}
        self.budget = float(os.environ.get('VERIF_BUDGET', '600' if self.thorough else '240'))
        self.extra = {}

    # -- anchors
    def mod(self, name):
        full = 'bare_script.' + name
        try:
            return self.it.module(full)
        except PyExc as e:
            raise AnchorMissing(f'module {full} not found: {show(e.inst)} {e.loc}') from None

    def fn(self, mod, name):
        env = self.mod(mod).env
        if name not in env:
            raise AnchorMissing(f'{mod}.{name} not found')
        return env[name]

    def where(self, f):
        """file:line of a function of the analysed program"""
        while isinstance(f, APartial):
            f = f.func
        if isinstance(f, AFunc):
            return f'{self.rel(f.module.path)}:{f.node.lineno} {f.name}'
        return show(f)

    @staticmethod
    def rel(path):
        try:
            return str(P(path).relative_to(REPO))
        except ValueError:
            return str(path)

    def over(self):
        return time.time() - self.t0 > self.budget or FIRST is not None and os.path.exists(FIRST)

    # -- obligations
    def mine(self):
        """Cells are dealt round-robin to the worker processes"""
        self.counter += 1
        return self.counter % SHARD[1] == SHARD[0]

    def _record(self, rule, cell, verdict, text='', construct=''):
        rank = {'ok': 0, 'unknown': 1, 'known': 2, 'bad': 3}[verdict]
        k = (rule, str(cell))
        old = self.results.get(k)
        if old is None or old[0] < rank:
            self.results[k] = (rank, verdict, str(text)[:1500], str(construct))

    def ok(self, rule, cell, sample=None):
        self._record(rule, cell, 'ok', sample or '')

    def unknown(self, rule, cell, why=''):
        self._record(rule, cell, 'unknown', why)

    def bad(self, rule, cell, construct, detail):
        """A violated obligation; `construct` names the code, `cell` the analysed case"""
        for k in self.known:
            if k['rule'] == rule and (k['cell'] == cell or (k.get('prefix') and cell.startswith(k['cell']))):
                self._record(rule, cell, 'known', k['what'])
                return
        self._record(rule, cell, 'bad', detail, construct)
        if FIRST is not None:
            open(FIRST, 'w').close()

    def verdict(self, rule, cell, construct, res, detail=''):
        """res: True / False / None"""
        if res is True:
            self.ok(rule, cell)
        elif res is False:
            self.bad(rule, cell, construct, detail)
        else:
            self.unknown(rule, cell, detail)

    # -- exploring a cell
    def explore(self, thunk, max_paths=600):
        ps = self.it.explore(thunk, max_paths=max_paths)
        self.paths += len(ps)
        return ps

    def cell(self, rule, cell, construct, thunk, judge, max_paths=600):
        """Explore thunk; judge(path) -> True | False | None | (False, detail); an obligation per cell.
        A cell is discharged when every path is; violated when one path definitely differs."""
        if not self.mine():
            return None
        if self.over():
            self.unknown(rule, cell, 'time budget')
            return None
        ps = self.explore(thunk, max_paths)
        res = True if ps.complete and ps else None
        why = '' if ps.complete else 'path budget'
        for p in ps:
            if p.kind == 'undecided':
                res, why = None, p.note
                continue
            CUR[0] = self.it
            self.it.facts = p.facts
            try:
                r = judge(p)
            except (Unsupported, PyExc) as e:
                r = (None, f'judge: {e!r}')
            except Exception as e:  # a value of an unforeseen shape
                r = (None, f'judge: internal {e!r}')
            detail = ''
            if isinstance(r, tuple):
                r, detail = r
            if r is False and p.imprecise:
                r, detail = None, f'imprecise: {p.imprecise[:2]}'
            if r is False:
                at = f' [{self.rel(p.loc[0])}:{p.loc[1]}]' if isinstance(p.loc, tuple) else (f' [{p.loc}]' if p.loc else '')
                dec = '; '.join(f'{d}={c}' for d, c, _ in p.decisions[:12])
                self.bad(rule, cell, construct, f'{detail or p!r}{at} path: {dec}')
                return False
            if r is None and res is True:
                res, why = None, detail
        if not ps:
            res, why = None, 'no feasible path'
        self.verdict(rule, cell, construct, res, why)
        return res

    # -- finishing
    def finish(self, explanation=None, assumptions=None):
        state = {
            'prop': self.prop, 'tier': self.tier, 'rule_text': self.rule_text, 'results': self.results, 'paths': self.paths, 'extra': self.extra,
            'functions': sorted(f'{self.rel(m)}:{ln} {n}' for m, ln, n in self.it.functions_seen),
            'files': sorted(self.rel(m.path) for m in self.it.modules.values()), 'explanation': explanation, 'assumptions': assumptions, 't0': self.t0}
        if SHARD_FILE[0]:
            with open(SHARD_FILE[0], 'wb') as f:
                pickle.dump(state, f)
            return 0
        return report([state])


def report(states):
    """Merge the workers' results, write the evidence, print the verdict"""
    st = states[0]
    prop, tier = st['prop'], st['tier']
    results, extra, functions, files = {}, {}, set(), set()
    for s in states:
        for k, v in s['results'].items():
            if k not in results or results[k][0] < v[0]:
                results[k] = v
        functions.update(s['functions'])
        files.update(s['files'])
        extra.update(s['extra'])
    rules, samples, undecided, violations, known = {}, [], [], [], {}
    for (rule, cell), (_, verdict, text, construct) in results.items():
        r = rules.setdefault(rule, {'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0})
        r['obligations'] += 1
        if verdict == 'ok':
            r['discharged'] += 1
            if r['discharged'] <= 3:
                samples.append({'rule': rule, 'cell': cell[:300], 'verdict': 'discharged', **({'detail': text[:300]} if text else {})})
        elif verdict == 'unknown':
            r['undecided'] += 1
            undecided.append({'rule': rule, 'cell': cell[:300], 'why': text[:300]})
        elif verdict == 'known':
            r['known'] = r.get('known', 0) + 1
            known[text] = known.get(text, 0) + 1
        else:
            r['violated'] += 1
            violations.append({'key': f'{rule}|{cell}', 'rule': rule, 'cell': cell, 'construct': construct, 'detail': text})
    tot = {k: sum(r[k] for r in rules.values()) for k in ('obligations', 'discharged', 'undecided', 'violated')}
    wall = time.time() - min(s['t0'] for s in states)
    paths = sum(s['paths'] for s in states)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'evaluations': tot['obligations'],
            'distinct_nontrivial': tot['discharged'] + tot['violated'],
            'rule': st['rule_text'],
            'samples': samples[:40],
            'discharged': tot['discharged'], 'undecided': tot['undecided'],
            'rules': rules,
            'undecided_cells': undecided[:40],
            'paths_enumerated': paths,
            'functions_analysed': sorted(functions)[:400],
            'files': sorted(files),
            'explanation': st['explanation'] or st['rule_text'],
            **extra,
        },
        'wall_s': round(wall, 2),
        'assumptions': st['assumptions'] or [],
        'violations': len(violations),
    }
    evdir = P(os.environ.get('VERIF_EVIDENCE') or VERIF / 'evidence')
    evdir.mkdir(exist_ok=True)
    (evdir / f'{prop}.json').write_text(json.dumps(ev, indent=1, default=str))
    for what in known:
        print(f'KNOWN-FINDING: property={prop} {what}')
    print(f'{prop} {tier}: {tot["obligations"]} obligations, {tot["discharged"]} discharged, {tot["undecided"]} undecided, '
          f'{tot["violated"]} violated; {paths} paths; {wall:.1f}s')
    if os.environ.get('VERIF_VERBOSE'):
        for r, c in rules.items():
            print('   ', r, c)
        for u in undecided[:60]:
            print('    ?', u['rule'], u['cell'], '--', u['why'])
    if violations:
        rp = evdir / f'{prop}.violations.json'
        rp.write_text(json.dumps(violations, indent=1, default=str))
        for v in violations[:8]:
            print(f'VIOLATION property={prop} replay={rp}')
            print(f'  rule: {v["rule"]}\n  cell: {v["cell"]}\n  construct: {v["construct"]}\n  detail: {v["detail"][:700]}')
        if len(violations) > 8:
            print(f'  ... {len(violations) - 8} more in {rp}')
        return 1
    if not tot['discharged']:
        print(f'ANALYSIS-BROKEN property={prop}: no obligation could be decided')
        return 2
    return 0


def load_known(prop):
    f = VERIF / 'known-findings.json'
    if not f.exists():
        return []
    d = json.loads(f.read_text())
    return [k for k in d.get('findings', []) if k['property'] == prop]


def work(registry, prop, tier):
    """One worker: the check in a thread with a deep stack; returns the exit status"""
    rc = [2]

    def start():
        return registry(prop)(prop, tier)
    # a frame with a large evaluation stack makes CPython allocate one large chunk for all frames below it,
    # instead of mapping and unmapping small chunks at a boundary
    start.__code__ = start.__code__.replace(co_stacksize=(1 << 21) + 64)

    def body():
        try:
            rc[0] = start()
        except AnchorMissing as e:
            print(f'ANALYSIS-BROKEN property={prop}: {e}')
        except BaseException:
            traceback.print_exc()
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    return rc[0]


def main(registry):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    n = a.jobs
    if n <= 1:
        os._exit(work(registry, a.property, a.tier))
    tmp = tempfile.mkdtemp(prefix='verif-')
    pids = []
    for i in range(n):
        pid = os.fork()
        if pid == 0:
            SHARD[:] = [i, n]
            SHARD_FILE[0] = f'{tmp}/{i}'
            if i:
                # the other workers fail in the same way if they do
                sys.stdout = sys.stderr = open(os.devnull, 'w')
            os._exit(work(registry, a.property, a.tier))
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    states = []
    for i in range(n):
        f = f'{tmp}/{i}'
        if os.path.exists(f):
            with open(f, 'rb') as fh:
                states.append(pickle.load(fh))
            os.unlink(f)
        else:
            print(f'NOTE worker {i} gave no result')
    os.rmdir(tmp)
    rc = report(states) if states else 2
    sys.stdout.flush()
    os._exit(rc)
