"""C19 Data functions implement their relational meaning; CSV typing round-trips"""

import datetime
import itertools
import random
from fractions import Fraction

from absint.values import CUR, HostFn, Sym, show, sym
from absint.zones import EPOCH, rules

from . import grammar
from .c03 import Ref, ref_truth
from .c11 import RefCompare
from .common import Check
from .refrun import RefRun, allof, matches

TECHNIQUE = ('abstract interpretation of the data functions (script library and exported Python functions) and of dataParseCSV on tables with opaque keys and measures and on constant tables, '
             'against reference relational definitions over the reference value preorder and an independent CSV writer')
NOTE = ('Opaque-key tables have up to 3 rows (every equality/order pattern of the keys is a path); constant tables reach 12 x 5 with duplicate, null, mixed-type, container, infinite and JSON-punctuation keys, colliding field '
        'names, multi-key sorts, int and float counts. Aggregates of numbers are judged against exact rational values within a rounding tolerance; numeric aggregates of non-numbers and overflowing totals are not judged. '
        'Unmatched left rows follow the behaviour pinned by the tests. CSV is written by an own writer (quoting, LF/CRLF, several text arguments) in three time zones; ragged CSV rows are excluded.')

D = datetime.datetime
DATE = datetime.date
INF = float('inf')


# ---------------------------------------------------------------------------------------------- tables

def opaque_tables():
    """(name, maker) with opaque key 'k' and payload 'v'; 1-3 rows"""
    out = []
    kinds = ('float', 'int', 'str', 'bool', 'datetime', 'date')

    def key(kind, i):
        if kind == 'null':
            return None
        if kind == 'missing':
            return Ellipsis
        if kind == 'array':
            return [sym(f'k{i}', 'float')]
        if kind == 'object':
            return {'x': sym(f'k{i}', 'str')}
        return sym(f'k{i}', kind)

    def maker(ks):
        def make():
            rows = []
            for i, k in enumerate(ks):
                row = {'id': float(i)}
                x = key(k, i)
                if x is not Ellipsis:
                    row['k'] = x
                row['v'] = sym(f'v{i}', 'float')
                rows.append(row)
            return rows
        return make
    every = kinds + ('null', 'missing', 'array', 'object')
    for k in every:
        out.append((k, maker([k])))
    for a, b in itertools.product(every, repeat=2):
        out.append((f'{a},{b}', maker([a, b])))
    for t in [('float',) * 3, ('float', 'int', 'float'), ('str',) * 3, ('bool',) * 3, ('float', 'null', 'float'), ('str', 'missing', 'null'), ('array',) * 3, ('object', 'object', 'null'), ('datetime', 'date', 'datetime'),
              ('bool', 'int', 'str'), ('str', 'array', 'str')]:
        out.append((','.join(t), maker(t)))
    return out


PUNCT = ['', ' ', '"', '\\', '"]', '["a"]', 'a","b', "a','b", '[', ']', '{', '}', ',', ':', 'null', 'true', '1', '1.0', '{"a":1}', '[1]', '\n', '\\n', "'", 'é', '\U0001f600', 'a', 'A', 'b', 'aa']
MIXED = [None, True, False, 0, 0.0, 1, 1.0, 2, 10, 9, -1, 0.5, '1', '1.0', 'true', 'null', '', 'a', '["a"]', '[1]', 'a","b', [], [1], [1.0], ['1'], [None], [[]], {}, {'a': 1}, {'a': 1.0}, {'a': None}, {'b': 1}, {'a': '1'},
         D(2024, 1, 1), DATE(2024, 1, 1), D(2024, 1, 1, 0, 0, 1), '2024-01-01', '2024-01-01T00:00:00+00:00', INF, -INF, 1e300, 2 ** 53, 2.0 ** 53, 2 ** 53 + 1, -0.0]
NUMBERS = [0, 0.0, 1, 1.0, 2, 2.5, 3.0, -1, -2.5, 10, 9, 100.0, 0.1, 0.2, 0.3, 1e9, 1e9 + 1, 1e9 + 2, -7, 1 / 3]
HUGE = [1e300, -1e300, 1e308, 5e-324, 1e16, 1.0, -1e16, 10 ** 20, 2 ** 53 + 1]
DATES = [D(2024, 1, 1), DATE(2024, 1, 1), DATE(2023, 12, 31), D(2024, 1, 1, 12, 30), D(2023, 6, 1), D(2024, 1, 1, 0, 0, 0, 1000)]
BOOLS = [True, False]


def pools():
    return {'mixed': MIXED, 'punct': PUNCT, 'numbers': NUMBERS, 'dates': DATES, 'bools': BOOLS, 'few': [1, 1.0, '1', True, None], 'ab': ['a', 'b', None], 'small': [1.0, 2.0, 3], 'lists': [[1], [1, 2], ['1'], [], [[1], 2], [1, [2]]],
            'pairs': ['a', 'b', 'a","b', 'a', '","', '"'], 'huge': HUGE}


def deep(v):
    if isinstance(v, list):
        return [deep(x) for x in v]
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    return v


def random_table(r, fields, kinds, rows, missing=0.06, null=0.12):
    ps = pools()
    table = []
    sub = {f: (r.sample(ps[k], min(len(ps[k]), r.choice([2, 3, 4, 40])))) for f, k in zip(fields, kinds)}
    for _ in range(rows):
        row = {}
        for f in fields:
            x = r.random()
            if x < missing:
                continue
            row[f] = None if x < missing + null else deep(r.choice(sub[f]))
        table.append(row)
    return table


# ---------------------------------------------------------------------------------------------- reference definitions

class Relational:
    """Reference definitions of the data functions"""

    def __init__(self, ck, library, builtins):
        self.ref = Ref(ck)
        self.cmp = RefCompare(ck)
        self.builtins = builtins

    def equal(self, it, a, b):
        return self.cmp(it, a, b) == 0

    def groups(self, it, keys):
        """Indices by equal key, groups in order of first appearance"""
        out = []
        for i, k in enumerate(keys):
            for g in out:
                if self.equal(it, keys[g[0]], k):
                    g.append(i)
                    break
            else:
                out.append([i])
        return out

    def value(self, it, text, row, globals_, variables):
        g = dict(globals_)
        g.update(variables or {})
        run = RefRun(self.ref, it, g)
        run.builtins = self.builtins
        return run.eval(grammar.parse(text), row)

    def filter(self, it, rows, text, globals_=(), variables=None):
        return [r for r in rows if ref_truth(it, self.value(it, text, r, dict(globals_), variables))]

    def calculated(self, it, rows, name, text, globals_=(), variables=None):
        for r in rows:
            r[name] = self.value(it, text, r, dict(globals_), variables)
        return rows

    def sort(self, it, rows, sorts):
        def before(a, b):
            for s in sorts:
                c = self.cmp(it, a.get(s[0]), b.get(s[0]))
                if len(s) > 1 and s[1]:
                    c = -c
                if c:
                    return c
            return 0
        out = []
        for r in rows:       # stable insertion
            i = len(out)
            while i and before(out[i - 1], r) > 0:
                i -= 1
            out.insert(i, r)
        return out

    def top(self, it, rows, count, fields):
        gs = self.groups(it, [[r.get(f) for f in fields] if fields is not None else [] for r in rows])
        return [rows[i] for g in gs for i in g[:int(count)]]

    def join(self, it, left, right, lexpr, rexpr, is_left, globals_=(), variables=None):
        """[(left index, right index | None)]"""
        rk = [self.value(it, rexpr if rexpr is not None else lexpr, r, dict(globals_), variables) for r in right]
        out = []
        for i, r in enumerate(left):
            k = self.value(it, lexpr, r, dict(globals_), variables)
            hits = [j for j, x in enumerate(rk) if self.equal(it, k, x)]
            if hits:
                out += [(i, j) for j in hits]
            elif not is_left:
                out.append((i, None))
        return out


def judge_join(it, got, left, right, pairs):
    """Every joined row: the left row, untouched, and the right row's values under the fields' (consistent, unused) names"""
    if not isinstance(got, list) or len(got) != len(pairs):
        return False, f'{show(got)[:400]}: expected {len(pairs)} rows (left, right): {pairs}'
    lnames = {f for r in left for f in r}
    names = {}
    res = []
    for row, (i, j) in zip(got, pairs):
        if not isinstance(row, dict):
            return False, f'not a row: {show(row)}'
        want = left[i]
        for f, v in want.items():
            if f not in row:
                return False, f'left field {f!r} is lost: {show(row)[:300]}'
            r = matches(it, row[f], v)
            if r is False:
                return False, f'left field {f!r} of row {i} is {show(row[f])[:100]}, was {show(v)[:100]}'
            res.append(r)
        extra = [f for f in row if f not in want]
        rrow = {} if j is None else right[j]
        if len(extra) != len(rrow):
            return False, f'row of left {i} and right {j} has {len(extra)} more fields than the left row, expected {len(rrow)}: {show(row)[:300]}'
        free = list(extra)
        for f, v in rrow.items():
            if f in names:
                n = names[f]
            elif f not in lnames:
                n = f
            else:
                cand = [x for x in free if x.startswith(f) and x[len(f):].isdigit() and x not in names.values() and x not in lnames and not any(x in r for r in right)]
                ok = [x for x in cand if matches(it, row[x], v) is not False]
                if not ok:
                    return False, f'no new field for the colliding right field {f!r} of right row {j}: {show(row)[:300]}'
                n = ok[0]
            names[f] = n
            if n not in free:
                return False, f'right field {f!r} of right row {j} is not in the joined row as {n!r}: {show(row)[:300]}'
            free.remove(n)
            r = matches(it, row[n], v)
            if r is False:
                return False, f'right field {f!r} (as {n!r}) is {show(row[n])[:100]}, expected {show(v)[:100]}'
            res.append(r)
    return allof(res), 'undetermined'


def is_number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def judge_measure(it, cmp, func, got, values):
    """Three-valued"""
    if not values:
        return got is None, f'{func} of no values is {show(got)}'
    if func == 'count':
        return (is_number(got) and got == len(values)), f'count is {show(got)}, expected {len(values)}'
    if func in ('min', 'max'):
        if got is None:
            return False, f'{func} of {show(values)[:200]} is null'
        best = values[0]
        for v in values[1:]:
            c = cmp(it, v, best)
            if c < 0 if func == 'min' else c > 0:
                best = v
        if cmp.type(it, got) != cmp.type(it, best) or cmp(it, got, best) != 0:
            return False, f'{func} of {show(values)[:200]} is {show(got)}, expected {show(best)}'
        return True, ''
    if not all(is_number(v) for v in values):
        return None, 'opaque or non-numeric measure'
    if not all(abs(v) < INF for v in values):
        return None, 'infinite measure'
    n = len(values)
    xs = [Fraction(v) for v in values]
    if sum(abs(x) for x in xs) > Fraction(10) ** 307:
        return None, 'overflow'
    if not is_number(got) or got != got or abs(got) == INF:
        return False, f'{func} of {show(values)[:300]} is {show(got)}'
    eps = Fraction(1, 2 ** 50)
    mag = sum(abs(x) for x in xs)
    s = sum(xs)
    g = Fraction(got)
    tiny = Fraction(1, 10 ** 300)
    if func == 'sum':
        want, tol = s, eps * n * mag
    elif func == 'average':
        want, tol = s / n, eps * n * mag / n
    else:
        mean = s / n
        var = sum((x - mean) ** 2 for x in xs) / n
        if var > Fraction(10) ** 300:
            return None, 'overflow'
        # sqrt within 1e-18 relative
        scale = 10 ** 60
        import math
        k = math.isqrt(int(var * scale * scale * 10 ** 600)) if var else 0
        want = Fraction(k, scale * 10 ** 300)
        tol = want * Fraction(1, 10 ** 9) + eps * n * max(abs(x) for x in xs)
    if abs(g - want) > tol + tiny:
        return False, f'{func} of {show(values)[:300]} is {show(got)}, expected {float(want)!r}'
    return True, ''


# ---------------------------------------------------------------------------------------------- CSV

def csv_quote(text, always):
    if always or text == '' or text != text.strip() or any(c in text for c in ',"\r\n'):
        return '"' + text.replace('"', '""') + '"'
    return text


def number_text(v, style):
    if isinstance(v, int):
        return str(v)
    if style == 0 and v == int(v) and abs(v) < 1e15:
        return str(int(v)) if v or str(v)[0] != '-' else '-0'
    return repr(v)


def datetime_text(v, zone, style):
    if style == 0 and (type(v) is DATE or (v.hour, v.minute, v.second, v.microsecond) == (0, 0, 0, 0)):
        return f'{v.year:04d}-{v.month:02d}-{v.day:02d}'
    if type(v) is DATE:
        v = D(v.year, v.month, v.day)
    u, us = zone.instant(v)
    if style == 1:
        w = EPOCH + datetime.timedelta(seconds=u)
        suffix = 'Z'
    else:
        off = zone.offset(u) if zone.offset(u) % 60 == 0 else 0
        w = EPOCH + datetime.timedelta(seconds=u + off)
        suffix = f'{"-" if off < 0 else "+"}{abs(off) // 3600:02d}:{abs(off) // 60 % 60:02d}'
    frac = f'.{us // 1000:03d}' if us or style == 2 else ''
    return f'{w.year:04d}-{w.month:02d}-{w.day:02d}T{w.hour:02d}:{w.minute:02d}:{w.second:02d}{frac}{suffix}'


FIRST = ['a', 'abc', 'x, y', 'say "hi"', '"', '""', 'line 1\nline 2', 'l1\r\nl2', ' lead', 'trail ', '2024-02-30', '2024-13-01', '2023-02-29', '2024-00-10', '2024-04-31', '2024-02-30T00:00:00Z', '2024-01-01T25:00:00Z', '2024-01-01T00:61:00+00:00',
         '2024-1-5', '2024-01-01 00:00', '24-01-01', '2024-01-01T', '2024-01-01x', 'x2024-01-01', '٢٠٢٤-٠١-٠١', 'True', 'FALSE', 'yes', 'nan', 'NaN', 'inf', 'Infinity', '-inf', '1_000', '0x10', '12abc', '--1', '1,000', '$5', '.', '-', 'e5', '1e', '1 2', '1/2',
         'NULL', 'None', 'nulls', 'é', '\U0001f600', "it's", '[1]', '{"a": 1}', '#', '=1+1', ';', '\t', 'a\tb', 'a\vb', 'a\x85b', 'a\u2028b', '\ufeff', 'true ', '0001-01-01T00:00:00', '9999-99-99', '0000-00-00', '2024-02-30T99:99:99.999+99:99']
LATER = FIRST + ['', '1', '1.5', 'true', 'false', '2024-01-01', '2024-01-01T00:00:00Z', '0', '-0', '1e5', ' ', '  ', ',', '\n', '\r\n', ',,', '","', '""""', 'null ', ' null']
CSV_NUMBERS = [0, 1, -1, 2.5, -0.0, 0.1, 1e21, 1e-7, 5e-324, 1.7976931348623157e308, 123456789012345680.0, 1e16, 1 / 3, -2.5e-10, 100.0, 9007199254740993.0, 0.30000000000000004, 1e5]
CSV_DATES = [D(2024, 1, 1), DATE(2024, 2, 29), D(2024, 1, 1, 12, 30, 15), D(1999, 12, 31, 23, 59, 59, 999000), D(2024, 7, 4, 1, 2, 3, 4000), D(1970, 1, 1, 12), D(2038, 1, 19, 3, 14, 8), DATE(1970, 1, 2), D(2024, 6, 30), D(9999, 12, 31), DATE(9999, 12, 31), D(1, 1, 2)]
HEADERS = [['a', 'b', 'c', 'd', 'e'], ['A field', 'b,c', 'say "x"', 'é', ' lead'], ['1', 'true', '2024-01-01', 'null', 'x'], ['a', 'a2', 'a3', 'A', 'aa']]


def csv_table(r, zone):
    """(header, columns: kinds, rows of typed values)"""
    nc, nr = r.randint(1, 5), r.randint(1, 12)
    header = r.choice(HEADERS)[:nc]
    kinds = [r.choice(['number', 'boolean', 'datetime', 'string', 'string', 'string', 'null']) for _ in range(nc)]
    rows = [dict() for _ in range(nr)]
    for h, k in zip(header, kinds):
        first = True
        for row in rows:
            if k == 'null' or r.random() < 0.2:
                row[h] = None
            elif k == 'number':
                row[h] = r.choice(CSV_NUMBERS)
            elif k == 'boolean':
                row[h] = r.random() < 0.5
            elif k == 'datetime':
                row[h] = r.choice(CSV_DATES)
            else:
                row[h] = r.choice(FIRST) if first else r.choice(LATER)
                first = False
    return header, kinds, rows


def write_csv(r, zone, header, kinds, rows):
    """The CSV text arguments and the rows expected from reading them"""
    always = r.random() < 0.3
    eol = r.choice(['\n', '\r\n'])
    lines = [','.join(csv_quote(h, always) for h in header)]
    want = []
    for row in rows:
        cells, w = [], {}
        for h, k in zip(header, kinds):
            v = row[h]
            if v is None:
                t = '' if k in ('number', 'boolean', 'datetime') and len(header) > 1 and any(x[h] is not None for x in rows) and r.random() < 0.3 else 'null'
                cells.append(t)
                w[h] = None
            elif k == 'number':
                cells.append(number_text(v, r.randint(0, 1)))
                w[h] = v
            elif k == 'boolean':
                cells.append('true' if v else 'false')
                w[h] = v
            elif k == 'datetime':
                cells.append(datetime_text(v, zone, r.randint(0, 2)))
                w[h] = D(v.year, v.month, v.day) if type(v) is DATE else v
            else:
                cells.append(csv_quote(v, always or v != v.strip()))
                w[h] = v
        lines.append((r.choice([',', ', ']) if r.random() < 0.3 and not always else ',').join(cells))
        want.append(w)
    # whole records per argument
    cut = sorted(r.sample(range(1, len(lines)), r.randint(0, min(2, len(lines) - 1)))) if len(lines) > 1 else []
    args, prev = [], 0
    for c in cut + [len(lines)]:
        end = eol if r.random() < 0.6 else ''
        args.append(eol.join(lines[prev:c]) + end)
        prev = c
    if r.random() < 0.2:
        args.insert(r.randint(0, len(args)), None)
    return args, want


# a typed value as the reader must give it
def alike(it, got, want):
    if isinstance(want, str) or want is None or isinstance(want, bool):
        if isinstance(got, Sym):
            return None
        return type(got) is type(want) and got == want
    if isinstance(want, datetime.datetime):
        if isinstance(got, Sym):
            return None
        return isinstance(got, datetime.datetime) and got.tzinfo is None and got == want
    if isinstance(got, Sym):
        return None
    return is_number(got) and got == want


def table_alike(it, got, want):
    if not isinstance(got, list) or len(got) != len(want):
        return False, f'{show(got)[:500]}, expected {len(want)} rows'
    res = True
    for i, (g, w) in enumerate(zip(got, want)):
        if not isinstance(g, dict) or set(g) != set(w):
            return False, f'row {i} is {show(g)[:300]}, expected {show(w)[:300]}'
        for k in w:
            r = alike(it, g[k], w[k])
            if r is False:
                return False, f'row {i} field {k!r} is {show(g[k])[:200]}, expected {show(w[k])[:200]}'
            if r is None:
                res = None
    return res, 'opaque cell'


# ---------------------------------------------------------------------------------------------- the check

EXPRS = ['a', 'b', '!a', 'a > 1', 'a >= b', 'a == b', 'a != null', 'a && b', 'a || c', 'a + b', 'a * 2', '-a', 'v', 'g', 'g + v', 'missing', '[a] == [b]', 'if(a, b, c)', 'if(a == null, 0, a)', 'double(a)', 'double(v)', "a + ''", 'true', 'null', '0', "'0'", "''",
         'abs(b)', 'max(a, b)', 'len(a)', '[a b]', 'a < b && b < c', '!(a == b)', 'double', 'v == a', 'g == 5']
JOINS = [('a', None), ('a', 'b'), ('b', 'a'), ('a + b', None), ('if(a, 1, 0)', None), ('null', None), ('a == v', None), ('[a b]', 'a'), ('c', 'c'), ("a + ''", None), ('double(a)', 'a'), ('missing', None), ('true', "'true'"), ('g', 'v')]
FUNCS = ['count', 'sum', 'min', 'max', 'average', 'stddev']
NAMES5 = [['a', 'b', 'c'], ['a', 'a2', 'a3', 'b', 'c'], ['a', 'b', 'a2', 'c', 'a3'], ['a', 'b'], ['a b', 'a', 'b', 'c']]
PROTO = ['a', 'a2', 'a22', 'b', '2']


def run(prop, tier):
    ck = Check(prop, tier, 'relational reference per data function on opaque and constant tables; typed CSV round trip; a cell is one function applied to one table')
    lib = ck.fn('library', 'SCRIPT_FUNCTIONS')
    builtins = ck.fn('library', 'EXPRESSION_FUNCTIONS')
    rel = Relational(ck, lib, builtins)
    zones = [z for z in rules() if z.name in ('UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Chatham')]
    ev = ck.fn('runtime', 'evaluate_expression')
    py = {n: ck.fn('data', n) for n in ('filter_data', 'add_calculated_field', 'sort_data', 'top_data', 'aggregate_data', 'join_data', 'validate_data')}
    PY = {'dataFilter': 'filter_data', 'dataCalculatedField': 'add_calculated_field', 'dataSort': 'sort_data', 'dataTop': 'top_data', 'dataAggregate': 'aggregate_data', 'dataJoin': 'join_data'}
    WITHOPTIONS = ('dataFilter', 'dataCalculatedField', 'dataJoin')

    def double(it, a, kw):
        x = a[0][0] if a[0] else None
        return it.binop('+', x, x) if is_number(x) or (isinstance(x, Sym) and it.ty(x) in ('int', 'float')) else x
    DOUBLE = HostFn('double', double)
    GLOBALS = {'g': 5.0, 'a': 'global a', 'double': DOUBLE, 'v': 'global v', 'len': HostFn('len', lambda it, a, kw: float(len(a[0][0])) if isinstance(a[0][0], (str, list)) else None)}

    def call(it, name, mode, args, opts):
        if mode == 'script':
            return it.call(lib[name], [args, opts], {})
        f = py[PY[name]]
        if mode == 'python without options':
            return it.call(f, args, {})
        if name in WITHOPTIONS:
            return it.call(f, args, {'options': opts})
        return it.call(f, args, {})

    def changed(p):
        return [e for e in p.effects if e[0] == 'mutate']

    def judged(name, cell, mode, thunk, judge, frozen=True, max_paths=300):
        def j(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r} at {p.note}'
            r = judge(p)
            if frozen and (r[0] if isinstance(r, tuple) else r) is not False and changed(p):
                return False, f'changes its input: {show(changed(p)[0])[:300]}'
            return r
        where = ck.where(lib[name]) if mode == 'script' else ck.where(py[PY[name]])

        def zoned(it):
            it.zone = zones[0]
            try:
                return thunk(it)
            finally:
                it.zone = None
        ck.cell(name, f'{cell} ({mode})', where, zoned, j, max_paths)

    def same(p, got, want):
        r = matches(ck.it, got, want)
        return r, f'{show(got)[:450]}, expected {show(want)[:450]}'

    def modes(i, texts=None):
        bare = ('python without options',) if texts is not None and 'double' not in texts and (i % 5 == 4 or ck.thorough) else ()
        return ('script', 'python', *bare) if ck.thorough else bare or (('script', 'python')[i % 2],)

    def scope(mode):
        return {} if mode == 'python without options' else GLOBALS

    def skip(text, *makes):
        """Arithmetic on integers near and beyond 2**53 is not specified"""
        return any(c in text for c in '+-*') and any(isinstance(v, int) and abs(v) > 2 ** 50 for m in makes for row in m() for v in row.values())

    # -- the cases
    def do_filter(cell, make, text, variables, i=0):
        if skip(text, make):
            return
        for mode in modes(i, text):
            def thunk(it, mode=mode):
                t = make()
                it.freeze(t, 'the data')
                opts = {'globals': dict(GLOBALS)}
                want = rel.filter(it, make(), text, scope(mode), variables)
                got = call(it, 'dataFilter', mode, [t, text] + ([dict(variables)] if variables is not None else []), opts)
                return got, want
            judged('dataFilter', cell, mode, thunk, lambda p: same(p, *p.value))

    def do_calc(cell, make, field, text, variables, i=0):
        if skip(text, make):
            return
        for mode in modes(i, text):
            def thunk(it, mode=mode):
                t = make()
                opts = {'globals': dict(GLOBALS)}
                want = rel.calculated(it, make(), field, text, scope(mode), variables)
                got = call(it, 'dataCalculatedField', mode, [t, field, text] + ([dict(variables)] if variables is not None else []), opts)
                return got, want, t
            def judge(p):
                got, want, t = p.value
                r = same(p, got, want)
                return r if r[0] is False or got is t else same(p, t, want)
            judged('dataCalculatedField', cell, mode, thunk, judge, frozen=False)

    def do_sort(cell, make, sorts, i=0, max_paths=400):
        for mode in modes(i):
            def thunk(it, mode=mode):
                t = make()
                want = rel.sort(it, make(), sorts)
                return call(it, 'dataSort', mode, [t, deep(sorts)], {}), want
            judged('dataSort', cell, mode, thunk, lambda p: same(p, *p.value), frozen=False, max_paths=max_paths)

    def do_top(cell, make, count, fields, i=0, max_paths=300):
        for mode in modes(i):
            def thunk(it, mode=mode):
                t = make()
                it.freeze(t, 'the data')
                want = rel.top(it, make(), count, fields)
                return call(it, 'dataTop', mode, [t, count] + ([list(fields)] if fields is not None else [None] if i % 3 else []), {}), want
            judged('dataTop', cell, mode, thunk, lambda p: same(p, *p.value), max_paths=max_paths)

    def do_join(cell, makel, maker, lexpr, rexpr, is_left, variables, i=0, max_paths=300):
        if skip(lexpr + (rexpr or ''), makel, maker):
            return
        for mode in modes(i, lexpr + (rexpr or '')):
            def thunk(it, mode=mode):
                a, b = makel(), maker()
                it.freeze(a, 'the left data'), it.freeze(b, 'the right data')
                la, lb = makel(), maker()
                pairs = rel.join(it, la, lb, lexpr, rexpr, is_left, scope(mode), variables)
                args = [a, b, lexpr]
                if rexpr is not None or is_left or variables is not None or i % 2:
                    args += [rexpr]
                if is_left or variables is not None:
                    args += [is_left]
                if variables is not None:
                    args += [dict(variables)]
                return call(it, 'dataJoin', mode, args, {'globals': dict(GLOBALS)}), la, lb, pairs
            judged('dataJoin', cell, mode, thunk, lambda p: judge_join(ck.it, *p.value), max_paths=max_paths)

    def do_aggregate(cell, make, categories, measures, i=0, max_paths=300):
        for mode in modes(i):
            def thunk(it, mode=mode):
                t = make()
                it.freeze(t, 'the data')
                model = {'measures': [{k: v for k, v in zip(('field', 'function', 'name'), m) if v is not None} for m in measures]}
                if categories is not None:
                    model['categories'] = list(categories)
                it.freeze(model, 'the aggregation model')
                got = call(it, 'dataAggregate', mode, [t, model], {})
                rows = make()
                gs = rel.groups(it, [[r.get(f) for f in categories] if categories is not None else [] for r in rows])
                # judged here: the comparisons of opaque values fork
                if not isinstance(got, list) or len(got) != len(gs):
                    return False, f'{show(got)[:400]}, expected {len(gs)} rows'
                outs = {m[2] if m[2] is not None else m[0]: m for m in measures}
                res = True
                for g, row in zip(gs, got):
                    names = list(dict.fromkeys(list(categories or ()) + list(outs)))
                    if not isinstance(row, dict) or set(row) != set(names):
                        return False, f'fields {show(row)[:300]}, expected {names}'
                    for c in categories or ():
                        if c not in outs:
                            v = rows[g[0]].get(c)
                            if not rel.equal(it, row[c], v):
                                return False, f'category {c!r} is {show(row[c])}, expected {show(v)}'
                    for out, (field, func, _) in outs.items():
                        vs = [rows[x].get(field) for x in g]
                        r, why = judge_measure(it, rel.cmp, func, row[out], [v for v in vs if v is not None])
                        if r is False:
                            return False, why
                        if r is None and not (func in ('sum', 'average', 'stddev') and isinstance(row[out], Sym)):
                            res = None
                return res, 'not judged'
            judged('dataAggregate', cell, mode, thunk, lambda p: p.value, max_paths=max_paths)

    # R1 opaque tables
    ops = opaque_tables()
    for i, (n, make) in enumerate(ops):
        rows = n.count(',') + 1
        for sorts in ([['k']], [['k', True]], [['k', False], ['v', True]]) if rows < 3 or ck.thorough else ([['k']], [['k', True]]):
            do_sort(f'opaque {n} by {sorts}', make, sorts, i)
        for count, fields in ((1.0, ['k']), (2, ['k']), (1, None), (2.0, None), (1.0, ['k', 'id']), (1.0, [])):
            do_top(f'opaque {n} top {count!r} of {fields}', make, count, fields, i)
        do_aggregate(f'opaque {n} by k', make, ['k'], [('v', 'count', None), ('v', 'min', 'lo'), ('v', 'max', 'hi'), ('id', 'sum', 'total'), ('id', 'average', None), ('id', 'stddev', 'dev')], i)
        do_aggregate(f'opaque {n} by nothing', make, None, [('v', 'max', None), ('k', 'count', 'n')], i)
        if rows < 3:
            for text in ('k', '!k', 'v', 'k == v', 'k && v', 'k > v', 'k + v', 'if(k, v, id)'):
                do_filter(f'opaque {n} by {text}', make, text, None, i)
                do_calc(f'opaque {n} {text}', make, 'k' if i % 2 else 'w', text, None, i)

    def right(make):
        def m():
            return [{k: (sym('r' + v.op, v.ty) if isinstance(v, Sym) else v) for k, v in row.items()} for row in make()]
        return m
    flat = [(n, m) for n, m in ops if 'array' not in n and 'object' not in n]
    for i, ((n, m), (n2, m2)) in enumerate(itertools.product(flat, flat)):
        r1, r2 = n.count(',') + 1, n2.count(',') + 1
        if r1 + r2 > 3 and not (ck.thorough and r1 + r2 == 4 and i % 7 == 0):
            continue
        do_join(f'opaque {n} with {n2}', m, right(m2), 'k', None, i % 3 == 2, None, i)
    for i, (n, m) in enumerate([x for x in ops if x[0] in ('array', 'object', 'array,array', 'object,array', 'array,object')]):
        do_join(f'opaque {n} with itself', m, m, 'k', None, False, None, i)

    # R2 constant tables
    fixed = [
        ('empty', []), ('one empty row', [{}]), ('two empty rows', [{}, {}]),
        ('json keys', [{'a': 'a","b', 'b': 'c'}, {'a': 'a', 'b': 'b","c'}, {'a': 'a","b', 'b': 'c'}]),
        ('number and text', [{'a': 1, 'b': 1}, {'a': '1', 'b': 2}, {'a': 1.0, 'b': 3}, {'a': True, 'b': 4}, {'a': 'true', 'b': 5}, {'a': None, 'b': 6}, {'a': 'null', 'b': 7}, {'b': 8}]),
        ('containers', [{'a': [1], 'b': 1}, {'a': '[1]', 'b': 2}, {'a': [1.0], 'b': 3}, {'a': ['1'], 'b': 4}, {'a': {'x': 1}, 'b': 5}, {'a': '{"x":1}', 'b': 6}, {'a': {'x': 1.0}, 'b': 7}, {'a': [True], 'b': 8}]),
        ('object order', [{'a': {'x': 1, 'y': 2}, 'b': 1}, {'a': {'y': 2, 'x': 1}, 'b': 2}, {'a': {'x': 2, 'y': 1}, 'b': 3}]),
        ('dates', [{'a': D(2024, 1, 1), 'b': 1}, {'a': DATE(2024, 1, 1), 'b': 2}, {'a': '2024-01-01', 'b': 3}, {'a': D(2024, 1, 1, 0, 0, 0, 1), 'b': 4}, {'a': '2024-01-01T00:00:00+00:00', 'b': 5}]),
        ('sub-millisecond', [{'a': D(2024, 1, 1, 0, 0, 0, 1000), 'b': 1}, {'a': D(2024, 1, 1, 0, 0, 0, 1001), 'b': 2}]),
        ('wide numbers', [{'a': 2 ** 53, 'b': 1}, {'a': 2 ** 53 + 1, 'b': 2}, {'a': 2.0 ** 53, 'b': 3}, {'a': 1e16, 'b': 4}, {'a': 10 ** 16, 'b': 5}]),
        ('close numbers', [{'a': 0.1 + 0.2, 'b': 1}, {'a': 0.3, 'b': 2}, {'a': 0.30000000000000004, 'b': 3}]),
        ('infinite', [{'a': INF, 'b': 1}, {'a': -INF, 'b': 2}, {'a': INF, 'b': 3}, {'a': 1e308, 'b': 4}]),
        ('truthiness', [{'a': v, 'b': i} for i, v in enumerate(({}, {'x': 1}, [], [0], [None], [[]], D(1970, 1, 1), DATE(1970, 1, 1), DOUBLE, '', ' ', '0', 'false', 0, 0.0, -0.0, 0.5, -1, False, True, None, sym('re', 'regex')))]),
        ('booleans and numbers', [{'a': 'x', 'b': v} for v in (True, 2, False, 0.5, 1)] + [{'a': 'y', 'b': v} for v in (1, True)] + [{'a': 'z', 'b': v} for v in (True, 1.0)] + [{'a': 'w', 'b': v} for v in (0, False, -1)]),
        ('mixed measures', [{'a': a, 'b': v} for a, vs in (('p', (1, '1')), ('q', ('a', 2)), ('r', (D(2024, 1, 1), 'x', 5)), ('s', ([1], [1, 2], 'z')), ('t', ({'x': 1}, {'x': 0})), ('u', ([2], {'x': 1}, True)), ('v', (None, [], 3)), ('w', (DATE(2024, 1, 1), D(2023, 1, 1)))) for v in vs]),
        ('zero', [{'a': 0.0, 'b': 1}, {'a': -0.0, 'b': 2}, {'a': 0, 'b': 3}, {'a': False, 'b': 4}, {'a': '', 'b': 5}, {'a': None, 'b': 6}, {'a': [], 'b': 7}]),
        ('stddev far from zero', [{'a': 'x', 'b': 1e9 + i} for i in range(5)]),
        ('cancellation', [{'a': 'x', 'b': v} for v in (0.1,) * 10 + (-1.0, 3)]),
        ('integers', [{'a': 'x', 'b': v} for v in (1, 2, 3, 4)]),
        ('even spread', [{'a': 'x', 'b': v} for v in (2, 4, 4, 4, 5, 5, 7, 9)]),
        ('null measures', [{'a': 'x', 'b': None}, {'a': 'x', 'b': 4}, {'a': 'y', 'b': None}, {'a': 'y'}, {'a': 'x', 'b': 0}, {'a': 'z', 'b': False}, {'a': 'z', 'b': True}]),
        ('text measures', [{'a': 'x', 'b': v} for v in ('b', 'a', 'B', '', 'aa', '10', '9')]),
        ('date measures', [{'a': 'x', 'b': v} for v in DATES]),
        ('function values', [{'a': DOUBLE, 'b': 1}, {'a': None, 'b': 2}, {'a': 'null', 'b': 3}]),
        ('one value', [{'a': 'x', 'b': 5}]), ('equal rows', [{'a': 1, 'b': 2}] * 3),
        ('decreasing', [{'a': v, 'b': w} for v, w in ((3, 'x'), (2, 'y'), (1, 'x'), (3, 'y'), (2, 'x'), (1, 'y'))]),
        ('field names', [{'a': 1, 'a2': 2, 'a3': 3, 'b': 1}, {'a': 1, 'b': 2, 'c': 5}, {'a2': 1, 'a': 2}]),
        ('spaces', [{'a b': 1, 'a': 2, 'b': 3, '': 4}, {'a b': 2, 'a': 2, 'b': 1, '': 3}]),
    ]
    tables = [(n, lambda t=t: deep(t)) for n, t in fixed]
    r = random.Random(19)
    for i in range(600 if ck.thorough else 90):
        fields = r.choice(NAMES5)
        kinds = [r.choice(list(pools())) for _ in fields]
        t = random_table(r, fields, kinds, r.choice([2, 3, 5, 8, 12, 12]))
        tables.append((f'random {i}', lambda t=t: deep(t)))
    VARS = [None, {'v': 2.0}, {'v': 2.0, 'g': 1, 'a': 9}, {}]
    for i, (n, make) in enumerate(tables):
        t = make()
        rnd = n.startswith('random')
        fields = sorted({f for row in t for f in row}) or ['a']
        rr = random.Random(1900 + i)
        ex = EXPRS if not rnd or ck.thorough else rr.sample(EXPRS, 6)
        for j, text in enumerate(ex):
            do_filter(f'{n}: {text}, variables {VARS[(i + j) % 4]}', make, text, VARS[(i + j) % 4], i + j)
            do_calc(f'{n}: {text}, variables {VARS[(i + j) % 4]}', make, rr.choice(['a', 'new', 'b', '']), text, VARS[(i + j) % 4], i + j)
        sorts = [[[f, d] if d is not None else [f] for f, d in zip(rr.sample(fields, k), [rr.choice([None, True, False, True, False]) for _ in range(k)])] for k in (1, 1, 2, 2, 3, 4) if k <= len(fields)] + [[['missing'], [fields[0], True]], []]
        for j, s in enumerate(sorts):
            do_sort(f'{n} by {s}', make, s, i + j)
        for j, count in enumerate((1, 1.0, 2, 2.0, 3.0, 100)):
            for k, cats in enumerate([None, [], [fields[0]], fields[:2], [fields[-1], fields[0]], ['missing'], [fields[0], fields[0]]]):
                if ck.thorough or not rnd or (j + k + i) % 3 == 0:
                    do_top(f'{n} top {count!r} of {cats}', make, count, cats, i + j + k)

        def numeric(f, t=t):
            return all(row.get(f) is None or is_number(row.get(f)) and abs(row[f]) < INF for row in t)

        def ordered(f, t=t):
            return all(rel.cmp.type(None, row.get(f)) != 'function' for row in t)
        num = [f for f in fields if numeric(f)]
        cmpf = [f for f in fields if ordered(f)]
        ag = []
        for cats in (None, [fields[0]], fields[:2], fields[-1:], ['missing'], fields):
            ms = [(f, 'count', f'n {f}') for f in fields[:3]] + [(f, fn, f'{fn} {f}') for f in cmpf for fn in ('min', 'max')] + [(f, fn, f'{fn} {f}') for f in num for fn in ('sum', 'average', 'stddev')]
            ag.append((cats, ms))
            ag.append((cats, [(rr.choice(fields), 'count', None)]))
            if num:
                f = rr.choice(num)
                fn = rr.choice(FUNCS)
                ag.append((cats, [(f, fn, None), (f, 'count', 'n')]))
                ag.append((cats, [(f, 'sum', 'x'), (f, 'max', 'x')]))
                ag.append((cats, [(f, 'sum', fields[0])]))
        for j, (cats, ms) in enumerate(ag):
            do_aggregate(f'{n} by {cats}: {[m[1] + " " + m[0] + (" as " + m[2] if m[2] else "") for m in ms]}'[:300], make, cats, ms, i + j)
        # joins with itself and with the next table
        n2, make2 = tables[(i + 1) % len(tables)]
        js = JOINS if not rnd or ck.thorough else rr.sample(JOINS, 4)
        for j, (le, re_) in enumerate(js):
            do_join(f'{n} with {n2} on {le}, {re_}, variables {VARS[(i + j) % 4]}', make, make2, le, re_, j % 3 == 1, VARS[(i + j) % 4], i + j)
            if not rnd or j < 2:
                do_join(f'{n} with itself on {le}, {re_}', make, make, le, re_, j % 3 == 2, VARS[j % 4], i + j)

    # colliding field names: every split of names between left and right, one key field
    names = ['a', 'a2', 'a3', 'k']
    for i, (ls, rs) in enumerate(itertools.product(range(1, 16), repeat=2)):
        lf = [x for b, x in enumerate(names) if ls >> b & 1]
        rf = [x for b, x in enumerate(names) if rs >> b & 1]
        for rev in (False, True):
            def makel(lf=lf):
                return [{f: f'left {f} {x}' for f in lf} for x in range(2)]

            def maker(rf=rf, rev=rev):
                return [{f: f'right {f} {x}' for f in (reversed(rf) if rev else rf)} for x in range(2)]
            do_join(f'fields {lf} and {rf}{" reversed" if rev else ""}', makel, maker, 'true', None, False, None, i)
    # names with many numbered neighbours: the new name of a right field is none of the left or right names
    many = ['a'] + [f'a{i}' for i in range(1, 13)]
    for i, (lf, rf) in enumerate([(many[:12], ['a', 'a1']), (many[:3], ['a', 'a1', 'a3', 'a13']), (['a', 'a1', 'a2'], many), (many, many), (many[:11], ['a1', 'a', 'a11', 'a12']), (['a', 'a1'], ['a', 'a1', 'a12', 'a2']), (['a', 'a1'], ['a1', 'a', 'a12', 'a2', 'a22']),
                                  (['a', 'a1', 'a12'], ['a', 'a1']), (['a', 'a12'], ['a', 'a1', 'a2']), (['1', '11'], ['1', '11', '12']), (['a', 'a2', 'a22'], ['a', 'a2', 'a22', 'a222']), (many[:6] + ['b'], ['b', 'b1', 'b2'] + many[3:8])]):
        for order in ('given', 'reversed', 'rows apart'):
            def makel(lf=lf, order=order):
                fs = lf[::-1] if order == 'reversed' else lf
                return [{f: f'left {f}'} for f in fs] if order == 'rows apart' else [{f: f'left {f} {x}' for f in fs} for x in range(2)]

            def maker(rf=rf, order=order):
                fs = rf[::-1] if order == 'reversed' else rf
                return [{f: f'right {f}'} for f in fs] if order == 'rows apart' else [{f: f'right {f} {x}' for f in fs} for x in range(2)]
            do_join(f'many names {i} {order}', makel, maker, 'true', None, False, None, i)

    for i, (l_, r_) in enumerate([([{'a': 1}, {'a2': 2, 'k': 1}], [{'a': 3, 'k': 1}]), ([{'a': 1, 'k': 1}], [{'a': 2}, {'a2': 3, 'a': 4}]), ([{'b': 1}, {'a': 2, 'b': 1}], [{'a': 3, 'b': 1}]), ([{'a': 1}], [{'a': None}, {}]), ([{'a': None}], [{'a': 1}]),
                                  ([{'a': 1, 'a2': 2}], [{'a': 3, 'a2': 4, 'a22': 5}]), ([{'2': 1, '22': 2}], [{'2': 3, '22': 4}]), ([{'': 1}], [{'': 2}])]):
        do_join(f'ragged {l_} and {r_}', lambda l_=l_: deep(l_), lambda r_=r_: deep(r_), 'true', None, False, None, i)

    # R3 CSV
    wcsv = ck.where(lib['dataParseCSV'])

    def do_csv(cell, zone, args, want, via='script'):
        def thunk(it):
            it.zone = zone
            try:
                return it.call(lib['dataParseCSV'], [list(args), {}], {})
            finally:
                it.zone = None

        def judge(p):
            if p.kind != 'return':
                return False, f'aborts: raises {p.value!r} for {args!r}'[:600]
            r, why = table_alike(ck.it, p.value, want)
            return r, f'{why} for {args!r}'[:900]
        ck.cell('dataParseCSV', cell, wcsv, thunk, judge, 8)

    rc = random.Random(1919)
    for i in range(4000 if ck.thorough else 500):
        z = zones[i % len(zones)]
        h, k, rows = csv_table(rc, z)
        args, want = write_csv(rc, z, h, k, rows)
        do_csv(f'random {i} in {z.name}', z, args, want)
    for i, text in enumerate(FIRST):
        q = csv_quote(text, False)
        for n, t, want in [('alone', [q, q], [text, text]), ('after null', ['null', q], [None, text]), ('before a date', [q, '2024-01-01'], [text, '2024-01-01']), ('before a number', [q, '1'], [text, '1']), ('before a boolean', [q, 'true', ''], [text, 'true', ''])]:
            do_csv(f'text {text!r} {n}', zones[0], ['x,y\n' + ''.join(c + ',1\n' for c in t)], [{'x': w, 'y': 1} for w in want])
    for i, text in enumerate([t for t in FIRST if t[:10] in ('2024-02-30', '2024-13-01', '2023-02-29', '2024-00-10', '2024-04-31', '9999-99-99', '0000-00-00') or t in ('2024-01-01T25:00:00Z', '2024-01-01T00:61:00+00:00')]):
        for z in zones:
            do_csv(f'date-like {text!r} below a date in {z.name}', z, [f'd,n\n2024-01-01,1\n{text},2\n2024-01-03,3\n'], [{'d': D(2024, 1, 1), 'n': 1}, {'d': text, 'n': 2}, {'d': D(2024, 1, 3), 'n': 3}])
            do_csv(f'date-like {text!r} above a date in {z.name}', z, [f'd,n\n{text},2\n2024-01-03,3\n'], [{'d': text, 'n': 2}, {'d': '2024-01-03', 'n': 3}])
            do_csv(f'date-like {text!r} between texts in {z.name}', z, [f'd,n\nabc,1\n{text},2\n'], [{'d': 'abc', 'n': 1}, {'d': text, 'n': 2}])
    for v in CSV_DATES:
        for z in zones:
            for style in (0, 1, 2):
                w = D(v.year, v.month, v.day) if type(v) is DATE else v
                t = datetime_text(v, z, style)
                do_csv(f'datetime {t} in {z.name}', z, [f'd,n\n{t},1\nnull,2\n,3\n{t},4\n'], [{'d': w, 'n': 1}, {'d': None, 'n': 2}, {'d': None, 'n': 3}, {'d': w, 'n': 4}])
    for v in CSV_NUMBERS:
        for style in (0, 1):
            do_csv(f'number {v!r} {style}', zones[0], [f'd,n\n{number_text(v, style)},1\nnull,2\n,3\n'], [{'d': v, 'n': 1}, {'d': None, 'n': 2}, {'d': None, 'n': 3}])
    for n, args, want in [('no rows', ['a,b\n'], []), ('header alone', ['a,b'], []), ('null column', ['a,b\nnull,1\nnull,2\n'], [{'a': None, 'b': 1}, {'a': None, 'b': 2}]), ('empty text column', ['a,b\n,1\n,2\n'], [{'a': '', 'b': 1}, {'a': '', 'b': 2}]),
                          ('booleans', ['a,b\ntrue,null\n,false\nfalse,\nnull,true\n'], [{'a': True, 'b': None}, {'a': None, 'b': False}, {'a': False, 'b': None}, {'a': None, 'b': True}]),
                          ('type from a later row', ['a,b\n,x\nnull,y\n2024-01-01,z\n'], [{'a': None, 'b': 'x'}, {'a': None, 'b': 'y'}, {'a': D(2024, 1, 1), 'b': 'z'}]), ('digits in a text column', ['a,b\nx,1\n007,2\n'], [{'a': 'x', 'b': 1}, {'a': '007', 'b': 2}])]:
        do_csv(n, zones[0], args, want)

    # R4 typed tables are valid as they are: the exported validation keeps the values and gives the types
    TYPED = {'number': NUMBERS, 'boolean': BOOLS, 'datetime': DATES, 'string': PUNCT + LATER}
    rv = random.Random(91)
    wv = ck.where(py['validate_data'])
    for i in range(300 if ck.thorough else 60):
        nr = rv.randint(1, 8)
        kinds = {f: rv.choice(list(TYPED)) for f in ['a', 'b', 'c'][:rv.randint(1, 3)]}
        rows = [{f: (None if rv.random() < 0.2 else rv.choice(TYPED[k])) for f, k in kinds.items() if rv.random() > 0.1} for _ in range(nr)]
        want_types = {f: k for f, k in kinds.items() if any(row.get(f) is not None for row in rows)}

        def thunk(it, rows=rows):
            t = deep(rows)
            it.freeze(t, 'the data')
            return it.call(py['validate_data'], [t], {}), it.call(lib['dataValidate'], [[deep(rows)], {}], {}), t

        def judge(p, rows=rows, want_types=want_types):
            if p.kind != 'return':
                return False, f'raises {p.value!r} for {show(rows)[:300]}'
            types, same_, t = p.value
            if not isinstance(types, dict) or any(types.get(f) != k for f, k in want_types.items()):
                return False, f'types {show(types)}, expected {want_types} for {show(rows)[:300]}'
            r = allof([matches(ck.it, same_, rows), matches(ck.it, t, rows)])
            return r, f'{show(same_)[:300]}, expected {show(rows)[:300]}'
        ck.cell('validate', f'typed table {i}', wv, thunk, judge, 8)

    # a field of two types is refused
    for k1, k2 in itertools.permutations(TYPED, 2):
        def thunk(it, k1=k1, k2=k2):
            return it.call(py['validate_data'], [[{'a': None}, {'a': TYPED[k1][0]}, {'a': TYPED[k2][1]}]], {})
        ck.cell('validate', f'{k1} field with a {k2}', wv, thunk, lambda p: (p.kind == 'raise', f'accepted: {show(p.value)[:200]}'), 8)

    # R5 through a script: the same functions called from an expression give the value, not null
    def script(name, args, judge, cell):
        from .lab import fcall, var

        def thunk(it):
            vals = args()
            g = {**{f'a{i}': v for i, v in enumerate(vals)}, name: lib[name], 'double': DOUBLE}
            return it.call(ev, [fcall(name, *[var(f'a{i}') for i in range(len(vals))]), {'globals': g}, None, False], {})
        ck.cell('script call', f'{name} {cell}', ck.where(lib[name]), thunk, lambda p: judge(p.value) if p.kind == 'return' else (False, f'raises {p.value!r}'), 8)
    for n, t in fixed:
        it = ck.it
        t1 = deep(t)
        if not any(isinstance(row.get('a'), (HostFn, datetime.date)) or isinstance(row.get('b'), datetime.date) for row in t):
            CUR[0] = it
            script('dataTop', lambda t=t: [deep(t), 2.0, ['a']], lambda v, t=t: (matches(ck.it, v, rel.top(ck.it, deep(t), 2, ['a'])), show(v)[:300]), n)
            script('dataSort', lambda t=t: [deep(t), [['a', True], ['b']]], lambda v, t=t: (matches(ck.it, v, rel.sort(ck.it, deep(t), [['a', True], ['b']])), show(v)[:300]), n)
            script('dataFilter', lambda t=t: [deep(t), 'a == x', {'x': 1}], lambda v, t=t: (matches(ck.it, v, rel.filter(ck.it, deep(t), 'a == x', {}, {'x': 1})), show(v)[:300]), n)
            script('dataJoin', lambda t=t: [deep(t), deep(t), 'a'], lambda v, t=t: judge_join(ck.it, v, deep(t), deep(t), rel.join(ck.it, deep(t), deep(t), 'a', None, False)), n)
        del t1
    return ck.finish()
