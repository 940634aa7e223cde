"""C16 Datetime construction, arithmetic and ISO text are correct in any time zone"""

import datetime
import itertools
import random
import re

from absint.interp import Interp
from absint.values import Sym, show, sym, term
from absint.zones import EPOCH, SECOND, Zone, rules

from . import common
from .common import Check
from .lab import binary, fcall, var

TECHNIQUE = ('abstract interpretation with the process time zone as a configuration of the analysed program (rule-defined zones and whole-minute fixed offsets): opaque in-range components, and constant propagation of '
             'component, instant and text grids against reference calendar arithmetic')
NOTE = ('datetimeNew is decided on opaque in-range components and on every single-component value in -5000..5000, all months -30..40, day grids to +-10000 and boundary pairs against day-ordinal arithmetic. ISO text is decided per zone (eleven '
        'rule-defined zones with daylight saving, half-hour and date-line changes, and fixed whole-minute offsets) on instants around every transition and calendar boundary; the local-time algorithm of datetime.astimezone is modelled. '
        'Values between the grid points are not covered.')
MS = datetime.timedelta(milliseconds=1)
R_ISO = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?(Z|[+-]\d\d:\d\d)\Z', re.ASCII)
R_DAY = re.compile(r'(\d{4})-(\d\d)-(\d\d)\Z', re.ASCII)


def ref_new(y, mo, d, h=0, mi=0, s=0, ms=0):
    """Proleptic Gregorian roll-over: a datetime, or None when out of the calendar"""
    y, mo = y + (mo - 1) // 12, (mo - 1) % 12 + 1
    total = ((h * 60 + mi) * 60 + s) * 1000 + ms
    # day ordinals by the 400-year cycle
    yy = (y - 1) % 400 + 1
    cycles = (y - yy) // 400
    o = datetime.date(yy, mo, 1).toordinal() + cycles * 146097 + d - 1 + total // 86400000
    if not 1 <= o <= datetime.date.max.toordinal():
        return None
    return datetime.datetime.combine(datetime.date.fromordinal(o), datetime.time()) + MS * (total % 86400000)


def ref_parse(text, zone):
    """('must', naive local datetime) | ('null',) | ('may',)"""
    m = R_DAY.match(text)
    if m:
        try:
            return 'must', datetime.datetime(*map(int, m.groups()))
        except ValueError:
            return ('null',)
    m = R_ISO.match(text)
    if not m:
        return ('null',) if not re.match(r'[+-]?\d', text) else ('may',)
    y, mo, d, h, mi, s = map(int, m.groups()[:6])
    us = int((m.group(7) or '').ljust(6, '0'))
    tz = m.group(8)
    off = 0 if tz == 'Z' else (1 if tz[0] == '+' else -1) * (int(tz[1:3]) * 60 + int(tz[4:6]))
    if s == 60 and h < 24 and mi < 60 or h == 24 and mi == s == us == 0 or tz != 'Z' and (int(tz[4:6]) > 59 or int(tz[1:3]) > 23):
        return ('may',)          # leap second, end of day, odd offsets
    try:
        u = datetime.datetime(y, mo, d, h, mi, s)
        stamp = (u - EPOCH) // SECOND - off * 60
        return 'must', EPOCH + datetime.timedelta(seconds=stamp + zone.offset(stamp), milliseconds=us // 1000)
    except (ValueError, OverflowError):
        return ('null',)


def run(prop, tier):
    ck = Check(prop, tier, 'component roll-over, getters, millisecond arithmetic and ISO text per cell of components, instants and time zones')
    base_it = ck.it
    ctx = {}

    def anchors():
        ctx['lib'] = ck.fn('library', 'SCRIPT_FUNCTIONS')
        ctx['ev'] = ck.fn('runtime', 'evaluate_expression')
    anchors()

    def w(name):
        return ck.where(ctx['lib'][name])

    def lcall(it, name, *args):
        g = {f'a{i}': v for i, v in enumerate(args)}
        return it.call(ctx['ev'], [fcall(name, *[var(x) for x in g]), {'globals': {**g, name: ctx['lib'][name]}}, None, False], {})

    def op(it, o, a, b):
        return it.call(ctx['ev'], [binary(o, var('a'), var('b')), {'globals': {'a': a, 'b': b}}, None, False], {})

    GET = [('datetimeYear', lambda d: d.year), ('datetimeMonth', lambda d: d.month), ('datetimeDay', lambda d: d.day), ('datetimeHour', lambda d: d.hour), ('datetimeMinute', lambda d: d.minute),
           ('datetimeSecond', lambda d: d.second), ('datetimeMillisecond', lambda d: d.microsecond // 1000)]

    def number(v, x):
        return isinstance(v, (int, float)) and not isinstance(v, bool) and v == x

    # R1 datetimeNew
    def new(rule, comps, sp=float, getters=True):
        want = ref_new(*comps)

        def thunk(it):
            d = lcall(it, 'datetimeNew', *[sp(c) for c in comps])
            return d, [lcall(it, g, d) for g, _ in GET] if getters else None

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            d, parts = p.value
            if isinstance(d, Sym):
                return None, f'gives {show(d)}'
            if d is not None and not (isinstance(d, datetime.datetime) and d.tzinfo is None and d == want) or d is None and want is not None:
                return False, f'datetimeNew{tuple(comps)} gives {show(d)}, expected {want}'
            if getters and d is not None:
                for (g, f), v in zip(GET, parts):
                    if not number(v, f(want)):
                        return (None if isinstance(v, Sym) else False), f'{g} of {want} gives {show(v)}'
            return True
        ck.cell(rule, f'{tuple(comps)}{"" if sp is float else " int"}', w('datetimeNew'), thunk, judge)

    th = ck.thorough
    for comp in range(3, 7):             # hour, minute, second, millisecond: every value of each component
        for n in range(-5000, 5001, 1 if th or comp > 3 else 3):
            comps = [2024, 3, 1, 12, 30, 30, 500]
            comps[comp] = n
            new('R1 single component', comps, getters=n % 5 == 0)
    for y in (100, 101, 1600, 1899, 1900, 1999, 2000, 2001, 2003, 2004, 2023, 2024, 2100, 9000):
        for mo in range(-30, 41):
            for d in (1, 28, 29, 30, 31, 32, 0, -1) if th or y in (1900, 2000, 2023, 2024) else (1, 29, 31, 0):
                new('R1 months', [y, mo, d], getters=d == 1)
    days = set(range(-70, 71)) | {s * (b + e) for s in (1, -1) for b in (90, 120, 151, 181, 212, 243, 273, 304, 334, 365, 366, 730, 731, 1096, 1461, 3652, 7305, 9999, 10000) for e in (-1, 0, 1) if b + e <= 10000}
    for y, mo in itertools.product((1900, 2000, 2023, 2024) if not th else (100, 400, 1900, 2000, 2023, 2024, 2100, 9000), range(1, 13) if th else (1, 2, 3, 12)):
        for d in sorted(days):
            new('R1 days', [y, mo, d], getters=False)
    edge = {3: (-25, -24, -1, 0, 23, 24, 48), 4: (-61, -60, -1, 0, 59, 60, 1440), 5: (-61, -60, -1, 0, 59, 60, 86400), 6: (-1001, -1000, -1, 0, 999, 1000, 86400000)}
    for a, b in itertools.combinations(edge, 2):
        for x, z in itertools.product(edge[a], edge[b]):
            for start in ((2024, 1, 1), (2023, 12, 31), (2024, 2, 29)):
                comps = [*start, 0, 0, 0, 0]
                comps[a], comps[b] = x, z
                new('R1 component pairs', comps)
    for mo, d in itertools.product((-30, -12, -11, -1, 0, 1, 2, 12, 13, 14, 24, 25, 40), (-10000, -366, -31, -1, 0, 1, 29, 31, 60, 366, 10000)):
        for rest in ((), (23, 59, 59, 999), (-1,), (0, 0, 0, -1), (24,), (5000, -5000, 5000, -5000)):
            new('R1 month, day and time', [2023, mo, d, *rest])
            new('R1 month, day and time', [2024, mo, d, *rest], sp=int)
    for comps in ([9999, 12, 31], [9999, 12, 32], [9999, 13, 1], [9999, 12, 31, 23, 59, 59, 1000], [100, 1, 1], [100, 1, 0], [100, -1200, 1], [100, -1189, 1], [100, -1190, 1], [1000, 1, -10000], [100, 1, -10000], [10000, 1, 1], [10000, 0, 31], [2024, 1, 1, 10 ** 7], [2024, 1, 1, 0, 0, 0, 10 ** 13],
                  [2024, 1, 1, 0, 0, 0, -10 ** 13], [2024, 1, 1, 0, 10 ** 8], [2024, 10 ** 4, 1], [2024, -10 ** 4, 1]):
        new('R1 limits', comps)
    rnd = random.Random(16)
    for _ in range(20000 if th else 3000):
        new('R1 pseudo-random components', [rnd.randrange(100, 9001), rnd.randrange(-30, 41), rnd.randrange(-10000, 10001) if rnd.random() < 0.3 else rnd.randrange(-40, 71)] + [rnd.randrange(-5000, 5001) for _ in range(rnd.randrange(0, 5))], getters=False)
    for bad in ([99, 1, 1], [2024, 1.5, 1], [2024.5, 1, 1], [2024, 1, 10001], [2024, 1, -10001], [2024, 1, 0.5], [2024, 1, 1, 0.5], [2024, 1, 1, 0, 0.5], [2024, 1, 1, 0, 0, 0.5], [2024, 1, 1, 0, 0, 0, 0.5], [None, 1, 1], [2024, None, 1], [2024, 1, None], ['2024', 1, 1], [2024, '1', 1], [True, 1, 1], [2024, 1], [2024], [], [2024, 1, 1, 0, 0, 0, 0, 0], [float('inf'), 1, 1],
                [2024, float('nan'), 1], [2024, 1, 1, float('inf')]):
        ck.cell('R1 invalid components', repr(bad), w('datetimeNew'), lambda it, bad=bad: lcall(it, 'datetimeNew', *bad), lambda p, bad=bad: (p.kind == 'return' and p.value is None, f'datetimeNew({bad}) gives {p!r}'))
    # opaque in-range components
    for n in range(3, 8):
        for fl in (False, True):
            def thunk(it, n=n, fl=fl):
                lim = [(100, 9000), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59), (0, 999)][:n]
                syms = []
                for name, (lo, hi) in zip('YMDhmsx', lim):
                    v = sym(name, 'int')
                    it.facts.set_bounds(v, lo, hi)
                    syms.append(v)
                d = lcall(it, 'datetimeNew', *[term('flt', v, ty='float') if fl else v for v in syms])
                return syms, [lcall(it, g, d) for g, _ in GET]

            def judge(p):
                if p.kind != 'return':
                    return None, f'raises {p.value!r}'
                syms, parts = p.value
                out = True
                for v, x in zip(parts, syms + [0] * (7 - len(syms))):
                    r = ck.it.same(v, x)
                    if r is False:
                        return False, f'the parts of datetimeNew({show(syms)}) are {show(parts)}'
                    out = out if r is True else None
                return out, f'the parts of datetimeNew({show(syms)}) are {show(parts)}'
            ck.cell('R1 opaque components', f'{n} components {"float" if fl else "int"}', w('datetimeNew'), thunk, judge, max_paths=100)

    # R2 adding and subtracting milliseconds
    ns = {0, 1, -1, 2, 3, 7, 10, 999, 1000, 1001, 59999, 60000, 86399999, 86400000, 86400001, 31535999999, 10 ** 9 + 7, 10 ** 10 + 19, 10 ** 11 + 3, 999999999999, 10 ** 12, 123456789012, 987654321098, 1 << 31, (1 << 31) + 1, 1 << 39}
    ns |= {rnd.randrange(-10 ** 12, 10 ** 12) for _ in range(20000 if th else 2500)} | {rnd.randrange(-10 ** e, 10 ** e) for e in range(2, 12) for _ in range(100)}
    ns |= {-n for n in ns}
    bases = [datetime.datetime(2024, 2, 29, 12, 34, 56, 789000), datetime.datetime(1969, 12, 31, 23, 59, 59, 999000), datetime.datetime(2000, 1, 1), datetime.datetime(1900, 3, 1, 0, 0, 0, 1000), datetime.datetime(4000, 6, 15, 1, 2, 3, 4567), datetime.datetime(200, 1, 1), datetime.datetime(2024, 3, 10, 2, 30)]
    wev = ck.where(ctx['ev'])
    for i, n in enumerate(sorted(ns)):
        for d in bases if abs(n) < 10 ** 5 else bases[i % len(bases):][:1]:
            def thunk(it, n=n, d=d, i=i):
                x = float(n) if i % 3 else n
                r = op(it, '+', d, x) if i % 2 else op(it, '+', x, d)
                return r, op(it, '-', r, d), op(it, '-', d, r), op(it, '+', r, -x)

            def judge(p, n=n, d=d):
                if p.kind != 'return':
                    return False, f'raises {p.value!r}'
                r, diff, rev, back = p.value
                if any(isinstance(x, Sym) for x in p.value):
                    return None, show(p.value)
                if r != d + MS * n:
                    return False, f'{d} + {n} gives {r!r}, expected {d + MS * n}'
                if not number(diff, n) or not number(rev, -n):
                    return False, f'({d} + {n}) - {d} gives {diff!r} (reversed {rev!r})'
                return back == d, f'{d} + {n} - {n} gives {back!r}'
            ck.cell('R2 milliseconds', f'{d} + {n}', wev, thunk, judge)
    dd = datetime.date(2024, 2, 29)
    for n in (0, 1, -1, 86400000, -86400000, 10 ** 12, 1500):
        ck.cell('R2 milliseconds', f'date + {n}', wev, lambda it, n=n: (lambda r: (r, op(it, '-', r, dd)))(op(it, '+', dd, float(n))), lambda p, n=n: (p.kind == 'return' and p.value[0] == datetime.datetime(2024, 2, 29) + MS * n and number(p.value[1], n), f'{p!r}'))
    for a, b in itertools.product(bases, repeat=2):
        ck.cell('R2 milliseconds', f'{a} - {b}', wev, lambda it, a=a, b=b: op(it, '-', a, b), lambda p, a=a, b=b: (p.kind == 'return' and number(p.value, round((a - b) / MS)) or abs((a - b) / MS % 1 - 0.5) < 0.01, f'{a} - {b} gives {p!r}'))

    # R3 ISO text per time zone
    stamps = []
    for y in (100, 1000, 1582, 1899, 1900, 1969, 1970, 1985, 1986, 2000, 2004, 2011, 2024, 2038, 2100, 2400, 9000):
        for mo, d in ((1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (12, 30), (12, 31)):
            for t in ((0, 0, 0, 0), (0, 0, 0, 1000), (12, 34, 56, 789000), (23, 59, 59, 999000), (9, 5, 7, 90000), (20, 0, 0, 100000)):
                try:
                    stamps.append(datetime.datetime(y, mo, d, *t))
                except ValueError:
                    pass
    D = datetime.datetime
    edge = [D(9999, 12, 31), D(9999, 12, 31, 0, 0, 0, 1000), D(9999, 12, 31, 12, 34, 56, 789000), D(9999, 12, 31, 23, 59, 59, 999000), D(9999, 12, 30), D(9999, 12, 30, 23, 59, 59), D(9999, 12, 29, 5),
            D(1, 1, 1), D(1, 1, 1, 12, 0, 0, 1000), D(1, 1, 1, 23, 59, 59, 999000), D(1, 1, 2), D(1, 1, 2, 23), D(1, 1, 3, 4)]
    micro = [datetime.datetime(2024, 5, 6, 7, 8, 9, us) for us in (1, 499, 500, 999, 1001, 1999, 999999, 123456, 10, 100000, 99999)]

    def transitions(zone):
        out = []
        years = (1986, 2011, 2024, 2499) if not th else (1971, 1985, 1986, 1999, 2011, 2012, 2024, 2025, 2100, 2499, 8999)
        for y in years:
            u0 = (datetime.datetime(y, 1, 1) - EPOCH) // SECOND
            prev = zone.offset(u0 - 86400)
            for h in range(-24 * 3, 366 * 24 + 72):
                u = u0 + h * 3600
                off = zone.offset(u)
                if off != prev:
                    lo, hi = u - 3600, u
                    while hi - lo > 1:
                        mid = (lo + hi) // 2
                        lo, hi = (mid, hi) if zone.offset(mid) == prev else (lo, mid)
                    for o in {prev, off}:
                        for delta in (-86400, -7200, -5400, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 5400, 7200, 86400):
                            out.append(EPOCH + datetime.timedelta(seconds=hi + o + delta))
                            out.append(EPOCH + datetime.timedelta(seconds=hi + o + delta, milliseconds=-1))
                prev = off
        return [d for d in dict.fromkeys(out) if zone.exists(d)]

    def instant(rule, zone, d):
        def thunk(it):
            text = lcall(it, 'datetimeISOFormat', d)
            back = lcall(it, 'datetimeISOParse', text)
            return text, back, lcall(it, 'datetimeISOFormat', d, True), lcall(it, 'datetimeISOFormat', d, False), [lcall(it, g, d) for g, _ in GET]

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r} in the time zone {zone.name}'
            text, back, day, text2, parts = p.value
            if any(isinstance(x, Sym) for x in (text, back, day)):
                return None, show((text, back, day))
            m = R_ISO.match(text) if isinstance(text, str) else None
            if not m or text2 != text:
                return False, f'datetimeISOFormat({d}) gives {show(text)} in the time zone {zone.name}'
            u, us = zone.instant(d)
            loc = d if d.tzinfo is None else zone.aware(u, us).replace(tzinfo=None)
            off = (0 if m.group(8) == 'Z' else int(m.group(8)[:3]) * 60 + int(m.group(8)[0] + m.group(8)[4:])) * 60
            shown = (datetime.datetime(*map(int, m.groups()[:6])) - EPOCH) // SECOND - off, int((m.group(7) or '0').ljust(6, '0'))
            if shown[0] != u or abs(shown[1] - us) >= 1000 or us % 1000 == 0 and shown[1] != us:
                return False, f'datetimeISOFormat({d}) gives {text} in the time zone {zone.name}: another instant'
            if off != zone.offset(u):
                return False, f'datetimeISOFormat({d}) gives {text} in the time zone {zone.name}, whose offset is {zone.offset(u) // 60} minutes'
            wall = zone.aware(u, us).replace(tzinfo=None)
            if not (isinstance(back, datetime.datetime) and back.tzinfo is None and abs(back - wall) < MS and (us % 1000 or back == wall)):
                return False, f'{d} is formatted as {text}, which parses to {back!r} in the time zone {zone.name}'
            if day != f'{loc.year:04d}-{loc.month:02d}-{loc.day:02d}':
                return False, f'datetimeISOFormat({d}, true) gives {show(day)} in the time zone {zone.name}'
            for (g, f), v in zip(GET, parts):
                if not number(v, f(loc)):
                    return False, f'{g} of {d} gives {show(v)} in the time zone {zone.name}'
            return True
        ck.cell(rule, f'{zone.name} {d}', w('datetimeISOFormat'), thunk, judge)

    texts = []
    for y, mo, d in ((2024, 2, 29), (1970, 1, 1), (100, 1, 2), (9000, 12, 31), (9999, 12, 31), (9999, 12, 30), (1, 1, 1), (1, 1, 2), (2024, 7, 15), (1999, 12, 31)):
        day = f'{y:04d}-{mo:02d}-{d:02d}'
        texts.append(day)
        for t in ('00:00:00', '23:59:59', '12:34:56'):
            for f in ('', '.1', '.12', '.123', '.1234', '.12345', '.123456', '.000', '.999999', '.0009', '.05'):
                for z in ('Z', '+00:00', '-00:00', '+05:45', '-12:00', '+14:00', '-09:30', '+23:59', '-23:59', '+00:01'):
                    if f in ('', '.123', '.123456') or z in ('Z', '+05:45'):
                        texts.append(f'{day}T{t}{f}{z}')
    invalid = ['', ' ', 'x', 'today', '2024', '2024-1-1', '2024-02-30', '2023-02-29', '2024-13-01', '2024-00-10', '2024-01-00', '2024-01-32', '2024-04-31', '0000-01-01', '1900-02-29', '2024-02-30T00:00:00Z', '2023-02-29T12:00:00+01:00', '2024-01-01T25:00:00Z', '2024-01-01T00:60:00Z', '2024-01-01T00:00:61Z', '2024-13-01T00:00:00Z', 'T00:00:00Z',
               '2024-01-01x', 'x2024-01-01', '24-01-01', '2024/01/01', '01-01-2024', 'null', '-', '2024-01-01T', 'Mon Jan 01 2024', '２０２４-01-01', '2024-01-01T00:00:00.1234567890Zjunk', '0000-01-01T00:00:00Z', '2024-00-01T00:00:00Z', '2024-01-00T00:00:00Z', '2024-01-32T00:00:00Z', '2024-06-31T23:59:59.999-05:00', '12:30:00', '2024-01-01T99:99:99Z', '٢٠٢٤-٠١-٠١', '9999-12-31T23:59:59-14:00',
               '0001-01-01T00:00:00+14:00', '9999-12-31T23:59:59.999+00:00', '0001-01-01T00:00:00Z', '2024-01-01T00:00:00+24:00', '2024-01-01T00:00:00+99:99', '2024-01-01T00:00:00Z\n', '2024-01-01\n', '2024-01-01T24:00:00Z', '2024-01-01T00:00:00', '2024-01-01 00:00:00', '2024-01-01T00:00Z', '2024-01-01T00:00:00.Z', '20240101T000000Z', '2024-W01-1', '2024-001', '2024-01-01T00:00:00,5Z', '2024-01-01T00:00:00z',
               '2024-01-01t00:00:00Z', '+2024-01-01', '2024-01-01T00:00:00 +00:00', '2024-01-01T00:00:00+0000', '2024-01-01T00:00:00+00', '2016-12-31T23:59:60Z']
    for day in ('2024-02-29', '2023-06-15'):
        for i, c in itertools.product(range(10), '0 9x-'):
            invalid.append(day[:i] + c + day[i + 1:])
        full = day + 'T12:34:56.789+05:30'
        for i, c in itertools.product(range(len(full)), '07x:-'):
            invalid.append(full[:i] + c + full[i + 1:])
        invalid += [full[:i] for i in range(len(full))] + [full[i:] for i in range(1, len(full))]

    def parsing(rule, zone, text):
        want = ref_parse(text, zone)

        def judge(p):
            if p.kind != 'return':
                return False, f'raises {p.value!r}'
            v = p.value
            if isinstance(v, Sym):
                return None, show(v)
            if want[0] == 'null':
                return v is None, f'datetimeISOParse({text!r}) gives {v!r}, but the text is not a valid ISO date or datetime'
            if want[0] == 'must':
                if isinstance(v, datetime.datetime) and v.tzinfo is None and v == want[1]:
                    return True
                return False, f'datetimeISOParse({text!r}) gives {v!r} in the time zone {zone.name}, expected {want[1]}'
            return v is None or isinstance(v, datetime.datetime) and v.tzinfo is None, f'datetimeISOParse({text!r}) gives {v!r}'

        def thunk(it):
            return lcall(it, 'datetimeISOParse', text)
        ck.cell(rule, f'{zone.name} {text!r}', w('datetimeISOParse'), thunk, judge)

    def enter(zone):
        """A fresh load of the program in a time zone"""
        it = Interp(str(common.SRC))
        it.cell_time, it.zone = base_it.cell_time, zone
        it.functions_seen = base_it.functions_seen
        ck.it = it
        anchors()
    for zone in rules():
        enter(zone)
        tr = transitions(zone)
        for d in [d for d in stamps + micro + edge + tr if zone.exists(d)]:
            instant('R3 instants', zone, d)
        for u in (0, 1705320000, 1720000000, -86400):
            for off in (0, 60, -300, 330, 765):
                tz = datetime.timezone(datetime.timedelta(minutes=off))
                instant('R3 aware values', zone, datetime.datetime.fromtimestamp(u, datetime.timezone.utc).astimezone(tz))
        for t in texts + [(d.isoformat(timespec='milliseconds') + z) for d in tr[::3] for z in ('Z', '+01:00', '-05:00')]:
            parsing('R4 ISO texts', zone, t)
        for t in invalid if zone.name in ('UTC', 'America/New_York', 'Pacific/Chatham', 'Etc/GMT+12') or th else invalid[::5]:
            parsing('R5 other texts', zone, t)
        # stringification of datetimes is the same text
        for d in tr[:20] + stamps[::37] + edge:
            if zone.exists(d):
                ck.cell('R3 instants', f'{zone.name} {d} as string', w('stringNew'), lambda it, d=d: (lcall(it, 'stringNew', d), lcall(it, 'datetimeISOFormat', d), op(it, '+', '', d)), lambda p: (p.kind == 'return' and p.value[0] == p.value[1] == p.value[2], f'{p!r}'))
    mine = ck.mine
    for i, m in enumerate(range(-1439, 1440, 1 if th else 7)):
        if i % common.SHARD[1] != common.SHARD[0]:
            continue
        ck.mine = lambda: True
        zone = Zone(f'{"-" if m < 0 else "+"}{abs(m) // 60:02d}:{abs(m) % 60:02d}', m * 60)
        enter(zone)
        for d in (datetime.datetime(2024, 2, 29, 12, 34, 56, 789000), datetime.datetime(100, 1, 2, 23, 59, 59, 999000), datetime.datetime(1969, 12, 31, 23, 59, 59, 1000), datetime.datetime(2000, 1, 1), datetime.datetime(9000, 12, 31, 0, 0, 0, 5000), edge[0], edge[3]):
            instant('R3 fixed offsets', zone, d)
        for t in ('2024-02-29T12:34:56.789+05:30', '1970-01-01T00:00:00Z', '2024-02-29', '1999-12-31T23:59:59.5-23:59'):
            parsing('R4 ISO texts', zone, t)
    ck.mine = mine
    ck.it = base_it
    anchors()
    for v in (None, 1.0, True, [], {}, datetime.datetime(2024, 1, 1)):
        ck.cell('R5 other texts', f'datetimeISOParse({v!r})', w('datetimeISOParse'), lambda it, v=v: lcall(it, 'datetimeISOParse', v), lambda p: (p.kind == 'return' and p.value is None, f'{p!r}'))
    for g, _ in GET:
        for v in (None, 1.0, '2024-01-01', [], True):
            ck.cell('R5 other texts', f'{g}({v!r})', w(g), lambda it, g=g, v=v: lcall(it, g, v), lambda p: (p.kind == 'return' and p.value is None, f'{p!r}'))
        # the getters of an opaque datetime are its own parts
        def thunk(it, g=g):
            d = sym('d', 'datetime')
            return lcall(it, g, d), it.getattr(d, g[8:].lower() if g != 'datetimeMillisecond' else 'microsecond')

        def judge(p, g=g):
            if p.kind != 'return':
                return None, f'{p!r}'
            v, x = p.value
            return (ck.it.same(v, x) if g != 'datetimeMillisecond' else None if not isinstance(v, Sym) else True), f'{g} gives {show(v)}'
        ck.cell('R1 opaque components', g, w(g), thunk, judge)
    return ck.finish()
