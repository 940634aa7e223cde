"""A process time zone as part of the analysed configuration: local time conversions of constant datetimes"""

import calendar
import datetime
import time

EPOCH = datetime.datetime(1970, 1, 1)
SECOND = datetime.timedelta(seconds=1)
FIRST = (datetime.datetime.min - EPOCH) // SECOND
LAST = (datetime.datetime.max - EPOCH) // SECOND


def nth_weekday(year, month, weekday, n):
    """The n-th (or last: -1) given weekday (Monday 0) of a month"""
    days = [d for d in range(1, calendar.monthrange(year, month)[1] + 1) if datetime.date(year, month, d).weekday() == weekday]
    return days[n - 1 if n > 0 else n]


class Zone:
    """std/dst: offsets in seconds; rule(year) -> (start, end) of daylight saving as UTC datetimes, or None; changes: [(UTC datetime, offset)] of the standard offset"""

    def __init__(self, name, std, dst=None, rule=None, changes=()):
        self.name, self.std, self.dst, self.rule, self.changes = name, std, dst if dst is not None else std, rule, [((w - EPOCH) // SECOND, o) for w, o in changes]
        self.cache = {}

    def offset(self, u):
        """Offset in seconds at the UTC time stamp u"""
        std = self.std
        for when, off in self.changes:
            if u >= when:
                std = off
        if self.rule is None:
            return std
        try:
            year = (EPOCH + datetime.timedelta(seconds=u + std)).year
        except OverflowError:
            return std
        if year not in self.cache:
            self.cache[year] = None
            if 1970 <= year <= 9998:
                a, b = self.rule(year)
                self.cache[year] = ((a - EPOCH) // SECOND, (b - EPOCH) // SECOND)
        r = self.cache[year]
        if r is None:
            return std
        a, b = r
        dst = a <= u < b if a < b else not b <= u < a
        return self.dst if dst else std

    def isdst(self, u):
        return self.rule is not None and self.dst != self.std and self.offset(u) == self.dst

    def local(self, u):
        t = u + self.offset(u)
        if not FIRST <= t <= LAST:
            raise ValueError(f'year {0 if t < FIRST else 10000} is out of range')
        return t

    def mktime(self, t, fold=0):
        """UTC time stamp of the local wall time stamp t (the algorithm of datetime)"""
        a = self.local(t) - t
        u1 = t - a
        t1 = self.local(u1)
        if t1 == t:
            u2 = u1 + (86400 if fold else -86400)
            b = self.local(u2) - u2
            if a == b:
                return u1
        else:
            b = t1 - u1
        u2 = t - b
        if self.local(u2) == t:
            return u2
        if t1 == t:
            return u1
        return (max, min)[fold](u1, u2)

    def exists(self, d):
        """Is the naive wall time in the zone"""
        t = (d.replace(microsecond=0) - EPOCH) // SECOND
        if not FIRST + 86400 <= t <= LAST - 86400:
            return True
        return self.local(self.mktime(t)) == t

    def instant(self, d):
        """stamp() that is also defined within a day of the limits of the datetime range (where no zone changes)"""
        two = datetime.timedelta(days=2)
        if d.tzinfo is not None or EPOCH.min + two <= d <= EPOCH.max - two:
            return self.stamp(d)
        shift = two if d.year < 2 else -two
        u, us = self.stamp(d + shift)
        return u - shift // SECOND, us

    def stamp(self, d):
        """UTC time stamp in seconds and microseconds of a datetime"""
        if d.tzinfo is not None:
            d = (d - d.utcoffset()).replace(tzinfo=None)
            return (d.replace(microsecond=0) - EPOCH) // SECOND, d.microsecond
        return self.mktime((d.replace(microsecond=0, fold=0) - EPOCH) // SECOND, d.fold), d.microsecond

    def aware(self, u, us):
        off = self.offset(u)
        return (EPOCH + datetime.timedelta(seconds=u + off, microseconds=us)).replace(tzinfo=datetime.timezone(datetime.timedelta(seconds=off), self.name))

    def astimezone(self, d, tz=None):
        u, us = self.stamp(d)
        if d.tzinfo is None:
            # both days around a wall time are looked at
            self.local(u + 86400)
        r = self.aware(u, us)
        return r if tz is None else r.astimezone(tz)

    def timestamp(self, d):
        u, us = self.stamp(d)
        return u + us / 1e6

    def struct(self, u):
        lt = EPOCH + datetime.timedelta(seconds=self.local(int(u)))
        return time.struct_time((*lt.timetuple()[:8], int(self.isdst(int(u)))), {'tm_gmtoff': self.offset(int(u)), 'tm_zone': self.name})


def at(y, m, d, h, mi=0):
    return datetime.datetime(y, m, 1) + datetime.timedelta(days=d - 1, hours=h, minutes=mi)


def rules():
    SUN = 6
    H = 3600
    return [
        Zone('UTC', 0),
        Zone('America/New_York', -5 * H, -4 * H, lambda y: (at(y, 3, nth_weekday(y, 3, SUN, 2), 7), at(y, 11, nth_weekday(y, 11, SUN, 1), 6))),
        Zone('Europe/London', 0, 1 * H, lambda y: (at(y, 3, nth_weekday(y, 3, SUN, -1), 1), at(y, 10, nth_weekday(y, 10, SUN, -1), 1))),
        Zone('Asia/Kolkata', 5 * H + 1800),
        Zone('Asia/Kathmandu', 5 * H + 1800, changes=[(datetime.datetime(1985, 12, 31, 18, 30), 5 * H + 2700)]),
        Zone('Australia/Lord_Howe', 10 * H + 1800, 11 * H, lambda y: (at(y, 10, nth_weekday(y, 10, SUN, 1) - 1, 15, 30), at(y, 4, nth_weekday(y, 4, SUN, 1) - 1, 15))),
        Zone('Pacific/Chatham', 12 * H + 2700, 13 * H + 2700, lambda y: (at(y, 9, nth_weekday(y, 9, SUN, -1) - 1, 14), at(y, 4, nth_weekday(y, 4, SUN, 1) - 1, 14))),
        Zone('Etc/GMT+12', -12 * H),
        Zone('Pacific/Kiritimati', 14 * H),
        Zone('America/St_Johns', -3 * H - 1800, -2 * H - 1800, lambda y: (at(y, 3, nth_weekday(y, 3, SUN, 2), 5, 30), at(y, 11, nth_weekday(y, 11, SUN, 1), 4, 30))),
        Zone('day skipped', -10 * H, changes=[(datetime.datetime(2011, 12, 30, 10), 14 * H)]),
    ]


class LocalTime:
    """Mixin of the interpreter: what depends on the process time zone when a zone is configured"""

    zone = None                                     # None: the time zone is unknown (terms)
    now_stamp = (1705320000, 123456)                # the one clock value of a configured run

    def zone_dt(self, o, name, args, kw):
        """o.astimezone / o.timestamp of a constant datetime, or None"""
        try:
            if name == 'timestamp':
                return True, self.zone.timestamp(o)
            tz = args[0] if args else kw.get('tz')
            if tz is None or isinstance(tz, datetime.tzinfo):
                return True, self.zone.astimezone(o, tz)
        except (OverflowError, ValueError) as e:
            return False, e
        return None, None

    def zone_class(self, cls, name, args, kw):
        """datetime.now / today / fromtimestamp, or None"""
        z = self.zone
        tz = (args[1] if len(args) > 1 else None) if name == 'fromtimestamp' else args[0] if args else None
        tz = kw.get('tz', tz)
        if name == 'fromtimestamp':
            if not args or not isinstance(args[0], (int, float)):
                return None
            us = round(args[0] * 1000000)
            u, us = us // 1000000, us % 1000000
        else:
            u, us = self.now_stamp
        if name == 'utcnow':
            return (EPOCH + datetime.timedelta(seconds=u, microseconds=us))
        d = z.aware(u, us)
        if cls is datetime.date:
            return d.date()
        return d.astimezone(tz) if isinstance(tz, datetime.tzinfo) else d.replace(tzinfo=None)

    def zone_time(self, name, args):
        """time.<name>(...) or None"""
        z = self.zone
        if name == 'localtime':
            return z.struct(args[0] if args and args[0] is not None else self.now_stamp[0])
        if name == 'mktime' and args:
            t = tuple(args[0])
            return float(z.mktime((datetime.datetime(*t[:6]) - EPOCH) // SECOND))
        if name == 'time':
            return self.now_stamp[0] + self.now_stamp[1] / 1e6
        if name == 'gmtime':
            return time.gmtime(args[0] if args and args[0] is not None else self.now_stamp[0])
        return None

    def zone_const(self, name):
        z = self.zone
        y = 2024
        jan, jul = (datetime.datetime(y, 1, 1) - EPOCH) // SECOND, (datetime.datetime(y, 7, 1) - EPOCH) // SECOND
        offs = [z.offset(jan), z.offset(jul)]
        return {'timezone': -min(offs) if z.rule else -offs[0], 'altzone': -max(offs), 'daylight': int(offs[0] != offs[1]), 'tzname': (z.name, z.name)}[name]
