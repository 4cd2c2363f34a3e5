"""Environment of the extime specifications: unknown instants, durations and zones."""
import datetime
from verif import choose, expect, expect_eq, sym_int, assume
from epsilon.extime import Time, FixedOffset

US = 1000000
DAY = 86400 * US
YEAR2 = 366 * DAY                   # instants from 0002-01-02 ...
YEAR9998 = 3651000 * DAY            # ... to 9997


class Zone(datetime.tzinfo):
    """a zone at a constant offset of whole minutes, not one of the library"""

    def __init__(self, minutes):
        self.minutes = minutes

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.minutes)

    def dst(self, dt):
        return datetime.timedelta(minutes=60)

    def tzname(self, dt):
        return 'zone'


class Season(datetime.tzinfo):
    """a zone that moves its clocks forward once, by `gap` minutes at the instant `when`, from an offset of `before` minutes"""

    def __init__(self, before, gap, when):
        self.before, self.gap, self.when = before * 60 * US, gap * 60 * US, when

    def after(self, local):
        return local >= self.when + self.before + self.gap

    def utcoffset(self, dt):
        if dt is None:
            return None
        return td(self.before + self.gap if self.after(dt.replace(tzinfo=None)._us) else self.before)

    def dst(self, dt):
        if dt is None:
            return None
        return td(self.gap if self.after(dt.replace(tzinfo=None)._us) else 0)

    def fromutc(self, dt):
        return dt + td(self.before + self.gap if dt.replace(tzinfo=None)._us >= self.when else self.before)

    def tzname(self, dt):
        return 'season'


def season(us):
    """(zone, its offset in minutes at the instant us), the instant being at any distance of the change"""
    before, gap = sym_int('before', -1200, 1200), sym_int('gap', 1, 120)
    if choose(2, 'after the change'):
        return Season(before, gap, us - sym_int('since', 0, 200 * DAY)), before + gap
    return Season(before, gap, us + sym_int('until', 1, 200 * DAY)), before


def minutes(name='offset'):
    """an unknown offset of less than a day, in minutes"""
    return sym_int(name, -1439, 1439)


def zone(name='offset'):
    m = minutes(name)
    return Zone(m), m


def instant(name='instant'):
    return sym_int(name, YEAR2, YEAR9998)


def naive(us):
    return datetime.of_us(us)


def aware(us, tz, m):
    """the datetime in zone tz (m minutes east) denoting the instant us"""
    return datetime.of_us(us + m * 60 * US, tz)


def td(us):
    return datetime.timedelta(microseconds=us)


def us_of(t):
    """the instant a time starts at, in microseconds"""
    expect(isinstance(t, Time), 'a time is returned')
    d = t.asDatetime()
    off = d.utcoffset()
    expect(off is not None and off._us == 0, 'rendered in UTC')
    return d._us


def res_of(t):
    return t.resolution._us


def a_time(us, res=None):
    t = Time.fromDatetime(naive(us))
    if res is not None:
        t.resolution = td(res)
    return t


def resolution(name='resolution'):
    """an unknown non-negative resolution"""
    return sym_int(name, 0, 400 * DAY)


class Frozen(object):
    """what a time looks like, to see that it does not change"""

    def __init__(self, *times):
        self.times = times
        self.seen = [(us_of(t), t.resolution, res_of(t)) for t in times]

    def check(self):
        for t, (u, r, ru) in zip(self.times, self.seen):
            expect_eq(us_of(t), u, 'the instant of a time never changes')
            fresh = a_time(u)
            expect(t == fresh and not t < fresh and not t > fresh, 'the instant of a time never changes')
            expect(t.resolution is r or t.resolution == r, 'nor does its resolution')
