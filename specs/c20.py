"""C20: conversions between Time and datetime preserve the instant."""
import datetime
import time
from email import utils
from verif import choose, expect, expect_eq, cover, sym_int, assume
from epsilon.extime import Time, FixedOffset
from xlib import (Zone, zone, minutes, instant, naive, aware, td, us_of, res_of, a_time, resolution, Frozen, DAY, US, season)

COVER = ('season', 'aware', 'naive', 'changing offset', 'tuple', 'tuple in zone', 'rendered', 'rendered naive', 'rendered tuple',
         'whole day', 'round trip', 'library zone', 'seconds offset', 'named', 'now', 'derived')


class Changing(datetime.tzinfo):
    """the offset depends on the clock reading"""

    def __init__(self, a, b, when):
        self.a, self.b, self.when = a, b, when

    def utcoffset(self, dt):
        return td((self.a if dt.replace(tzinfo=None)._us < self.when else self.b) * 60 * US)

    def dst(self, dt):
        return td(0)


class Odd(datetime.tzinfo):
    """an offset of any number of microseconds"""

    def __init__(self, us):
        self.us = us

    def utcoffset(self, dt):
        return td(self.us)

    def dst(self, dt):
        return None


def check_naive():
    a = instant('a')
    t = Time.fromDatetime(naive(a))
    expect_eq(us_of(t), a, 'a naive datetime is a reading in UTC')
    expect_eq(res_of(t), 1, 'an instant')
    expect_eq(t.asNaiveDatetime()._us, a, 'and is rendered as such')
    cover('naive')


def check_aware():
    a = instant('a')
    which = choose(('zone', 'utc', 'changing', 'odd', 'fixed', 'library'), 'zone')
    if which == 'zone':
        tz, m = zone()
        off = m * 60 * US
    elif which == 'utc':
        tz, off = datetime.timezone.utc, 0
    elif which == 'changing':
        m, n = minutes('before'), minutes('after')
        when = instant('change')
        tz = Changing(m, n, when)
        off = (m if a < when else n) * 60 * US
        cover('changing offset')
    elif which == 'odd':
        off = sym_int('off', -DAY + 1, DAY - 1)
        tz = Odd(off)
        cover('seconds offset')
    elif which == 'fixed':
        m = minutes()
        tz, off = datetime.timezone(datetime.timedelta(minutes=m)), m * 60 * US
    else:
        h = sym_int('hours', -23, 23)
        m = sym_int('minutes', 0, 59)
        if choose(2, 'west'):
            assume(h <= 0)
            m = -m
        else:
            assume(h >= 0)
        tz, off = FixedOffset(h, m), (h * 60 + m) * 60 * US
        cover('library zone')
    d = datetime.of_us(a, tz)
    t = Time.fromDatetime(d)
    expect_eq(us_of(t), a - off, 'an aware datetime keeps its instant')
    expect_eq(res_of(t), 1, 'an instant')
    expect(d.tzinfo is tz and d._us == a, 'the datetime is not changed')
    cover('aware')


def check_tuple():
    y, mo, d = sym_int('year', 2, 9998), choose(12, 'month') + 1, sym_int('day', 1, 28)
    h, mi, s = sym_int('hour', 0, 23), sym_int('minute', 0, 59), sym_int('second', 0, 59)
    wd, yd, dst = sym_int('weekday', 0, 6), sym_int('yearday', 1, 366), choose((-1, 0, 1), 'dst')
    st = (y, mo, d, h, mi, s, wd, yd, dst)
    if choose(2, 'struct_time'):
        st = time.struct_time(st)
    want = datetime.datetime(y, mo, d, h, mi, s)._us
    if choose(2, 'zone'):
        tz, m = zone()
        t = Time.fromStructTime(st, tz)
        expect_eq(us_of(t), want - m * 60 * US, 'a reading in the given zone')
        cover('tuple in zone')
    else:
        t = Time.fromStructTime(st)
        expect_eq(us_of(t), want, 'a reading in UTC')
        cover('tuple')
    expect_eq(res_of(t), US, 'a resolution of one second')


def check_render():
    a = instant('a')
    r = sym_int('resolution', 0, DAY - 1)
    t = a_time(a, r) if choose(2, 'resolution') else a_time(a)
    tz, m = zone()
    f = Frozen(t)
    if choose(2, 'utc'):
        tz, m = None, 0
    how = choose(('datetime', 'naive', 'tuple'), 'rendering')
    if how == 'datetime':
        d = t.asDatetime(tz) if tz is not None or choose(2, 'explicit None') else t.asDatetime()
        expect_eq(d._us, a + m * 60 * US, 'the clock of that zone')
        expect_eq(d.utcoffset()._us, m * 60 * US, 'at the offset of that zone')
        if tz is not None:
            expect(d.tzinfo is tz, 'in that zone')
            expect_eq(us_of(Time.fromDatetime(d)), a, 'and back')
            cover('round trip')
        cover('rendered')
    elif how == 'naive':
        d = t.asNaiveDatetime(tz)
        expect(d.tzinfo is None, 'naive')
        expect_eq(d._us, a + m * 60 * US, 'the clock of that zone')
        cover('rendered naive')
    else:
        st = t.asStructTime(tz)
        expect(len(st) == 9, 'a time tuple')
        want = naive(a + m * 60 * US)
        expect(tuple(st[:6]) == (want.year, want.month, want.day, want.hour, want.minute, want.second),
               'the clock of that zone')
        expect_eq(st[6], want.weekday(), 'the weekday')
        cover('rendered tuple')
    f.check()


def check_season():
    """a zone whose offset changes"""
    a = sym_int('a', 500 * DAY, 3650000 * DAY)
    t = a_time(a)
    tz, m = season(a)
    d = t.asDatetime(tz)
    expect_eq(d._us, a + m * 60 * US, 'the clock of that zone')
    expect_eq(d.utcoffset()._us, m * 60 * US, 'at the offset of that zone')
    expect_eq(us_of(Time.fromDatetime(d)), a, 'and back')
    expect_eq(t.asNaiveDatetime(tz)._us, a + m * 60 * US, 'the clock of that zone')
    cover('season')


def check_whole_days():
    a = instant('a')
    r = sym_int('resolution', DAY, 400 * DAY)
    t = a_time(a, r)
    tz, m = zone()
    if choose(2, 'utc'):
        tz = None
    d = t.asDatetime(tz)
    expect_eq(d._us, a, 'the same date and clock reading in every zone')
    expect(d.tzinfo is not None and (tz is None or d.tzinfo is tz), 'in the zone asked for')
    expect_eq(t.asNaiveDatetime(tz)._us, a, 'the same date and clock reading in every zone')
    cover('whole day')


def check_library_zone():
    h, m = choose((0, 5, -5, 12, -11), 'hours'), choose((0, 30, -30), 'minutes')
    tz = FixedOffset(h, m)
    expect(tz.utcoffset(None) == datetime.timedelta(minutes=h * 60 + m), 'the offset given')
    expect(tz.dst(None) == datetime.timedelta(0), 'no daylight saving')
    d = a_time(instant('a')).asDatetime(tz)
    n = abs(h * 60 + m)
    expect(d.tzname() == '%s%02d:%02d' % ('-' if h * 60 + m < 0 else '+', n // 60, n % 60), 'the zone has a name')
    cover('named')


def check_now():
    n = len(datetime.clock)
    t = Time()
    expect(len(datetime.clock) == n + 1, 'the clock is read once')
    expect_eq(us_of(t), datetime.clock[-1], 'a new time is the current moment in UTC')
    cover('now')


class Own(Time):
    """what applications derive"""
    extra = 'own'


def check_derived():
    """constructors make times of the class they are called on"""
    how = choose(('datetime', 'aware', 'struct', 'posix', 'iso', 'iso day', 'rfc2822', 'humanly', 'today', 'now'), 'constructor')
    now = a_time(instant('now'))
    if how == 'datetime':
        t = Own.fromDatetime(datetime.datetime(2005, 3, 4))
    elif how == 'aware':
        t = Own.fromDatetime(datetime.datetime(2005, 3, 4, tzinfo=FixedOffset(1, 0)))
    elif how == 'struct':
        t = Own.fromStructTime((2005, 3, 4, 5, 6, 7, 0, 0, 0))
    elif how == 'posix':
        t = Own.fromPOSIXTimestamp(1)
    elif how == 'iso':
        t = Own.fromISO8601TimeAndDate('2005-03-04T05:06:07+01:00')
    elif how == 'iso day':
        t = Own.fromISO8601TimeAndDate('2005-03-04')
    elif how == 'rfc2822':
        utils.parsed.append(('Fri, 4 Mar 2005 05:06:07 +0100', (2005, 3, 4, 5, 6, 7, 0, 1, -1, 3600)))
        t = Own.fromRFC2822('Fri, 4 Mar 2005 05:06:07 +0100')
    elif how == 'humanly':
        t = Own.fromHumanly('noon', now=now)
    elif how == 'today':
        t = Own.fromHumanly('today', now=now)
    else:
        t = Own()
    expect(type(t) is Own, 'a time of the class asked for')
    cover('derived')
