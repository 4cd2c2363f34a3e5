"""C25: times are never changed by using them."""
import datetime
import time
from email import utils
from verif import choose, expect, expect_eq, cover, sym_int, assume, sym_str
from epsilon import extime
from epsilon.extime import Time, FixedOffset
from xlib import (Zone, zone, minutes, instant, naive, aware, td, us_of, res_of, a_time, resolution, Frozen, DAY, US)

COVER = ('formatted', 'compared', 'combined', 'related', 'parsed', 'independent', 'shared')


def shared():
    """what all times share"""
    out = [('resolution', Time.resolution._us)]
    for name in ('weekdays', 'rfc2822Weekdays', 'rfc2822Months'):
        v = getattr(Time, name, None)
        if v is not None:
            out.append((name, list(v)))
    out.append(('zero', FixedOffset(0, 0).utcoffset(None)._us))
    out.append(('min', datetime.timedelta.resolution._us))
    return out


def subject(name='a'):
    r = choose(('none', 'fine', 'day', 'long'), 'resolution of ' + name)
    u = instant(name)
    if r == 'none':
        return a_time(u)
    return a_time(u, {'fine': sym_int('r' + name, 0, DAY - 1), 'day': DAY, 'long': sym_int('r' + name, DAY, 400 * DAY)}[r])


def check_formatting():
    how = choose(('iso', 'plain iso', 'rfc2822', 'rfc1123', 'humanly', 'struct', 'posix', 'datetime', 'naive', 'str', 'repr'),
                 'format')
    if how in ('rfc2822', 'rfc1123', 'humanly'):    # these name months and weekdays: a case each
        t = a_time(instant('a'), DAY) if choose(2, 'day') else a_time(instant('a'))
    else:
        t = subject()
    other = a_time(instant('n')) if how == 'humanly' and choose(2, 'now') else None
    f = Frozen(*([t, other] if other is not None else [t]))
    before = shared()
    tz = zone()[0] if how != 'rfc1123' and choose(2, 'zone') else None
    if how == 'iso':
        t.asISO8601TimeAndDate(tzinfo=tz)
    elif how == 'plain iso':
        t.asISO8601TimeAndDate(False, tz, False)
    elif how == 'rfc2822':
        t.asRFC2822(tz)
    elif how == 'rfc1123':
        t.asRFC1123()
    elif how == 'humanly':
        t.asHumanly(tz, other)
    elif how == 'struct':
        t.asStructTime(tz)
    elif how == 'posix':
        t.asPOSIXTimestamp()
    elif how == 'datetime':
        d = t.asDatetime(tz)
        expect(d.tzinfo is not None, 'aware')
    elif how == 'naive':
        t.asNaiveDatetime(tz)
    elif how == 'str':
        str(t)
    else:
        repr(t)
    f.check()
    expect(shared() == before, 'nothing shared by all times changes')
    cover('formatted')
    cover('shared')


def check_using():
    t, u = subject('a'), subject('b')
    f = Frozen(t, u)
    before = shared()
    how = choose(('compare', 'contain', 'hash', 'add', 'sub', 'interval', 'bounds', 'day', 'predicates', 'bounds in zone'),
                 'operation')
    new = []
    if how == 'compare':
        t == u, t != u, t < u, t <= u, t > u, t >= u
        cover('compared')
    elif how == 'contain':
        t in u
    elif how == 'hash':
        hash(t), {t: 1, u: 2}
    elif how == 'add':
        new = [t + td(sym_int('d', -DAY, DAY))]
        cover('combined')
    elif how == 'sub':
        new = [t - td(sym_int('d', -DAY, DAY))]
    elif how == 'interval':
        t - u
    elif how == 'bounds':
        new = list(t.getBounds())
        cover('related')
    elif how == 'bounds in zone':
        new = list(t.getBounds(zone()[0]))
    elif how == 'day':
        new = [t.oneDay()]
    else:
        t.isAllDay(), t.isTimezoneDependent()
    f.check()
    independent(new, f)
    expect(shared() == before, 'nothing shared by all times changes')


def independent(new, f):
    """changing the resolution of a result changes nothing else"""
    for i, n in enumerate(new):
        for t in f.times:
            expect(n is not t, 'results are new objects')
        for k in range(i):
            expect(n is not new[k], 'results are different objects')
    rs = [res_of(n) for n in new]
    for i, n in enumerate(new):
        n.resolution = td(12345)
        for k in range(len(new)):
            expect_eq(res_of(new[k]), 12345 if k <= i else rs[k], 'every result has its own resolution')
        cover('independent')
    f.check()
    expect_eq(res_of(Time.fromDatetime(naive(instant('x')))), 1, 'new times are not affected')


def check_parsing():
    now = subject('n')
    f = Frozen(now)
    before = shared()
    how = choose(('now', 'today', 'Tomorrow', 'monday', 'next friday', 'noon', 'midnight', '13:45', 'nonsense'), 'text')
    tz = zone()[0] if choose(2, 'zone') else None
    new = []
    try:
        new.append(Time.fromHumanly(how, tz, now))
        if choose(2, 'twice'):
            new.append(Time.fromHumanly(how, tz, now))
        ok = True
    except ValueError:
        ok = False
    expect(ok == (how != 'nonsense'), 'accepted')
    f.check()
    independent(new, f)
    expect(shared() == before, 'nothing shared by all times changes')
    cover('parsed')


def check_constructors():
    f = Frozen(subject())
    before = shared()
    how = choose(('iso day', 'iso minute', 'iso month', 'datetime', 'aware', 'posix', 'struct', 'rfc2822', 'now'), 'constructor')
    a = instant('i')
    d = naive(a)
    make = {'iso day': lambda: Time.fromISO8601TimeAndDate('2005-02-03'),
            'iso minute': lambda: Time.fromISO8601TimeAndDate('2005-02-03T04:05+01:00'),
            'iso month': lambda: Time.fromISO8601TimeAndDate('2005-02'),
            'datetime': lambda: Time.fromDatetime(d), 'aware': lambda: Time.fromDatetime(aware(a, Zone(60), 60)),
            'posix': lambda: Time.fromPOSIXTimestamp(12), 'struct': lambda: Time.fromStructTime((2005, 2, 3, 4, 5, 6, 0, 0, 0)),
            'rfc2822': lambda: Time.fromRFC2822('Thu, 3 Feb 2005 04:05:06 +0100'), 'now': Time}[how]
    utils.parsed.append(('Thu, 3 Feb 2005 04:05:06 +0100', (2005, 2, 3, 4, 5, 6, 0, 1, -1, 3600)))
    new = [make(), make()]
    f.check()
    independent(new, f)
    expect_eq(d._us, a, 'the datetime given is not changed')
    expect(shared() == before, 'nothing shared by all times changes')
