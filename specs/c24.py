"""C24: containment and bounds follow the period a time addresses."""
import datetime
from verif import choose, expect, expect_eq, cover, sym_int, assume, sym_str
from epsilon.extime import Time, FixedOffset
from xlib import (Zone, zone, minutes, instant, naive, aware, td, us_of, res_of, a_time, resolution, Frozen, DAY, US)

COVER = ('contained', 'starts before', 'ends after', 'other type', 'bounds', 'bounds in zone', 'bounds of an instant',
         'day', 'day of whole day', 'predicates')


def check_contains():
    a, b = instant('a'), instant('b')
    r, s = resolution('r'), resolution('s')
    x, y = a_time(a, r), a_time(b, s)
    f = Frozen(x, y)
    got = y in x
    expect(got == (a <= b and b + s <= a + r), 'contained exactly if the whole period lies within')
    cover('contained' if got else 'starts before' if b < a else 'ends after')
    expect((x in x) is True, 'a time contains itself')
    f.check()


def check_contains_other():
    x = a_time(instant('a'), resolution())
    y = choose((None, 0, '', naive(instant('b')), td(5), x._time if False else 'now'), 'other')
    try:
        y in x
        raised = False
    except TypeError:
        raised = True
    expect(raised, 'only times can be contained')
    cover('other type')


def check_bounds():
    a = instant('a')
    r = resolution('r')
    t = a_time(a, r) if choose(2, 'resolution') else a_time(a)
    r = res_of(t)
    f = Frozen(t)
    if choose(2, 'zone'):
        tz, m = zone()
        lo, hi = t.getBounds(tz)
    else:
        tz, m = None, 0
        lo, hi = t.getBounds()
    l, h = us_of(lo), us_of(hi)
    expect(l <= a, 'the bounds enclose the period as read in UTC')
    expect(a + r <= h, 'the bounds enclose the period as read in UTC')
    if r >= DAY:
        start = a - m * 60 * US
        expect(l <= start, 'the bounds enclose the period as read in the zone')
        expect(start + r <= h, 'the bounds enclose the period as read in the zone')
        expect_eq(l, min(a, start), 'and no more')
        expect_eq(h, max(a, start) + r, 'and no more')
        cover('bounds in zone' if tz is not None else 'bounds')
    else:
        expect_eq(l, a, 'the bounds of a time of day are its period')
        expect_eq(h, a + r, 'the bounds of a time of day are its period')
        cover('bounds of an instant')
    expect(lo is not t and hi is not t, 'the bounds are new objects')
    f.check()


def check_day():
    a = instant('a')
    t = a_time(a, resolution('r')) if choose(2, 'resolution') else a_time(a)
    f = Frozen(t)
    d = t.oneDay()
    expect_eq(us_of(d), a // DAY * DAY, 'midnight in UTC')
    expect_eq(res_of(d), DAY, 'one day')
    expect(d is not t, 'a new object')
    expect(d.isAllDay() is True, 'is a whole day')
    f.check()
    cover('day')
    if res_of(t) >= DAY:
        cover('day of whole day')


def check_predicates():
    r = resolution('r')
    t = a_time(instant('a'), r)
    expect(t.isAllDay() == (r == DAY), 'all day: exactly one day')
    expect(t.isTimezoneDependent() == (r < DAY), 'depends on the zone: finer than a day')
    cover('predicates')
