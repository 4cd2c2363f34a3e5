"""C59: times shown to people state all that cannot be assumed."""
import datetime
from verif import choose, expect, expect_eq, cover, sym_int, assume
from epsilon import extime
from epsilon.extime import Time, FixedOffset
from xlib import Zone, minutes, naive, us_of, res_of, a_time, season, Frozen, DAY, US

COVER = ('same day', 'same year', 'other year', 'all day', 'all day later', 'all day elsewhere', 'seconds', 'in a zone', 'real now', 'morning',
         'afternoon', 'refused', 'other day in the zone')
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def day(y, m, d):
    return datetime.date(y, m, d).toordinal() - 1


DAYS = [day(2004, 2, 28), day(2004, 2, 29), day(2004, 12, 31), day(2005, 1, 1), day(2005, 2, 28), day(1999, 12, 9), day(2104, 2, 29)]


def clock(local, seconds):
    d = naive(local)
    h = d.hour
    cover('morning' if h < 12 else 'afternoon')
    out = '%02d:%02d' % ((h + 11) % 12 + 1, d.minute)
    if seconds:
        out += ':%02d' % d.second
        cover('seconds')
    return out + (' am' if h < 12 else ' pm')


def date(local, now):
    d, n = naive(local), naive(now)
    out = '%d %s' % (d.day, MONTHS[d.month - 1])
    if d.year != n.year:
        out += ' %d' % d.year
        cover('other year')
    else:
        cover('same year')
    return out


def shown(t, tz, now, seconds):
    args = {}
    if tz is not None or choose(2, 'explicit'):
        args['tzinfo'] = tz
    if seconds:
        args['precision'] = Time.Precision.SECONDS
    elif choose(2, 'explicit precision'):
        args['precision'] = Time.Precision.MINUTES
    return t.asHumanly(now=now, **args)


def reading(name):
    return sym_int(name, 0, DAY - 1)


def where():
    how = choose(('utc', 'zone', 'fixed'), 'zone')
    if how == 'utc':
        return None, 0
    m = minutes()
    cover('in a zone')
    return (Zone(m) if how == 'zone' else FixedOffset(0, m)), m


def check_same_day():
    tz, m = where()
    d = choose(DAYS, 'day')
    local, now = d * DAY + reading('time'), d * DAY + reading('now')
    seconds = choose(2, 'seconds')
    t = a_time(local - m * 60 * US, choose((None, US, 60 * US, 3600 * US), 'resolution'))
    f = Frozen(t)
    expect_eq(shown(t, tz, a_time(now - m * 60 * US), seconds), clock(local, seconds), 'only the clock')
    f.check()
    cover('same day')


def check_other_day():
    tz, m = where()
    d, n = choose(DAYS, 'day'), choose(DAYS, 'today')
    if d == n:
        return
    local, now = d * DAY + reading('time'), n * DAY + reading('now')
    seconds = choose(2, 'seconds')
    t = a_time(local - m * 60 * US, choose((None, 60 * US), 'resolution'))
    expect_eq(shown(t, tz, a_time(now - m * 60 * US), seconds), date(local, now) + ', ' + clock(local, seconds),
              'day, month and clock, and the year if it is another')
    cover('other day in the zone')


def check_all_day():
    """whole days have no clock reading and the same date everywhere"""
    tz, m = where()
    d, n = choose(DAYS, 'day'), choose(DAYS, 'today')
    now = n * DAY + reading('now')
    t = a_time(d * DAY, DAY)
    text = shown(t, tz, a_time(now - m * 60 * US), choose(2, 'seconds'))
    if d == n:
        expect_eq(text, 'all day', 'today')
        cover('all day')
    else:
        expect_eq(text, date(d * DAY, now), 'the date only')
        cover('all day later')
    if tz is not None:
        cover('all day elsewhere')


def check_now():
    """without a time given the present is used"""
    tz, m = where()
    r = choose(('clock', 'all day'), 'resolution')
    d = choose(DAYS, 'day')
    local = d * DAY + (reading('time') if r == 'clock' else 0)
    t = a_time(local - (m * 60 * US if r == 'clock' else 0), None if r == 'clock' else DAY)
    n = len(datetime.clock)
    text = t.asHumanly(tz)
    expect(len(datetime.clock) > n, 'the clock is read')
    now = datetime.clock[-1] + m * 60 * US
    same = now // DAY == d
    if r == 'clock':
        want = clock(local, False) if same else date(local, now) + ', ' + clock(local, False)
    else:
        want = 'all day' if same else date(local, now)
    expect_eq(text, want, 'relative to the present')
    cover('real now')


def check_refused():
    t = a_time(DAYS[0] * DAY)
    p = choose((None, 0, 'seconds', object()), 'precision')
    try:
        t.asHumanly(now=t, precision=p)
        ok = False
    except extime.InvalidPrecision:
        ok = True
    expect(ok, 'an unknown precision is refused')
    cover('refused')
