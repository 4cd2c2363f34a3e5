"""C21: ISO 8601 output parses back to the same time."""
from verif import choose, expect, expect_eq, cover, sym_int, assume
import calendar
import datetime
from epsilon.extime import Time, FixedOffset
from xlib import Zone, minutes, instant, naive, td, us_of, res_of, a_time, DAY, US, season

COVER = ('season', 'day', 'hour', 'minute', 'second', 'fraction', 'zone', 'default zone', 'override', 'no delimiters', 'month', 'year')
UNITS = {'day': DAY, 'hour': 3600 * US, 'minute': 60 * US, 'second': US, 'fraction': 1}


def subject(unit, m):
    """(time, its clock in the zone m minutes east): unknown instant and resolution, aligned on the unit"""
    size = UNITS[unit]
    local = sym_int('units', 367 * DAY // size, 3650000 * DAY // size) * size
    t = a_time(local - m * 60 * US, sym_int('resolution', 0, US - 1) if unit == 'fraction' else size)
    return t, local


def fields(unit, local, delim):
    """the text down to the unit, fractions left out"""
    d = naive(local)
    c = ':' if delim else ''
    s = '-' if delim else ''
    out = '%04d%s%02d%s%02d' % (d.year, s, d.month, s, d.day)
    if unit == 'day':
        return out
    out += 'T%02d' % d.hour
    if unit == 'hour':
        return out
    out += '%s%02d' % (c, d.minute)
    if unit == 'minute':
        return out
    return out + '%s%02d' % (c, d.second)


def where(unit):
    """(zone to ask for, its offset): none, UTC+-minutes of the library or of the caller"""
    how = choose(('utc', 'zone', 'fixed'), 'output zone')
    if how == 'utc':
        return None, 0
    m = minutes()
    cover('zone')
    if how == 'zone':
        return Zone(m), m
    return FixedOffset(0, m), m


def same(back, t, unit):
    expect_eq(us_of(back), us_of(t), 'the text denotes the same instant')
    if unit == 'fraction':
        expect(res_of(back) <= US, 'a fraction has a resolution of a second or less')
    else:
        expect_eq(res_of(back), UNITS[unit], 'resolution')


def roundtrip(unit):
    tz, m = where(unit)
    delim = choose((True, False), 'delimiters')
    if unit == 'day':
        m = 0               # days belong to no zone
    t, local = subject(unit, m)
    text = t.asISO8601TimeAndDate(delim, tz)
    if not delim:
        cover('no delimiters')
    cover(unit)
    want = fields(unit, local, delim)
    expect(isinstance(text, str), 'text')
    if unit == 'fraction':
        expect(text[:len(want)] == want, 'the text states the fields of the time')
    elif unit == 'day':
        expect_eq(text, want, 'the text states the date')
    else:
        sep = ':' if delim else ''
        a = -m if m < 0 else m
        expect_eq(text, want + ('-' if m < 0 else '+') + '%02d%s%02d' % (a // 60, sep, a % 60),
                  'the text states the fields down to the resolution and no finer')
    default = None
    if choose(2, 'default zone'):
        default = Zone(minutes('default'))
        cover('override')
    same(Time.fromISO8601TimeAndDate(text, default), t, unit)


def check_day():
    roundtrip('day')


def check_hour():
    roundtrip('hour')


def check_minute():
    roundtrip('minute')


def check_second():
    roundtrip('second')


def check_fraction():
    roundtrip('fraction')


def check_period():
    """whole months and years"""
    what = choose(('month', 'year'), 'period')
    y = sym_int('year', 2, 9990)
    m = sym_int('month', 1, 12) if what == 'month' else 1
    days = calendar.monthrange(y, m)[1] if what == 'month' else 366 if calendar.isleap(y) else 365
    t = Time.fromDatetime(datetime.datetime(y, m, 1))
    t.resolution = td(days * DAY)
    tz = choose((None, Zone(-300), FixedOffset(9, 30)), 'output zone')
    delim = choose((True, False), 'delimiters')
    text = t.asISO8601TimeAndDate(delim, tz, choose((True, False), 'zone included'))
    want = '%04d' % y
    if what == 'month':
        want += '%s%02d' % ('-' if delim else '', m)
    expect_eq(text, want, 'the text states the period and no more')
    back = Time.fromISO8601TimeAndDate(text, tz)
    expect_eq(us_of(back), us_of(t), 'the text denotes the same instant')
    expect_eq(res_of(back), days * DAY, 'and the same period')
    cover(what)


def check_season():
    """a zone whose offset changes"""
    n = sym_int('units', 500 * DAY // (60 * US), 3640000 * DAY // (60 * US))
    t = a_time(n * 60 * US, 60 * US)
    tz, m = season(n * 60 * US)
    text = t.asISO8601TimeAndDate(True, tz)
    a = -m if m < 0 else m
    expect_eq(text, fields('minute', (n + m) * 60 * US, True) + ('-' if m < 0 else '+') + '%02d:%02d' % (a // 60, a % 60),
              'the text states the fields and the offset at that time')
    same(Time.fromISO8601TimeAndDate(text), t, 'minute')
    cover('season')


def check_without_zone():
    """text without an offset, read in the zone it was written for"""
    unit = choose(('hour', 'minute', 'second', 'fraction'), 'unit')
    tz, m = where(unit)
    delim = choose((True, False), 'delimiters')
    t, local = subject(unit, m)
    text = t.asISO8601TimeAndDate(delim, tz, False)
    if unit != 'fraction':
        expect_eq(text, fields(unit, local, delim), 'the text states no offset')
    cover('default zone')
    same(Time.fromISO8601TimeAndDate(text, tz), t, unit)
