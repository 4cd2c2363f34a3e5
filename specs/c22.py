"""C22: parsed ISO 8601 text denotes the right fields, zone and resolution."""
import datetime
import calendar
from verif import choose, expect, expect_eq, cover, sym_int, assume
from epsilon.extime import Time, FixedOffset
from xlib import Zone, minutes, instant, naive, td, us_of, res_of, a_time, DAY, US

COVER = ('year', 'month', 'day', 'week', 'week day', 'day of year', 'bad month', 'bad day', 'bad week', 'bad day of year',
         'bad year', 'clock', 'bad clock', 'fraction', 'zulu', 'offset', 'negative offset', 'bad offset', 'default zone',
         'no clock', 'malformed', 'unrepresentable', 'rounds up')
HOUR, MIN = 3600 * US, 60 * US


def parse(text, tz=None):
    """the time, or None if refused"""
    try:
        return Time.fromISO8601TimeAndDate(text, tz)
    except ValueError:
        return None


def required(t, ok, us, res, what):
    if not ok:
        expect(t is None, what + ': fields out of range are refused')
        cover('bad ' + what)
        return
    expect(t is not None, what + ': accepted')
    expect_eq(us_of(t), us, what + ': the stated instant')
    expect_eq(res_of(t), res, what + ': the smallest unit stated')
    cover(what)


def monday1(y):
    """day number of the monday of week 1"""
    o = datetime.date(y, 1, 4).toordinal()
    return o - (o + 6) % 7


def a_date(what, delim):
    """(text, valid, day number, resolution) of a date in the given form, all digits unknown"""
    s = '-' if delim else ''
    y = sym_int('year', 0, 9999)
    text = '%04d' % y
    if what == 'year':
        if y < 1:
            return text, False, 0, 0
        return text, True, datetime.date(y, 1, 1).toordinal(), (365 + calendar.isleap(y)) * DAY
    if what in ('month', 'day'):
        m = sym_int('month', 0, 99)
        text += '%s%02d' % (s, m)
        d = 1
        if what == 'day':
            d = sym_int('day', 0, 99)
            text += '%s%02d' % (s, d)
        if y < 1 or m < 1 or m > 12 or d < 1 or d > 31:
            return text, False, 0, 0
        n = calendar.monthrange(y, m)[1]
        if d > n:
            return text, False, 0, 0
        return text, True, datetime.date(y, m, 1).toordinal() + d - 1, DAY if what == 'day' else n * DAY
    if what in ('week', 'week day'):
        w = sym_int('week', 0, 99)
        text += '%sW%02d' % (s, w)
        k = 1
        if what == 'week day':
            k = sym_int('weekday', 0, 9)
            text += '%s%01d' % (s, k)
        if y < 1 or w < 1 or w > 53 or k < 1 or k > 7:
            return text, False, 0, 0
        o = monday1(y) + 7 * (w - 1) + k - 1
        if w == 53 and (y == 9999 or o >= monday1(y + 1)):
            return text, False, 0, 0
        if o < 1 or o > 3652059:
            return text, False, 0, 0
        return text, True, o, DAY if what == 'week day' else 7 * DAY
    n = sym_int('day of year', 0, 999)
    text += '%s%03d' % (s, n)
    if y < 1 or n < 1 or n > 365 + calendar.isleap(y):
        return text, False, 0, 0
    return text, True, datetime.date(y, 1, 1).toordinal() + n - 1, DAY


FORMS = ('year', 'month', 'day', 'week', 'week day', 'day of year')


def dates(what):
    delim = choose((True, False), 'delimiters')
    text, ok, o, res = a_date(what, delim)
    tz = Zone(minutes()) if choose(2, 'default zone') else None
    required(parse(text, tz), ok, (o - 1) * DAY, res, what)
    if tz is not None:
        cover('no clock')


def check_year():
    dates('year')


def check_month():
    dates('month')


def check_day():
    dates('day')


def check_week():
    dates('week')


def check_weekday():
    dates('week day')


def check_dayofyear():
    dates('day of year')


def check_dated_clock():
    """every form of a day can be followed by a clock time, a month, week or year can not"""
    what = choose(FORMS, 'form')
    text, ok, o, res = a_date(what, True)
    assume(ok)
    if what in ('month', 'day', 'week', 'week day'):
        assume(o > 2000 * 365 and o < 2040 * 365)
    h = sym_int('hour', 0, 23)
    text = text + 'T%02d' % h
    t = parse(text)
    if what in ('year', 'month', 'week'):
        expect(t is None, 'a clock time needs a day')
        return
    required(t, True, (o - 1) * DAY + h * HOUR, HOUR, what)


DATES = (('2004-02-29', 731640), ('20050101', 731947), ('2004-366', 731946), ('2005-W01-1', 731949), ('2004W537', 731948))


def a_clock():
    """(text, valid, microseconds, resolution): one of the forms of a clock time, all digits unknown"""
    s = ':' if choose((True, False), 'colons') else ''
    form = choose(('hour', 'minute', 'second', 'fraction'), 'clock')
    h = sym_int('hour', 0, 99)
    text = 'T%02d' % h
    if form == 'hour':
        return text, h <= 23, h <= 24, h * HOUR, HOUR
    m = sym_int('minute', 0, 99)
    text += '%s%02d' % (s, m)
    us = h * HOUR + m * MIN
    if form == 'minute':
        return text, h <= 23 and m <= 59, h <= 24 and m <= 59, us, MIN
    sec = sym_int('second', 0, 99)
    text += '%s%02d' % (s, sec)
    us += sec * US
    valid = h <= 23 and m <= 59 and sec <= 59
    lax = h <= 24 and m <= 59 and sec <= 61
    if form == 'second':
        return text, valid, lax, us, US
    text += choose(('.', ','), 'separator')
    n = choose((1, 2, 3, 6), 'digits')
    f = sym_int('fraction', 0, 10 ** n - 1)
    cover('fraction')
    return text + {1: '%01d', 2: '%02d', 3: '%03d', 6: '%06d'}[n] % f, valid, lax, us + f * 10 ** (6 - n), 10 ** (6 - n)


def check_clock():
    date, o = choose(DATES, 'date')
    text, valid, lax, us, res = a_clock()
    t = parse(date + text)
    if lax and not valid and t is not None:     # 24:00 and leap seconds: refused, or understood
        valid = True
    required(t, valid, (o - 1) * DAY + us, res, 'clock')


def check_many_digits():
    """fractions finer than a microsecond are rounded to the nearest"""
    n = choose((7, 8, 9, 12), 'digits')
    f = sym_int('fraction', 0, 10 ** n - 1)
    t = parse('2005-01-01T10:20:30.' + {7: '%07d', 8: '%08d', 9: '%09d', 12: '%012d'}[n] % f + 'Z')
    expect(t is not None, 'accepted')
    exact = (731946 * DAY + 10 * HOUR + 20 * MIN + 30 * US) * 10 ** (n - 6) + f
    x = us_of(t) * 10 ** (n - 6) - exact
    expect(-10 ** (n - 6) < x and x < 10 ** (n - 6), 'within a microsecond')
    expect_eq(res_of(t), 1, 'the finest resolution')
    if f == 10 ** n - 1:
        cover('rounds up')


def an_offset():
    """(text, valid, minutes east)"""
    form = choose(('Z', 'hours', 'hhmm', 'hh:mm'), 'offset')
    if form == 'Z':
        cover('zulu')
        return 'Z', True, 0
    sign = choose(('+', '-'), 'sign')
    h = sym_int('offset hours', 0, 99)
    text = sign + '%02d' % h
    m = 0
    if form != 'hours':
        m = sym_int('offset minutes', 0, 99)
        text += (':' if form == 'hh:mm' else '') + '%02d' % m
    cover('negative offset' if sign == '-' else 'offset')
    return text, h < 24 and m < 60, -(h * 60 + m) if sign == '-' else h * 60 + m


def check_offset():
    """an explicit offset always wins over the default zone"""
    off, ok, m = an_offset()
    clock, us, res = choose((('T10', 10 * HOUR, HOUR), ('T0102', HOUR + 2 * MIN, MIN), ('T23:59:58', 86398 * US, US),
                             ('T00:00:00.5', US // 2, US // 10)), 'clock')
    tz = Zone(minutes()) if choose(2, 'default zone') else None
    t = parse('2004-02-29' + clock + off, tz)
    required(t, ok, 731639 * DAY + us - m * MIN, res, 'offset')


def check_default_zone():
    """a clock time without an offset is read in the default zone, UTC if there is none"""
    clock, us, res = choose((('T10', 10 * HOUR, HOUR), ('T0102', HOUR + 2 * MIN, MIN), ('T23:59:58', 86398 * US, US),
                             ('T00:00:00.5', US // 2, US // 10)), 'clock')
    how = choose(('none', 'zone', 'library', 'falsy'), 'default zone')
    m = minutes()
    tz = {'none': None, 'zone': Zone(m), 'library': FixedOffset(0, m), 'falsy': Zone(m)}[how]
    if how == 'none':
        m = 0
    t = parse('2004-02-29' + clock, tz)
    required(t, True, 731639 * DAY + us - m * MIN, res, 'default zone')


def check_unrepresentable():
    """instants outside the years 1 to 9999 are refused"""
    h, m = sym_int('hours', 0, 23), sym_int('minutes', 0, 59)
    edge = choose(('first', 'last', 'rounded'), 'edge')
    if edge == 'first':
        t = parse('0001-01-01T00:30+%02d:%02d' % (h, m))
        us = 30 * MIN - h * HOUR - m * MIN
        ok = us >= 0
    elif edge == 'last':
        t = parse('9999-12-31T23:30-%02d:%02d' % (h, m))
        us = 3652059 * DAY - 30 * MIN + h * HOUR + m * MIN
        ok = us < 3652059 * DAY
    else:
        t = parse('9999-12-31T23:59:59.9999999')
        expect(t is None or us_of(t) == 3652059 * DAY - 1, 'refused, or the last microsecond')
        cover('unrepresentable')
        return
    if ok:
        required(t, True, us, MIN, 'offset')
    else:
        expect(t is None, 'refused')
        cover('unrepresentable')


def check_malformed():
    """text which is not entirely of one of the forms is refused"""
    y, m, d = '%04d' % sym_int('y', 1, 9999), '%02d' % sym_int('m', 1, 12), '%02d' % sym_int('d', 1, 28)
    good = y + '-' + m + '-' + d
    text = choose((good + 'x', ' ' + good, good + ' ', good + 'T', good + 'T1', good + ' 10:20', good + 't10', good + 'T10:2',
                   good + 'T10:20:3', good + 'T10:20:30.', good + 'T10:20+1', good + 'T10:20+001', good + 'T10:20z',
                   good + 'T10:20 +0100', good + 'Z', good + '+01:00', y[1:], y + '-' + m + '-', y + '-W', y + '-W1', '',
                   y + '-W' + m + 'T10', y + 'T10', y + '-' + m + 'T10', '-' + y, good + good, y + '/' + m + '/' + d,
                   good + 'T10.5', good + 'T10:20.5', good + 'T10:20:30.5.5', 'abc', y + '-1', good + 'T10:20Z+01:00',
                   good + 'T-1:20', good + 'T10:20:30:40', '+' + good), 'text')
    tz = Zone(minutes()) if choose(2, 'default zone') else None
    expect(parse(text, tz) is None, 'malformed text is refused')
    cover('malformed')
