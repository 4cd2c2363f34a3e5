"""C27: RFC 2822 and POSIX conversions keep the instant to the second."""
import datetime
import calendar
from email import utils
from verif import choose, expect, expect_eq, cover, sym_int, assume, sym_str
from epsilon.extime import Time, FixedOffset
from xlib import Zone, minutes, instant, naive, td, us_of, res_of, a_time, DAY, US, season

COVER = ('language', 'season', 'parsed', 'clamped', 'no offset', 'unparseable', 'rendered', 'rendered in zone', 'without weekday', 'rfc1123',
         'posix in', 'posix out', 'posix fraction', 'round trip', 'bad offset')
EPOCH = 719162 * DAY
DAYS = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')


def clamp(v, lo, hi):
    if v < lo:
        return lo
    if v > hi:
        return hi
    return v


def check_parse():
    """whatever fields the date states"""
    text = sym_str('text')
    y, mo, d, h, mi, s = 2004, 2, 29, 12, 30, 45
    which = choose(('date', 'day', 'year', 'clock', 'hour', 'minute', 'second'), 'fields')
    if which in ('date', 'day'):
        y, mo = sym_int('year', 2, 9998), sym_int('month', 1, 12)
        d = sym_int('day', 1, 31) if which == 'date' else sym_int('odd day', 0, 99)
    elif which == 'year':
        y, mo = sym_int('odd year', -3, 20000), 6
    elif which == 'clock':
        h, mi, s = sym_int('hour', 0, 23), sym_int('minute', 0, 59), sym_int('second', 0, 59)
    elif which == 'hour':
        h = sym_int('odd hour', -3, 99)
    elif which == 'minute':
        mi = sym_int('odd minute', -3, 99)
    else:
        s = sym_int('odd second', -3, 99)
    how = choose(('offset', 'plain', 'none'), 'offset')
    off = {'offset': sym_int('offset', -1439, 1439) * 60, 'plain': 0, 'none': None}[how]
    junk = (0, 1, -1) if how == 'plain' else (6, 400, 7)      # weekday, day of year, daylight saving: ignored
    utils.parsed.append((text, (y, mo, d, h, mi, s) + junk + (off,)))
    t = Time.fromRFC2822(text)
    y, h, mi, s = clamp(y, 1, 9999), clamp(h, 0, 23), clamp(mi, 0, 59), clamp(s, 0, 59)
    d = clamp(d, 1, calendar.monthrange(y, mo)[1])
    us = (datetime.date(y, mo, 1).toordinal() + d - 2) * DAY + ((h * 60 + mi) * 60 + s) * US
    if off is None:
        cover('no offset')
    else:
        us = us - off * US
    expect_eq(us_of(t), us, 'the stated date and clock reading at the stated offset')
    expect_eq(res_of(t), US, 'a resolution of one second')
    cover('parsed' if which in ('date', 'clock') else 'clamped')


def check_refused():
    text = sym_str('text')
    if choose(2, 'offset'):
        off = sym_int('offset', -6000, 6000) * 60
        assume(off >= 86400 or off <= -86400)
        utils.parsed.append((text, (2005, 2, 3, 4, 5, 6, 0, 1, -1, off)))
        cover('bad offset')
    else:
        utils.parsed.append((text, None))
        cover('unparseable')
    try:
        Time.fromRFC2822(text)
        ok = False
    except ValueError:
        ok = True
    expect(ok, 'refused with ValueError')


def date_text(local, weekday=True):
    d = naive(local)
    out = '%d %s %04d %02d:%02d:%02d' % (d.day, MONTHS[d.month - 1], d.year, d.hour, d.minute, d.second)
    return DAYS[d.weekday()] + ', ' + out if weekday else out


def check_render():
    """the text states date, clock, weekday and offset in the requested zone"""
    u = sym_int('instant', 366000 * DAY, 3650000 * DAY)
    t = a_time(u, US) if choose(2, 'seconds') else a_time(u)
    how = choose(('none', 'zone', 'fixed'), 'zone')
    weekday = how != 'zone'
    if how == 'none':
        expect_eq(t.asRFC2822(), date_text(u) + ' -0000', 'in UTC')
        cover('rendered')
        return
    m = minutes()
    tz = Zone(m) if how == 'zone' else FixedOffset(0, m)
    a = -m if m < 0 else m
    expect_eq(t.asRFC2822(tz) if weekday else t.asRFC2822(tz, False),
              date_text(u + m * 60 * US, weekday) + ' ' + ('-' if m < 0 else '+') + '%02d%02d' % (a // 60, a % 60),
              'in the zone')
    cover('rendered in zone' if weekday else 'without weekday')


def check_season():
    """a zone whose offset changes"""
    u = sym_int('instant', 366000 * DAY, 3650000 * DAY)
    tz, m = season(u)
    a = -m if m < 0 else m
    expect_eq(a_time(u).asRFC2822(tz),
              date_text(u + m * 60 * US) + ' ' + ('-' if m < 0 else '+') + '%02d%02d' % (a // 60, a % 60),
              'with the offset at that time')
    cover('season')


def check_rfc1123():
    if choose(2, 'fraction'):
        s = choose((366001 * 86400 + 86399, 719161 * 86400 + 43200, 730482 * 86400 + 59, 2900000 * 86400), 'seconds')
        f = sym_int('fraction', 1000, 999000)
    else:
        s, f = sym_int('seconds', 366000 * 86400, 3650000 * 86400), 0
    t = a_time(s * US + f)
    d = naive(s * US)
    want = '%s, %02d %s %04d %02d:%02d:%02d GMT' % (DAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year, d.hour, d.minute,
                                                    d.second)
    expect_eq(t.asRFC1123(), want, 'in GMT')
    cover('rfc1123')


def check_posix_in():
    n = sym_int('seconds', 400 * 86400 - 719162 * 86400, 2900000 * 86400)
    if choose(2, 'fraction'):
        f = sym_int('micro', 0, 999999)
        t = Time.fromPOSIXTimestamp(n + f / 1000000.0)
        x = us_of(t) - (EPOCH + n * US + f)
        expect(x < 1000 and x > -1000, 'seconds since 1970-01-01 00:00 UTC')
        cover('posix fraction')
        return
    t = Time.fromPOSIXTimestamp(n)
    expect_eq(us_of(t), EPOCH + n * US, 'seconds since 1970-01-01 00:00 UTC')
    cover('posix in')
    expect_eq(us_of(Time.fromPOSIXTimestamp(t.asPOSIXTimestamp())), us_of(t), 'there and back')
    cover('round trip')


def check_posix_out():
    n = sym_int('seconds', 400 * 86400 - 719162 * 86400, 2900000 * 86400)
    if choose(2, 'fraction'):
        f = sym_int('micro', 0, 999999)
        p = a_time(EPOCH + n * US + f, choose((None, US, 0, DAY), 'resolution')).asPOSIXTimestamp()
        x = p - n - f / 1000000.0
        expect(x < 0.001 and x > -0.001, 'seconds since 1970-01-01 00:00 UTC')
        return
    p = a_time(EPOCH + n * US, choose((None, US, 0, DAY), 'resolution')).asPOSIXTimestamp()
    expect_eq(p, n, 'seconds since 1970-01-01 00:00 UTC')
    cover('posix out')


def check_language():
    """names are those of the standard, whatever the language of the user"""
    u = sym_int('instant', 732000 * DAY, 732400 * DAY)
    t = a_time(u)
    datetime.locale = 'other'
    expect_eq(t.asRFC2822(), date_text(u) + ' -0000', 'in UTC')
    text = t.asRFC1123()
    datetime.locale = 'C'
    expect_eq(text, t.asRFC1123(), 'the same text in every language')
    cover('language')
