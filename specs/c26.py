"""C26: human date phrases mean what they say relative to now."""
import datetime
from verif import choose, expect, expect_eq, cover, sym_int, assume, fresh
from epsilon.extime import Time, FixedOffset
from xlib import Zone, minutes, instant, naive, td, us_of, res_of, a_time, DAY, US

COVER = ('day', 'weekday', 'clock', 'am pm', 'noon', 'now', 'refused', 'hour out of range', 'minute out of range', 'real now',
         'in zone', 'day now')
HOUR, MIN = 3600 * US, 60 * US


def read(text, *args):
    try:
        return Time.fromHumanly(text, *args)
    except ValueError:
        return None


def moment():
    """an instant, possibly of a resolution of its own"""
    u = instant('now')
    how = choose(('instant', 'minute', 'zero'), 'kind of now')
    return u, a_time(u, {'instant': None, 'minute': MIN, 'zero': 0}[how])


def where():
    how = choose(('none', 'zone', 'fixed'), 'zone')
    if how == 'none':
        return None, 0
    m = minutes()
    cover('in zone')
    return (Zone(m) if how == 'zone' else FixedOffset(0, m)), m


def case(text):
    return choose((text, text.upper(), text.capitalize(), '  ' + text, text + ' \n'), 'spelling')


def given(t, us, res, what):
    expect(t is not None, what + ' is understood')
    expect_eq(us_of(t), us, what + ' denotes')
    expect_eq(res_of(t), res, what + ' has the resolution')


def check_days():
    u, now = moment()
    word, k = choose((('today', 0), ('tomorrow', 1), ('yesterday', -1)), 'word')
    tz, m = where()
    given(read(case(word), tz, now), (u // DAY + k) * DAY, DAY, word)
    cover('day')


def check_weekdays():
    u, now = moment()
    i = choose(7, 'weekday')
    name = ('monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday')[i]
    prefix = choose(('', 'next ', 'This  '), 'prefix')
    text = case(prefix + name) if not prefix else prefix + name
    tz = Zone(minutes()) if choose(2, 'in a zone') else None
    t = read(text, tz, now)
    expect(t is not None, 'weekdays are understood')
    d = us_of(t) - u // DAY * DAY
    ok = False
    for k in range(1, 8):
        if d == k * DAY:
            ok = True
    expect(ok, 'a weekday is one of the seven days after today')
    # day 0 of the calendar (0001-01-01) is a monday
    expect_eq(us_of(t) // DAY % 7, i, 'and is that weekday')
    expect_eq(res_of(t), DAY, 'a whole day')
    cover('weekday')


def first(u, m, clock, grain):
    """the first instant at which the clock in the zone shows the reading, not before the current minute or hour"""
    local = u + m * MIN
    day = local // DAY * DAY
    start = local // grain * grain
    if day + clock >= start:
        return day + clock - m * MIN
    return day + DAY + clock - m * MIN


def check_clock():
    u, now = moment()
    tz, m = where()
    form = choose(('hh:mm', 'h:mm'), 'form')
    h = sym_int('hour', 0, 99 if form == 'hh:mm' else 9)
    mi = sym_int('minute', 0, 99)
    text = ('%02d' if form == 'hh:mm' else '%01d') % h + ':%02d' % mi
    t = read(text, tz, now)
    if h > 23 or mi > 59:
        expect(t is None, 'hours and minutes out of range are refused')
        cover('hour out of range' if h > 23 else 'minute out of range')
        return
    given(t, first(u, m, h * HOUR + mi * MIN, MIN), MIN, 'a clock time')
    cover('clock')


def check_ampm():
    u, now = moment()
    tz, m = where()
    form = choose(('hh:mm', 'h:mm'), 'form')
    h = sym_int('hour', 0, 99 if form == 'hh:mm' else 9)
    mi = sym_int('minute', 0, 99)
    half = choose(('am', 'pm', 'AM', ' Pm', '  am'), 'half')
    t = read(('%02d' if form == 'hh:mm' else '%01d') % h + ':%02d' % mi + half, tz, now)
    if h < 1 or h > 12 or mi > 59:
        expect(t is None, 'hours and minutes out of range are refused')
        return
    h24 = (0 if h == 12 else h) + (12 if half.strip().lower() == 'pm' else 0)
    given(t, first(u, m, h24 * HOUR + mi * MIN, MIN), MIN, 'a clock time')
    cover('am pm')


def check_noon():
    u, now = moment()
    tz, m = where()
    word, h = choose((('noon', 12), ('midnight', 0)), 'word')
    given(read(case(word), tz, now), first(u, m, h * HOUR, HOUR), MIN, word)
    cover('noon')


def check_now():
    u, now = moment()
    tz, m = where()
    t = read(case('now'), tz, now)
    expect(t is not None, 'understood')
    expect_eq(us_of(t), u, 'now is the given moment')
    expect(t is not now, 'a time of its own')
    cover('now')


def check_real_now():
    """without a given moment the clock is used"""
    n = len(datetime.clock)
    t = read(choose(('now', 'today'), 'word'))
    expect(len(datetime.clock) > n, 'the clock is read')
    u = datetime.clock[-1]
    expect(us_of(t) == u or us_of(t) == u // DAY * DAY, 'relative to now')
    cover('real now')


def check_day_now():
    """a day as "now" begins at its midnight"""
    k = sym_int('day', 800, 3650000)
    now = a_time(k * DAY, DAY)
    tz, m = where()
    text, us, res = choose((('today', k * DAY, DAY), ('tomorrow', (k + 1) * DAY, DAY), ('yesterday', (k - 1) * DAY, DAY),
                            ('now', k * DAY, None)), 'text')
    t = read(text, tz, now)
    expect(t is not None and us_of(t) == us, 'relative to the day')
    if res is not None:
        expect_eq(res_of(t), res, 'a day')
    cover('day now')


def check_refused():
    u, now = moment()
    tz, m = where()
    text = choose(('', ' ', 'x', 'todays', 'today x', 'x today', 'today tomorrow', 'next', 'this', 'next today', 'mon', 'nextmonday',
                   'monday monday', 'last friday', 'noon 12:00', '12:00 noon', '12', '12:3', '12:345', '123:45', '1:2', ':30',
                   '12.30', '-1:30', '12:30 xm', '12:30 a', '12:30ampm', 'nowx', 'now now', 'mid night', 'next  ', '12 :30',
                   'day after tomorrow', 'noon!', 'to-day', '12:30 noon', 'am', '1 pm'), 'text')
    expect(read(text, tz, now) is None, 'anything else is refused')
    cover('refused')
