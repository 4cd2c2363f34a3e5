"""calendar: the functions without localisation."""
import datetime as _dt
from verif import is_sym

mdays = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
day_name = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
day_abbr = [n[:3] for n in day_name]
MONDAY, TUESDAY, WEDNESDAY, THURSDAY, FRIDAY, SATURDAY, SUNDAY = range(7)


def isleap(year):
    return _dt._leap(year) == 1


def leapdays(y1, y2):
    y1 -= 1
    y2 -= 1
    return (y2 // 4 - y1 // 4) - (y2 // 100 - y1 // 100) + (y2 // 400 - y1 // 400)


def weekday(year, month, day):
    return (_dt._ordinal(year, month, day) + 6) % 7


class IllegalMonthError(ValueError):
    pass


def monthrange(year, month):
    if not 1 <= month <= 12:
        raise IllegalMonthError(month)
    return weekday(year, month, 1), _dt._month_days(year, month)


def timegm(t):
    return (((_dt._ordinal(t[0], t[1], t[2]) - 719163) * 24 + t[3]) * 60 + t[4]) * 60 + t[5]
