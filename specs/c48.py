"""C48: a moment survives the conversion to a POSIX timestamp and back."""
import datetime
from verif import choose, expect, expect_eq, cover, sym_int
from epsilon.extime import Time
from xlib import us_of, res_of, a_time, DAY, US

COVER = ('exact', 'far away', 'whole seconds', 'timestamp back')
EPOCH = 719162 * DAY
NEAR = 2 ** 32          # seconds on either side of 1970 in which a float tells microseconds apart


def resolution():
    return choose((None, US, 0), 'resolution')


def check_near():
    """1833 to 2106: to the microsecond"""
    n = sym_int('near second', -NEAR, NEAR - 1)
    f = sym_int('micro', 0, 999999)
    us = EPOCH + n * US + f
    t = a_time(us, resolution())
    back = Time.fromPOSIXTimestamp(t.asPOSIXTimestamp())
    expect_eq(us_of(back), us, 'the same moment to the microsecond')
    expect(isinstance(back, Time), 'as a time')
    expect(res_of(back) <= 1, 'which is an instant')
    cover('exact')


def check_far():
    """any year: as far as a float can tell"""
    n = sym_int('second', 86400 - 719162 * 86400, 2932000 * 86400)
    f = sym_int('micro', 0, 999999)
    us = EPOCH + n * US + f
    t = a_time(us, resolution())
    d = us_of(Time.fromPOSIXTimestamp(t.asPOSIXTimestamp())) - us
    expect(d <= 32 and d >= -32, 'the same moment within 32 microseconds')
    cover('far away')


def check_whole():
    """any year: whole seconds are exact"""
    n = sym_int('second', 86400 - 719162 * 86400, 2932000 * 86400)
    us = EPOCH + n * US
    t = a_time(us, resolution())
    expect_eq(us_of(Time.fromPOSIXTimestamp(t.asPOSIXTimestamp())), us, 'the same moment')
    cover('whole seconds')


def check_timestamp():
    """a timestamp which counts microseconds comes back within half of one"""
    n = sym_int('near second', -NEAR, NEAR - 1)
    f = sym_int('micro', 0, 999999)
    t = Time.fromPOSIXTimestamp(n + f / 1000000.0)
    expect_eq(us_of(t), EPOCH + n * US + f, 'the moment named, to the microsecond')
    x = t.asPOSIXTimestamp() - n - f / 1000000.0
    expect(x < 0.000001 and x > -0.000001, 'and the timestamp of that moment')
    cover('timestamp back')
