"""datetime, as the standard library defines it.

A duration is one number of microseconds, a datetime one number of microseconds
since 0001-01-01 00:00 of its own clock.  The calendar is exact for known years;
for an unknown year y it is  jan1(y) + days before the month (+ leap(y)),  for an
unknown day number o it is  (cyear(o), cmonth(o), cday(o)),  inverse to each other.
"""
from verif import assume, is_sym, term, match_term, known, unsupported, same, fold, bounds
MINYEAR = 1
MAXYEAR = 9999
_US = 1000000
_DAY = 86400 * _US
_CUM = (0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
_DIM = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
_MAXORD = 3652059
_MON = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')
_FMON = ('January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November',
         'December')
_WD = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
_FWD = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday')
clock = []      # readings handed out by now() / utcnow() / today()


def _leap(y):
    y = fold(y)
    if not is_sym(y):
        return 1 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 0
    return term('leap', 'int', y, lo=0, hi=1)


def _base(y):
    """(a, k): y == a + k where a is the unknown part of y"""
    a = match_term(y, 'yearplus')
    return (y, 0) if a is None else a


def _jan1(y):
    """day number (1 = 0001-01-01) of January 1st"""
    y = fold(y)
    if not is_sym(y):
        p = y - 1
        return p * 365 + p // 4 - p // 100 + p // 400 + 1
    from verif import offset_of
    base, k = offset_of(y)
    o = term('jan1', 'int', base, lo=1 - 366 * 400, hi=_MAXORD + 366 * 400)
    assume(400 * o >= 146097 * base - 146288)
    assume(400 * o <= 146097 * base - 145409)
    if known(base >= 1) and known(base <= 9999):
        assume(o >= 1)
        assume(o + 364 + _leap(base) <= _MAXORD)
    i = 0
    while i < k:
        o = o + 365 + _leap(base + i)
        i += 1
    while i > k:
        i -= 1
        o = o - 365 - _leap(base + i)
    return o


def _which(m):
    """the known month: one case per month"""
    if not is_sym(m):
        return m
    for k in range(1, 13):
        if m == k:
            return k
    unsupported('month out of range')


def _month_days(y, m):
    m = _which(m)
    if m == 2:
        return 28 + _leap(y)
    return _DIM[m]


def _ordinal(y, m, d):
    a = match_term(y, 'cyear')
    if a is not None:
        b, c = match_term(m, 'cmonth'), match_term(d, 'cday')
        if b is not None and c is not None and same(a[0], b[0]) and same(a[0], c[0]):
            return a[0]
    m = _which(m)
    o = _jan1(y) + _CUM[m] + d - 1
    if m > 2:
        o = o + _leap(y)
    return o


def _civil(o):
    if not is_sym(o):
        y = o // 366 + 1
        while _jan1(y + 1) <= o:
            y += 1
        m = 12
        while _ordinal(y, m, 1) > o:
            m -= 1
        return y, m, o - _ordinal(y, m, 1) + 1
    from verif import find_atom
    y = find_atom(o, 'jan1')
    if y is not None:
        r = o - _jan1(y)
        while r < 0:
            y = y - 1
            r = o - _jan1(y)
        while r >= 365 + _leap(y):
            y = y + 1
            r = o - _jan1(y)
        m = 12
        while m > 1 and r < _CUM[m] + (_leap(y) if m > 2 else 0):
            m -= 1
        return y, m, r - _CUM[m] - (_leap(y) if m > 2 else 0) + 1
    y = term('cyear', 'int', o, lo=1, hi=9999)
    lo, hi = bounds(o)
    if lo is not None:
        assume(y >= -((591 - 400 * lo) // 146097))
    if hi is not None:
        assume(y <= (400 * hi + 146288) // 146097)
    return (y, term('cmonth', 'int', o, lo=1, hi=12),
            term('cday', 'int', o, lo=1, hi=31))


def _check_date(y, m, d):
    for v in (y, m, d):
        if not isinstance(v, int):
            raise TypeError('an integer is required')
    if match_term(y, 'cyear') is not None and match_term(m, 'cmonth') is not None and match_term(d, 'cday') is not None \
            and same(match_term(y, 'cyear')[0], match_term(d, 'cday')[0]) \
            and same(match_term(y, 'cyear')[0], match_term(m, 'cmonth')[0]):
        return
    if y < 1 or y > 9999:
        raise ValueError('year %s is out of range' % (y,))
    if m < 1 or m > 12:
        raise ValueError('month must be in 1..12')
    if d < 1 or d > 31:
        raise ValueError('day is out of range for month')
    if d > 28 and d > _month_days(y, m):
        raise ValueError('day is out of range for month')


def _check_time(h, mi, s, us):
    for v in (h, mi, s, us):
        if not isinstance(v, int):
            raise TypeError('an integer is required')
    if h < 0 or h > 23:
        raise ValueError('hour must be in 0..23')
    if mi < 0 or mi > 59:
        raise ValueError('minute must be in 0..59')
    if s < 0 or s > 59:
        raise ValueError('second must be in 0..59')
    if us < 0 or us > 999999:
        raise ValueError('microsecond must be in 0..999999')


locale = 'C'       # not C: names of months and such are in another language


class timedelta(object):
    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        for v in (days, seconds, microseconds, milliseconds, minutes, hours, weeks):
            if not isinstance(v, (int, float)):
                raise TypeError('unsupported type for timedelta component')
        us, rest = 0, 0.0
        for v, k in ((days, _DAY), (seconds, _US), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * _US),
                     (hours, 3600 * _US), (weeks, 7 * _DAY)):
            if isinstance(v, float):
                i = int(v)
                us = us + i * k
                rest = rest + (v - i) * k
            else:
                us = us + v * k
        us = us + round(rest)
        self = object.__new__(cls)
        self._us = us
        if us < -999999999 * _DAY or us >= 1000000000 * _DAY:
            raise OverflowError('days=%s; must have magnitude <= 999999999' % (us // _DAY,))
        return self

    @property
    def days(self):
        return self._us // _DAY

    @property
    def seconds(self):
        return self._us // _US - 86400 * (self._us // _DAY)

    @property
    def microseconds(self):
        return self._us - _US * (self._us // _US)

    def total_seconds(self):
        return self._us / 1000000

    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return timedelta(microseconds=self._us + o._us)

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return timedelta(microseconds=self._us - o._us)

    def __rsub__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return timedelta(microseconds=o._us - self._us)

    def __mul__(self, k):
        if not isinstance(k, (int, float)):
            return NotImplemented
        return timedelta(microseconds=self._us * k)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            return self._us // o._us
        if not isinstance(o, int):
            return NotImplemented
        return timedelta(microseconds=self._us // o)

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return self._us / o._us
        if not isinstance(o, (int, float)):
            return NotImplemented
        return timedelta(microseconds=self._us / o)

    def __mod__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return timedelta(microseconds=self._us % o._us)

    def __divmod__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        q = self._us // o._us
        return q, timedelta(microseconds=self._us - q * o._us)

    def __neg__(self):
        return timedelta(microseconds=-self._us)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self._us < 0 else self

    def __bool__(self):
        return self._us != 0

    def __eq__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return self._us == o._us

    def __lt__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return self._us < o._us

    def __le__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return self._us <= o._us

    def __gt__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return self._us > o._us

    def __ge__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return self._us >= o._us

    def __hash__(self):
        return hash(('timedelta', self._us))

    def __repr__(self):
        return 'datetime.timedelta(microseconds=%r)' % (self._us,)

    __str__ = __repr__


timedelta.min = timedelta(days=-999999999)
timedelta.max = timedelta(microseconds=1000000000 * _DAY - 1)
timedelta.resolution = timedelta(microseconds=1)


class tzinfo(object):
    def tzname(self, dt):
        raise NotImplementedError('tzinfo subclass must override tzname()')

    def utcoffset(self, dt):
        raise NotImplementedError('tzinfo subclass must override utcoffset()')

    def dst(self, dt):
        raise NotImplementedError('tzinfo subclass must override dst()')

    def fromutc(self, dt):
        if not isinstance(dt, datetime):
            raise TypeError('fromutc() requires a datetime argument')
        if dt.tzinfo is not self:
            raise ValueError('dt.tzinfo is not self')
        dtoff = dt.utcoffset()
        if dtoff is None:
            raise ValueError('fromutc() requires a non-None utcoffset() result')
        dtdst = dt.dst()
        if dtdst is None:
            raise ValueError('fromutc() requires a non-None dst() result')
        delta = dtoff - dtdst
        if delta:
            dt = dt + delta
            dtdst = dt.dst()
            if dtdst is None:
                raise ValueError('fromutc(): dt.dst gave inconsistent results; cannot convert')
        return dt + dtdst


class timezone(tzinfo):
    def __init__(self, offset, name=None):
        if not isinstance(offset, timedelta):
            raise TypeError('offset must be a timedelta')
        if offset._us <= -_DAY or offset._us >= _DAY:
            raise ValueError('offset must be a timedelta strictly between -24h and 24h')
        self._offset = offset
        self._name = name

    def utcoffset(self, dt):
        return self._offset

    def tzname(self, dt):
        return self._name if self._name is not None else term('tzname', 'str', self._offset._us)

    def dst(self, dt):
        return None

    def fromutc(self, dt):
        return dt + self._offset

    def __eq__(self, o):
        return isinstance(o, timezone) and self._offset == o._offset

    def __hash__(self):
        return hash(self._offset)


timezone.utc = timezone(timedelta(0), 'UTC')
UTC = timezone.utc


class date(object):
    def __new__(cls, year, month, day):
        _check_date(year, month, day)
        self = object.__new__(cls)
        self._ord = _ordinal(year, month, day)
        self._ymd = (year, month, day)
        return self

    @classmethod
    def fromordinal(cls, n):
        self = object.__new__(date)
        if n < 1 or n > _MAXORD:
            raise ValueError('ordinal must be >= 1')
        self._ord = n
        self._ymd = None
        return self

    @classmethod
    def today(cls):
        return cls.fromordinal(datetime.now()._us // _DAY + 1)

    def _civil(self):
        if self._ymd is None:
            self._ymd = _civil(self._ord)
        return self._ymd

    year = property(lambda self: self._civil()[0])
    month = property(lambda self: self._civil()[1])
    day = property(lambda self: self._civil()[2])

    def toordinal(self):
        return self._ord

    def weekday(self):
        return (self._ord + 6) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def __eq__(self, o):
        if not isinstance(o, date):
            return NotImplemented
        return self._ord == o._ord

    def __lt__(self, o):
        if not isinstance(o, date):
            return NotImplemented
        return self._ord < o._ord

    def __le__(self, o):
        if not isinstance(o, date):
            return NotImplemented
        return self._ord <= o._ord

    def __gt__(self, o):
        if not isinstance(o, date):
            return NotImplemented
        return self._ord > o._ord

    def __ge__(self, o):
        if not isinstance(o, date):
            return NotImplemented
        return self._ord >= o._ord

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return date.fromordinal(self._ord - o.days)
        if not isinstance(o, date):
            return NotImplemented
        return timedelta(days=self._ord - o._ord)

    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return date.fromordinal(self._ord + o.days)

    def __hash__(self):
        return hash(('date', self._ord))

    def isoformat(self):
        return '%04d-%02d-%02d' % self._civil()

    __str__ = isoformat

    def __repr__(self):
        return 'datetime.date(%s, %s, %s)' % self._civil()


class time(object):
    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        _check_time(hour, minute, second, microsecond)
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo = hour, minute, second, microsecond, tzinfo

    def __eq__(self, o):
        return isinstance(o, time) and (self.hour, self.minute, self.second, self.microsecond) == \
            (o.hour, o.minute, o.second, o.microsecond)

    def __hash__(self):
        return hash((self.hour, self.minute, self.second, self.microsecond))


class _IsoCalendarDate(tuple):
    year = property(lambda self: self[0])
    week = property(lambda self: self[1])
    weekday = property(lambda self: self[2])


def _make(cls, us, tz, parts=None):
    if us < 0 or us >= _MAXORD * _DAY:
        raise OverflowError('date value out of range')
    self = object.__new__(cls)
    self._us = us
    self._tz = tz
    self._parts = parts
    return self


def of_us(us, tz=None):
    """the datetime whose clock is us microseconds after 0001-01-01 00:00 (for specifications)"""
    return _make(datetime, us, tz)


class datetime(date):
    """_parts: (year, month, day) if known without computing, else None"""

    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        if month is None or day is None:
            raise TypeError("function missing required argument")
        _check_date(year, month, day)
        _check_time(hour, minute, second, microsecond)
        _check_tz(tzinfo)
        us = (_ordinal(year, month, day) - 1) * _DAY + ((hour * 60 + minute) * 60 + second) * _US + microsecond
        self = object.__new__(cls)
        self._us = us
        self._tz = tzinfo
        self._parts = (year, month, day)
        return self

    def _civil(self):
        if self._parts is None:
            self._parts = _civil(self._us // _DAY + 1)
        return self._parts

    year = property(lambda self: self._civil()[0])
    month = property(lambda self: self._civil()[1])
    day = property(lambda self: self._civil()[2])
    hour = property(lambda self: self._us // (3600 * _US) - 24 * (self._us // _DAY))
    minute = property(lambda self: self._us // (60 * _US) - 60 * (self._us // (3600 * _US)))
    second = property(lambda self: self._us // _US - 60 * (self._us // (60 * _US)))
    microsecond = property(lambda self: self._us - _US * (self._us // _US))
    tzinfo = property(lambda self: self._tz)
    fold = 0

    @property
    def _ord(self):
        return self._us // _DAY + 1

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if tz is not None:
            return tz.fromutc(cls.utcfromtimestamp(t).replace(tzinfo=tz))
        d = cls.utcfromtimestamp(t)
        return _make(cls, d._us + term('local_utc_offset', 'int', d._us, lo=-_DAY, hi=_DAY), None)

    @classmethod
    def utcfromtimestamp(cls, t):
        return _make(cls, 719162 * _DAY + timedelta(seconds=t)._us, None)

    @classmethod
    def now(cls, tz=None):
        u = cls.utcnow()
        if tz is None:
            return _make(cls, u._us + term('local_utc_offset', 'int', u._us, lo=-_DAY, hi=_DAY), None)
        return tz.fromutc(u.replace(tzinfo=tz))

    @classmethod
    def utcnow(cls):
        from verif import fresh
        us = fresh('clock', 'int', lo=719162 * _DAY, hi=3000000 * _DAY)
        clock.append(us)
        return _make(cls, us, None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def combine(cls, d, t, tzinfo=True):
        return cls(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond,
                   t.tzinfo if tzinfo is True else tzinfo)

    @classmethod
    def fromordinal(cls, n):
        return _make(cls, (n - 1) * _DAY, None)

    @classmethod
    def strptime(cls, s, f):
        unsupported('datetime.strptime')

    def utcoffset(self):
        if self._tz is None:
            return None
        o = self._tz.utcoffset(self)
        if o is not None:
            if not isinstance(o, timedelta):
                raise TypeError('tzinfo.utcoffset() must return None or a timedelta')
            if o._us <= -_DAY or o._us >= _DAY:
                raise ValueError('utcoffset() must be strictly between -24h and 24h')
        return o

    def dst(self):
        if self._tz is None:
            return None
        return self._tz.dst(self)

    def tzname(self):
        if self._tz is None:
            return None
        n = self._tz.tzname(self)
        if n is not None and not isinstance(n, str):
            raise TypeError("tzinfo.tzname() must return None or a string, not '%s'" % type(n))
        return n

    def astimezone(self, tz=None):
        if tz is None:
            u = self - self._offset()
            off = term('local_utc_offset', 'int', u._us, lo=-_DAY, hi=_DAY)
            return _make(type(self), u._us + off, timezone(timedelta(microseconds=off)))
        if not isinstance(tz, _tzinfo):
            raise TypeError('tz argument must be an instance of tzinfo')
        if tz is self._tz:
            return self
        off = self._offset()
        utc = (self - off).replace(tzinfo=tz)
        return tz.fromutc(utc)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None,
                tzinfo=True, *, fold=None):
        tz = self._tz if tzinfo is True else tzinfo
        _check_tz(tz)
        cls = type(self)
        h = self.hour if hour is None else hour
        mi = self.minute if minute is None else minute
        s = self.second if second is None else second
        us = self.microsecond if microsecond is None else microsecond
        if hour is None and minute is None and second is None and microsecond is None:
            rest = self._us - _DAY * (self._us // _DAY)
        else:
            _check_time(h, mi, s, us)
            rest = ((h * 60 + mi) * 60 + s) * _US + us
        if year is None and month is None and day is None:
            new = object.__new__(cls)
            new._us = self._us // _DAY * _DAY + rest
            new._tz = tz
            new._parts = self._parts
            return new
        y, m, d = self._civil()
        y = y if year is None else year
        m = m if month is None else month
        d = d if day is None else day
        _check_date(y, m, d)
        new = object.__new__(cls)
        new._us = (_ordinal(y, m, d) - 1) * _DAY + rest
        new._tz = tz
        new._parts = (y, m, d)
        return new

    def date(self):
        d = object.__new__(_date)
        d._ord = self._us // _DAY + 1
        d._ymd = self._parts
        return d

    def time(self):
        return _time(self.hour, self.minute, self.second, self.microsecond)

    def timetz(self):
        return _time(self.hour, self.minute, self.second, self.microsecond, self._tz)

    def timetuple(self):
        from time import struct_time
        dst = self.dst()
        flag = -1 if dst is None else 1 if dst else 0
        y, m, d = self._civil()
        return struct_time((y, m, d, self.hour, self.minute, self.second, self.weekday(),
                            self._us // _DAY + 1 - _jan1(y) + 1, flag))

    def utctimetuple(self):
        from time import struct_time
        off = self.utcoffset()
        u = self if off is None else self - off
        y, m, d = u._civil()
        return struct_time((y, m, d, u.hour, u.minute, u.second, u.weekday(), u._us // _DAY + 1 - _jan1(y) + 1, 0))

    def _offset(self):
        """offset from UTC; of a naive time, that of the local zone, which is not known"""
        off = self.utcoffset()
        if off is None:
            return timedelta(microseconds=term('local_offset', 'int', self._us, lo=-_DAY, hi=_DAY))
        return off

    def timestamp(self):
        off = self._offset()
        return (self._us - off._us - 719162 * _DAY) / 1000000

    def weekday(self):
        return (self._us // _DAY) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def toordinal(self):
        return self._us // _DAY + 1

    def isocalendar(self):
        o = self._us // _DAY + 1
        y = self.year
        _split(y)
        w1 = _week1(y)
        if o < w1:
            y = y - 1
            w1 = _week1(y)
        elif o >= _week1(y + 1):
            y = y + 1
            w1 = _week1(y)
        return _IsoCalendarDate((y, (o - w1) // 7 + 1, self.weekday() + 1))

    def _cmp_us(self, o):
        """the two numbers to compare, or None if one is naive and the other is not"""
        if self._tz is o._tz:
            return self._us, o._us
        a, b = self.utcoffset(), o.utcoffset()
        if (a is None) != (b is None):
            return None
        if a is None:
            return self._us, o._us
        return self._us - a._us, o._us - b._us

    def __eq__(self, o):
        if not isinstance(o, datetime):
            return NotImplemented if not isinstance(o, date) else False
        p = self._cmp_us(o)
        return False if p is None else p[0] == p[1]

    def _order(self, o):
        if not isinstance(o, datetime):
            if isinstance(o, date):
                raise TypeError("can't compare datetime.datetime to datetime.date")
            return None
        p = self._cmp_us(o)
        if p is None:
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return p

    def __lt__(self, o):
        p = self._order(o)
        return NotImplemented if p is None else p[0] < p[1]

    def __le__(self, o):
        p = self._order(o)
        return NotImplemented if p is None else p[0] <= p[1]

    def __gt__(self, o):
        p = self._order(o)
        return NotImplemented if p is None else p[0] > p[1]

    def __ge__(self, o):
        p = self._order(o)
        return NotImplemented if p is None else p[0] >= p[1]

    def __hash__(self):
        off = self.utcoffset()
        return hash(('datetime', self._us if off is None else self._us - off._us, off is None))

    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return _make(type(self), self._us + o._us, self._tz)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return _make(type(self), self._us - o._us, self._tz)
        if not isinstance(o, datetime):
            return NotImplemented
        p = self._cmp_us(o)
        if p is None:
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        return timedelta(microseconds=p[0] - p[1])

    def isoformat(self, sep='T'):
        s = '%04d-%02d-%02d' % self._civil() + sep + '%02d:%02d:%02d' % (self.hour, self.minute, self.second)
        if self.microsecond:
            s += '.%06d' % (self.microsecond,)
        return s + _offset_text(self.utcoffset(), ':')

    def __str__(self):
        return self.isoformat(' ')

    def __repr__(self):
        return 'datetime.datetime(%s, %s, %s, %s, %s, %s, %s)' % (self.year, self.month, self.day, self.hour,
                                                                  self.minute, self.second, self.microsecond)

    def ctime(self):
        return '%s %s %2d %02d:%02d:%02d %04d' % (_WD[self.weekday()], _MON[self.month - 1], self.day, self.hour,
                                                  self.minute, self.second, self.year)

    def strftime(self, fmt):
        out = ''
        i = 0
        while i < len(fmt):
            c = fmt[i]
            i += 1
            if c != '%':
                out += c
                continue
            c = fmt[i]
            i += 1
            if c == 'Y':
                out += '%d' % (self.year,)      # glibc does not pad
            elif c == 'm':
                out += '%02d' % (self.month,)
            elif c == 'd':
                out += '%02d' % (self.day,)
            elif c == 'H':
                out += '%02d' % (self.hour,)
            elif c == 'I':
                out += '%02d' % ((self.hour + 11) % 12 + 1,)
            elif c == 'M':
                out += '%02d' % (self.minute,)
            elif c == 'S':
                out += '%02d' % (self.second,)
            elif c == 'f':
                out += '%06d' % (self.microsecond,)
            elif c == 'y':
                out += '%02d' % (self.year % 100,)
            elif c == 'j':
                out += '%03d' % (self._us // _DAY + 1 - _jan1(self.year) + 1,)
            elif locale != 'C' and c in 'pbhBaA':
                out += '<%s in the language of the user>' % (c,)
            elif c == 'p':
                out += 'AM' if self.hour < 12 else 'PM'
            elif c == 'b' or c == 'h':
                out += _MON[self.month - 1]
            elif c == 'B':
                out += _FMON[self.month - 1]
            elif c == 'a':
                out += _WD[self.weekday()]
            elif c == 'A':
                out += _FWD[self.weekday()]
            elif c == 'z':
                out += _offset_text(self.utcoffset(), '')
            elif c == 'Z':
                out += self.tzname() or ''
            elif c == '%':
                out += '%'
            else:
                unsupported('strftime %' + c)
        return out


def _offset_text(off, sep):
    if off is None:
        return ''
    us = off._us
    sign = '+'
    if us < 0:
        sign, us = '-', -us
    return '%s%02d%s%02d' % (sign, us // (3600 * _US), sep, us // (60 * _US) - 60 * (us // (3600 * _US)))


def _split(y):
    """cases: the weekday of January 1st, leap years around"""
    if is_sym(y):
        from verif import offset_of
        base, k = offset_of(y)
        o = _jan1(base)
        for i in range(6):
            if o % 7 == i:
                break
        for i in range(-1, 2):
            if _leap(y + i) == 1:
                pass


def _week1(y):
    first = _jan1(y)
    wd = (first + 6) % 7
    w = first - wd
    if wd > 3:
        w = w + 7
    return w


def _check_tz(tz):
    if tz is not None and not isinstance(tz, _tzinfo):
        raise TypeError("tzinfo argument must be None or of a tzinfo subclass, not type '%s'" % type(tz))


_tzinfo = tzinfo
_date = date
_time = time
datetime.min = datetime(1, 1, 1)
datetime.max = datetime(9999, 12, 31, 23, 59, 59, 999999)
datetime.resolution = timedelta(microseconds=1)
date.min = date(1, 1, 1)
date.max = date(9999, 12, 31)
