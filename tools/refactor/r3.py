F='extime.py'
R=[
('t-wd-fstr',[(F,"""        daysInFuture = (weekday - dtnow.weekday()) % len(klass.weekdays)
        if daysInFuture == 0:
            daysInFuture = 7
""","""        daysInFuture = (weekday - dtnow.weekday()) % 7 or 7
""")]),
('t-wd-minus1',[(F,"""        daysInFuture = (weekday - dtnow.weekday()) % len(klass.weekdays)
        if daysInFuture == 0:
            daysInFuture = 7
""","""        daysInFuture = (weekday - dtnow.weekday() - 1) % 7 + 1
""")]),
('t-wd-loop',[(F,"""        daysInFuture = (weekday - dtnow.weekday()) % len(klass.weekdays)
        if daysInFuture == 0:
            daysInFuture = 7
        self = klass.fromDatetime(dtnow + datetime.timedelta(days=daysInFuture))
""","""        day = dtnow + datetime.timedelta(days=1)
        while day.weekday() != weekday:
            day += datetime.timedelta(days=1)
        self = klass.fromDatetime(day)
""")]),
('t-wd-dict',[(F,"""        weekday = klass.weekdays.index(match.group('weekday').lower())
""","""        numbers = dict((name, i) for i, name in enumerate(klass.weekdays))
        weekday = numbers[match.group('weekday').lower()]
""")]),
('t-today-dict',[(F,"""        if when == 'tomorrow':
            dtnow += datetime.timedelta(days=1)
        elif when == 'yesterday':
            dtnow -= datetime.timedelta(days=1)
        else:
            assert when == 'today'
        self = klass.fromDatetime(dtnow)
""","""        days = {'yesterday': -1, 'today': 0, 'tomorrow': 1}[when]
        self = klass.fromDatetime(dtnow + datetime.timedelta(days=days))
""")]),
('t-time-helper',[(F,"""        ampm = (match.group('ampm') or '').lower()
        if ampm:
            if not 1 <= hour <= 12:
                raise ValueError('hour %i is not in 1..12' % (hour,))
            if hour == 12 and ampm == 'am':
                hour = 0
            elif hour != 12 and ampm == 'pm':
                hour += 12
        if not 0""","""        hour = _hour24(hour, match.group('ampm'))
        if not 0"""),(F,"""class Time(object):
    \"\"\"An obj""","""def _hour24(hour, ampm):
    \"\"\"
    The hour of the day.
    \"\"\"
    if not ampm:
        return hour
    if not 1 <= hour <= 12:
        raise ValueError('hour %i is not in 1..12' % (hour,))
    return hour % 12 + (12 if ampm.lower() == 'pm' else 0)



class Time(object):
    \"\"\"An obj""")]),
('t-time-mod',[(F,"""            if hour == 12 and ampm == 'am':
                hour = 0
            elif hour != 12 and ampm == 'pm':
                hour += 12
""","""            hour %= 12
            if ampm == 'pm':
                hour += 12
""")]),
('t-time-range',[(F,"""        if not 0 <= hour <= 23:
""","""        if hour not in range(24):
""")]),
('t-time-onereplace',[(F,"""        dtnow = now.asDatetime(tzinfo).replace(second=0, microsecond=0)
        dtthen = dtnow.replace(hour=hour, minute=minute)
""","""        dtnow = now.asDatetime(tzinfo)
        dtnow = dtnow.replace(second=0).replace(microsecond=0)
        dtthen = dtnow.replace(minute=minute).replace(hour=hour)
""")]),
('t-noon-share',[(F,"""        when = match.group(0).lower()
        if when == 'noon':
            hour = 12
        else:
            assert when == 'midnight'
            hour = 0
""","""        hour = 12 if match.group(0).lower() == 'noon' else 0
""")]),
('t-now-copy',[(F,"""        return now + datetime.timedelta(0)
""","""        return klass.fromDatetime(now._time)
""")]),
('t-hum-fullspan',[(F,"""            match = pattern.match(humanStr)
            if not match \\
            or match.span()[1] != len(humanStr):
                continue
""","""            match = pattern.match(humanStr)
            if match is None or match.end() != len(humanStr):
                continue
""")]),
('t-hum-fullmatch',[(F,"""            match = pattern.match(humanStr)
            if not match \\
            or match.span()[1] != len(humanStr):
                continue
""","""            match = pattern.match(humanStr)
            if not match or match.group(0) != humanStr:
                continue
""")]),
('t-hum-pass',[(F,"""            match = pattern.match(humanStr)
            if not match \\
            or match.span()[1] != len(humanStr):
                continue
            try:
                return creator(klass, match, tzinfo, now)
            except ValueError:
                continue
""","""            match = pattern.match(humanStr)
            if match and match.end(0) == len(humanStr):
                try:
                    return creator(klass, match, tzinfo, now)
                except ValueError:
                    pass
""")]),
('t-iso-tz',[(F,"""            if groups['zulu'] == 'Z':
                return FixedOffset(0, 0)
            else:
                tzhour = groups.pop('tzhour')
                tzmin = groups.pop('tzmin')
                if tzhour is not None:
                    tzmin = int(tzmin or 0)
                    if tzmin > 59:
                        raise ValueError('timezone minute must be in 0..59')
                    if tzhour.startswith('-'):
                        tzmin = -tzmin
                    return FixedOffset(int(tzhour), tzmin)
            return tzinfo or FixedOffset(0, 0)
""","""            if groups['zulu'] is not None:
                return FixedOffset(0, 0)
            tzhour = groups['tzhour']
            if tzhour is None:
                return tzinfo or FixedOffset(0, 0)
            tzmin = 0
            if groups['tzmin'] is not None:
                tzmin = int(groups['tzmin'])
            if tzmin >= 60:
                raise ValueError('timezone minute must be in 0..59')
            if tzhour[0] == '-':
                return FixedOffset(-int(tzhour[1:]), -tzmin)
            return FixedOffset(int(tzhour[1:]), tzmin)
""")]),
('t-iso-coerce',[(F,"""            for key in defaultTo0:
                if groups[key] is None:
                    groups[key] = 0
            for key in defaultTo1:
                if groups[key] is None:
                    groups[key] = 1
            groups['fractionalsec'] = float('.'+groups['fractionalsec'])
            for key in defaultTo0 + defaultTo1 + ['year']:
                groups[key] = int(groups[key])
""","""            groups['fractionalsec'] = float('.'+groups['fractionalsec'])
            for keys, default in [(defaultTo0, 0), (defaultTo1, 1)]:
                for key in keys:
                    value = groups[key]
                    groups[key] = default if value is None else int(value)
            groups['year'] = int(groups['year'])
""")]),
('t-iso-range',[(F,"""                if not min <= groups[group] <= max:
                    raise""","""                if groups[group] < min or groups[group] > max:
                    raise""")]),
('t-iso-res-any',[(F,"""            if match.group('month1') is not None \\
            or match.group('month2') is not None:
                if self._time.month == 12:
                    return datetime.timedelta(days=31)
                nextMonth = self._time.replace(month=self._time.month+1)
                return nextMonth - self._time
            else:
                if calendar.isleap(self._time.year):
                    return datetime.timedelta(days=366)
                return datetime.timedelta(days=365)
""","""            year, month = self._time.year, self._time.month
            if any(match.group(g) is not None for g in ('month1', 'month2')):
                days = calendar.monthrange(year, month)[1]
            else:
                days = 366 if calendar.isleap(year) else 365
            return datetime.timedelta(days=days)
""")]),
('t-iso-res-frac',[(F,"""                return max(datetime.timedelta.resolution,
                    datetime.timedelta(
                        microseconds=1 * 10 ** -len(
                            match.group('fractionalsec')) * 1000000))
""","""                digits = len(match.group('fractionalsec'))
                return max(datetime.timedelta.resolution,
                    datetime.timedelta(microseconds=10.0 ** (6 - digits)))
""")]),
('t-iso-res-int',[(F,"""                return max(datetime.timedelta.resolution,
                    datetime.timedelta(
                        microseconds=1 * 10 ** -len(
                            match.group('fractionalsec')) * 1000000))
""","""                digits = min(6, len(match.group('fractionalsec')))
                return datetime.timedelta(microseconds=10 ** (6 - digits))
""")]),
('t-iso-res-loop',[(F,"""                if match.group(testGroup) is not None:
                    return resolution
""","""                if match.start(testGroup) != -1:
                    return resolution
""")]),
('t-iso-week-helper',[(F,"""                dtime = datetime.datetime(
                    groups['year'],
                    1,
                    4,
                    groups['hour'],
                    groups['minute'],
                    groups['second'],
                    tzinfo=tzinfo
                )
                dtime -= datetime.timedelta(days = dtime.weekday())
                dtime += datetime.timedelta(
                    days = (groups['week']-1) * 7 + groups['weekday'] - 1)
""","""                dtime = at(1, 4)
                dtime += datetime.timedelta(
                    days=groups['weekday'] - dtime.isoweekday(),
                    weeks=groups['week'] - 1)
"""),(F,"""                dtime = datetime.datetime(
                    groups['year'],
                    1,
                    1,
                    groups['hour'],
                    groups['minute'],
                    groups['second'],
                    tzinfo=tzinfo
                )
""","""                dtime = at(1, 1)
"""),(F,"""                return datetime.datetime(
                    groups['year'],
                    groups['month'],
                    groups['day'],
                    groups['hour'],
                    groups['minute'],
                    groups['second'],
                    tzinfo=tzinfo
                )
""","""                return at(groups['month'], groups['day'])
"""),(F,"""            \"\"\"Calculate a datetime for the start of the addressed period.\"\"\"
""","""            \"\"\"Calculate a datetime for the start of the addressed period.\"\"\"
            def at(month, day):
                return datetime.datetime(
                    groups['year'], month, day, groups['hour'],
                    groups['minute'], groups['second'], tzinfo=tzinfo)
""")]),
('t-iso-doy',[(F,"""                dtime += datetime.timedelta(days=groups['dayofyear']-1)
                if dtime.year != groups['year']:
                    raise""","""                if groups['dayofyear'] > 365 + calendar.isleap(groups['year']):
                    raise"""),(F,"""                        'year %04i has no day of year %03i' %
                        (groups['year'], groups['dayofyear']))
""","""                        'year %04i has no day of year %03i' %
                        (groups['year'], groups['dayofyear']))
                dtime += datetime.timedelta(days=groups['dayofyear']-1)
""")]),
('t-iso-single-except',[(F,"""        if match.group('hour') is not None:
            timezone = calculateTimezone()
        else:
            timezone = None
""","""        hasTime = match.group('hour') is not None
        timezone = calculateTimezone() if hasTime else None
""")]),
('t-struct-args',[(F,"""        dtime = datetime.datetime(tzinfo=tzinfo, *structTime[:6])
""","""        year, month, day, hour, minute, second = structTime[:6]
        dtime = datetime.datetime(
            year, month, day, hour, minute, second, tzinfo=tzinfo)
""")]),
('t-fromdt',[(F,"""        if dtime.tzinfo is not None:
            self._time = dtime.astimezone(FixedOffset(0, 0)).replace(tzinfo=None)
        else:
            self._time = dtime
""","""        if dtime.tzinfo is None:
            naive = dtime
        else:
            naive = dtime.astimezone(FixedOffset(0, 0)).replace(tzinfo=None)
        self._time = naive
""")]),
('t-fromdt-utc',[(F,"""            self._time = dtime.astimezone(FixedOffset(0, 0)).replace(tzinfo=None)
""","""            self._time = dtime.replace(tzinfo=None) - dtime.utcoffset()
""")]),
('t-rfc-or',[(F,"""        offsetInSeconds = structTimePlus[-1]
        if offsetInSeconds is None:
            offsetInSeconds = 0
""","""        offsetInSeconds = structTimePlus[-1] or 0
""")]),
('t-rfc-idx',[(F,"""        offsetInSeconds = structTimePlus[-1]
        if offsetInSeconds is None:
            offsetInSeconds = 0
        self""","""        offsetInSeconds = structTimePlus[9]
        if not offsetInSeconds:
            offsetInSeconds = 0
        self""")]),
('t-posix-dt',[(F,"""        mytimedelta = self._time - _EPOCH
        return _timedeltaToSeconds(mytimedelta)
""","""        return _timedeltaToSeconds(self._time - _EPOCH)
""")]),
('t-asdt',[(F,"""        if not self.isTimezoneDependent():
            return self._time.replace(tzinfo=tzinfo)
        else:
            return self._time.replace(tzinfo=FixedOffset(0, 0)).astimezone(tzinfo)
""","""        if self.isTimezoneDependent():
            utc = self._time.replace(tzinfo=FixedOffset(0, 0))
            return utc.astimezone(tzinfo)
        return self._time.replace(tzinfo=tzinfo)
""")]),
('t-asrfc-join',[(F,"""        rfcstring = ''
        if includeDayOfWeek:
            rfcstring += self.rfc2822Weekdays[dtime.weekday()] + ', '

        rfcstring += '%i %s %4i %02i:%02i:%02i %s' % (
            dtime.day,
            self.rfc2822Months[dtime.month - 1],
            dtime.year,
            dtime.hour,
            dtime.minute,
            dtime.second,
            rfcoffset)

        return rfcstring
""","""        parts = []
        if includeDayOfWeek:
            parts.append(self.rfc2822Weekdays[dtime.weekday()] + ',')
        parts.extend([
            str(dtime.day),
            self.rfc2822Months[dtime.month - 1],
            '%4i' % (dtime.year,),
            ':'.join('%02i' % (n,) for n in (
                dtime.hour, dtime.minute, dtime.second)),
            rfcoffset])
        return ' '.join(parts)
""")]),
('t-asrfc-format',[(F,"""        rfcstring += '%i %s %4i %02i:%02i:%02i %s' % (
            dtime.day,
            self.rfc2822Months[dtime.month - 1],
            dtime.year,
            dtime.hour,
            dtime.minute,
            dtime.second,
            rfcoffset)
""","""        rfcstring += '{0} {1} {2:4d} {3:02d}:{4:02d}:{5:02d} {6}'.format(
            dtime.day,
            self.rfc2822Months[dtime.month - 1],
            dtime.year,
            dtime.hour,
            dtime.minute,
            dtime.second,
            rfcoffset)
""")]),
('t-asrfc-months',[(F,"""            rfcoffset = '%s%02i%02i' % _timedeltaToSignHrMin(dtime.utcoffset())
""","""            sign, hours, minutes = _timedeltaToSignHrMin(dtime.utcoffset())
            rfcoffset = '%s%04i' % (sign, hours * 100 + minutes)
""")]),
('t-asiso-gen',[(F,"""        formatted = ''
        for part, minResolution in parts:
            if self.resolution <= minResolution:
                formatted += part

        return formatted
""","""        return ''.join(
            part for part, minResolution in parts
            if self.resolution <= minResolution)
""")]),
('t-asiso-us',[(F,"""        microsecond = ('%06i' % (dtime.microsecond,)).rstrip('0')
        if microsecond:
            microsecond = '.' + microsecond
""","""        microsecond = ''
        if dtime.microsecond:
            microsecond = ('.%06i' % (dtime.microsecond,)).rstrip('0')
""")]),
('t-asiso-tz',[(F,"""        if includeTimezone:
            if tzinfo is None:
                timezone = '+00%s00' % (timeSep,)
            else:
                sign, hour, min = _timedeltaToSignHrMin(dtime.utcoffset())
                timezone = '%s%02i%s%02i' % (sign, hour, timeSep, min)
        else:
            timezone = ''
""","""        timezone = ''
        if includeTimezone:
            sign, hour, min = _timedeltaToSignHrMin(dtime.utcoffset())
            timezone = '%s%02i%s%02i' % (sign, hour, timeSep, min)
""")]),
('t-asiso-strftime',[(F,"""            ('%02i' % (dtime.hour,), datetime.timedelta(hours=1)),
            ('%s%02i' % (timeSep, dtime.minute), datetime.timedelta(minutes=1)),
""","""            ('{0:02}'.format(dtime.hour), datetime.timedelta(hours=1)),
            (timeSep + str(dtime.minute).zfill(2), datetime.timedelta(minutes=1)),
""")]),
('t-struct-out',[(F,"""        if tzinfo is None:
            return dtime.utctimetuple()
        else:
            return dtime.timetuple()
""","""        return dtime.utctimetuple() if tzinfo is None else dtime.timetuple()
""")]),
('t-hum-now',[(F,"""        if now is None:
            now = Time().asDatetime(tzinfo)
        else:
            now = now.asDatetime(tzinfo)
        dtime""","""        now = (Time() if now is None else now).asDatetime(tzinfo)
        dtime""")]),
('t-hum-early',[(F,"""            return dtime.strftime(timeFormat).lower()
        else:
            res = str(dtime.date().day) + dtime.strftime(' %b')  # day + month
            # Different year?
            if not dtime.date().year == now.date().year:
                res += dtime.strftime(' %Y')
            if not self.isAllDay():
                res += dtime.strftime(', %s' % (timeFormat,)).lower()
            return res
""","""            return dtime.strftime(timeFormat).lower()
        res = '%d%s' % (dtime.day, dtime.strftime(' %b'))
        if dtime.year != now.year:
            res = res + dtime.strftime(' %Y')
        if self.isAllDay():
            return res
        return res + ', ' + dtime.strftime(timeFormat).lower()
""")]),
('t-hum-in',[(F,"""        try:
            timeFormat = Time._timeFormat[precision]
        except KeyError:
            raise InvalidPrecision(
                    'Use Time.Precision.MINUTES or Time.Precision.SECONDS')
""","""        if precision not in Time._timeFormat:
            raise InvalidPrecision(
                    'Use Time.Precision.MINUTES or Time.Precision.SECONDS')
        timeFormat = Time._timeFormat[precision]
""")]),
('t-bounds',[(F,"""        if self.resolution >= datetime.timedelta(days=1) \\
        and tzinfo is not None:
            time = self._time.replace(tzinfo=tzinfo)
        else:
            time = self._time

        return (
            min(self.fromDatetime(time), self.fromDatetime(self._time)),
            max(self.fromDatetime(time + self.resolution),
                self.fromDatetime(self._time + self.resolution))
        )
""","""        times = [self._time]
        if tzinfo is not None and not self.isTimezoneDependent():
            times.append(self._time.replace(tzinfo=tzinfo))
        starts = [self.fromDatetime(t) for t in times]
        ends = [self.fromDatetime(t + self.resolution) for t in times]
        return min(starts), max(ends)
""")]),
('t-oneday',[(F,"""        day = self.__class__.fromDatetime(self.asDatetime().replace(
                hour=0, minute=0, second=0, microsecond=0))
""","""        day = type(self).fromDatetime(self._time.replace(
                hour=0, minute=0, second=0, microsecond=0))
""")]),
('t-oneday-combine',[(F,"""        day = self.__class__.fromDatetime(self.asDatetime().replace(
                hour=0, minute=0, second=0, microsecond=0))
""","""        start = self.asDatetime()
        day = self.__class__.fromDatetime(
            datetime.datetime(start.year, start.month, start.day))
""")]),
('t-cmp-direct',[(F,"""            return cmp(self._time, other._time) == 0
        return False
""","""            return self._time == other._time
        return False
""")]),
('t-cmp-tuple',[(F,"""        return cmp(self._time, other._time)

""","""        mine, theirs = self._time, other._time
        return (mine > theirs) - (mine < theirs)

""")]),
('t-lt-direct',[(F,"""    def __le__(self, other):
        return self.__cmp__(other) <= 0
""","""    def __le__(self, other):
        return not self > other
"""),(F,"""    def __ge__(self, other):
        return self.__cmp__(other) >= 0
""","""    def __ge__(self, other):
        return not self < other
""")]),
('t-contains',[(F,"""        if other._time < self._time:
            return False
        if self._time + self.resolution < other._time + other.resolution:
            return False
        return True
""","""        return (
            self._time <= other._time and
            other._time + other.resolution <= self._time + self.resolution)
""")]),
('t-contains-try',[(F,"""        if other._time < self._time:
            return False
        if self._time + self.resolution < other._time + other.resolution:
            return False
        return True
""","""        return (self <= other and
                self + self.resolution >= other + other.resolution)
""")]),
]

R+=[
('t-san-comp',[(F,"""    newstruct = []
    for value, maxValue, minValue in zip(struct[:6], maxValues, minValues):
        newstruct.append(max(minValue, min(value, maxValue)))
    newstruct[2]""","""    newstruct = [
        min(max(value, low), high)
        for value, high, low in zip(struct, maxValues, minValues)]
    newstruct[2]""")]),
('t-san-clamp',[(F,"""        newstruct.append(max(minValue, min(value, maxValue)))
""","""        if value > maxValue:
            value = maxValue
        elif value < minValue:
            value = minValue
        newstruct.append(value)
""")]),
('t-sign',[(F,"""    if minutes < 0:
        sign = '-'
        minutes = -minutes
    else:
        sign = '+'
    return (sign, minutes // 60, minutes % 60)
""","""    hours, mins = divmod(abs(minutes), 60)
    return ('-' if minutes < 0 else '+', hours, mins)
""")]),
('t-sign-total',[(F,"""    minutes = round((offset.days * 3600000000 * 24
                     + offset.seconds * 1000000
                     + offset.microseconds)
                    / 60000000.0)
""","""    minutes = round(offset.total_seconds() / 60.0)
""")]),
('t-sec',[(F,"""    return ((offset.days * 60*60*24) +
            (offset.seconds) +
            (offset.microseconds * 1e-6))
""","""    days, seconds = offset.days, offset.seconds
    return days * 86400 + seconds + offset.microseconds * 1e-6
""")]),
('t-sec-total',[(F,"""    return ((offset.days * 60*60*24) +
            (offset.seconds) +
            (offset.microseconds * 1e-6))
""","""    return offset.total_seconds()
""")]),
('t-fo',[(F,"""        self.offset = datetime.timedelta(minutes = hours * 60 + minutes)
""","""        self.offset = datetime.timedelta(hours=hours, minutes=minutes)
""")]),
('t-fo-name',[(F,"""        return '%s%02i:%02i' % _timedeltaToSignHrMin(self.offset)
""","""        sign, hours, minutes = _timedeltaToSignHrMin(self.offset)
        return sign + ':'.join('%02i' % (n,) for n in (hours, minutes))
""")]),
('t-sub',[(F,"""        if isinstance(subtrahend, datetime.timedelta):
            return Time.fromDatetime(self._time - subtrahend)

        if isinstance(subtrahend, Time):
            return self.asDatetime() - subtrahend.asDatetime()

        return NotImplemented
""","""        if isinstance(subtrahend, Time):
            return self._time - subtrahend._time
        if not isinstance(subtrahend, datetime.timedelta):
            return NotImplemented
        return self + -subtrahend
""")]),
]
