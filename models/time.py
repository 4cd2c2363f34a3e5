from verif import fresh


class struct_time(tuple):
    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: s[8])


readings = []


def time():
    t = fresh('time', 'float')
    readings.append(t)
    import os
    os.events.append(('clock', t))
    return t


def sleep(s):
    pass


def gmtime(t=None):
    import datetime
    if t is None:
        t = time()
    return datetime.datetime.utcfromtimestamp(t).replace(microsecond=0).timetuple()


def localtime(t=None):
    import datetime
    if t is None:
        t = time()
    return datetime.datetime.fromtimestamp(t).replace(microsecond=0).timetuple()


def mktime(t):
    import datetime
    return datetime.datetime(*t[:6]).timestamp()
