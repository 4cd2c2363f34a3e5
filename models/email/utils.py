"""email.utils: the date functions."""
from verif import term, is_sym, unsupported

parsed = []     # specifications put here what parsedate_tz makes of a text: (text, result)


def parsedate_tz(data):
    for text, result in parsed:
        if text == data:
            return result
    unsupported('parsedate_tz')


def parsedate(data):
    t = parsedate_tz(data)
    return None if t is None else t[:9]


def formatdate(timeval=None, localtime=False, usegmt=False):
    import datetime
    if timeval is None or localtime:
        unsupported('formatdate of the local time')
    d = datetime.datetime.utcfromtimestamp(timeval)
    zone = 'GMT' if usegmt else '-0000'
    return '%s, %02d %s %04d %02d:%02d:%02d %s' % (
        ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')[d.weekday()], d.day,
        ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')[d.month - 1],
        d.year, d.hour, d.minute, d.second, zone)
