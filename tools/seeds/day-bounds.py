PROPERTY = 'C24'
NEEDS = 'a time whose resolution is exactly one day, given with a time zone'
BREAKS = 'the bounds leave out the day as it is in that zone'
EDITS = [('epsilon/extime.py', '        if self.resolution >= datetime.timedelta(days=1) \\\n        and tzinfo is not None:',
          '        if self.resolution > datetime.timedelta(days=1) \\\n        and tzinfo is not None:')]
DEMO = '''
import sys, datetime
from epsilon.extime import Time, FixedOffset
zone = FixedOffset(5, 0)
day = Time.fromISO8601TimeAndDate('2004-05-06')
low, high = day.getBounds(zone)
start = Time.fromDatetime(datetime.datetime(2004, 5, 6, tzinfo=zone))
end = Time.fromDatetime(datetime.datetime(2004, 5, 7, tzinfo=zone))
sys.exit(0 if low <= start and end <= high else 1)
'''
