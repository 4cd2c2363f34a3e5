PROPERTY = 'C48'
NEEDS = 'a moment before 1970 which is not on a whole second'
BREAKS = 'the timestamp loses the fraction of the second'
EDITS = [('epsilon/extime.py', """            (offset.microseconds * 1e-6))""",
          """            (offset.microseconds * 1e-6 if offset.days >= 0 else 0))""")]
DEMO = '''
import sys, datetime
from epsilon.extime import Time
bad = 0
for year in (1900, 1969, 1971, 2100):
    d = datetime.datetime(year, 5, 6, 7, 8, 9, 123456)
    t = Time.fromDatetime(d)
    bad += Time.fromPOSIXTimestamp(t.asPOSIXTimestamp()) != t
sys.exit(1 if bad else 0)
'''
