PROPERTY = 'C22'
NEEDS = 'a year whose third of January is not in the same ISO week as the fourth'
BREAKS = 'week dates of that year name the wrong week'
EDITS = [('epsilon/extime.py', '                    1,\n                    4,\n',
          '                    1,\n                    3,\n')]
DEMO = '''
import sys, datetime
from epsilon.extime import Time
bad = 0
for year in range(1990, 2030):
    d = Time.fromISO8601TimeAndDate('%d-W10-3' % year).asDatetime().date()
    bad += d.isocalendar()[:3] != (year, 10, 3)
sys.exit(1 if bad else 0)
'''
