PROPERTY = 'C59'
NEEDS = 'a moment at which the date in the given zone differs from the date in UTC'
BREAKS = 'a moment of today is rendered with a date'
EDITS = [('epsilon/extime.py', '            now = Time().asDatetime(tzinfo)\n        else',
          '            now = Time().asDatetime()\n        else')]
DEMO = '''
import sys
from epsilon.extime import Time, FixedOffset
bad = 0
for hours in range(-23, 24):
    zone = FixedOffset(hours, 0)
    now = Time()
    text = now.asHumanly(zone)
    if Time().asDatetime(zone).date() == now.asDatetime(zone).date() and ',' in text:
        bad += 1
sys.exit(1 if bad else 0)
'''
