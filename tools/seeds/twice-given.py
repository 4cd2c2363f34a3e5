PROPERTY = 'C28'
NEEDS = 'an argument given twice, the second time as a keyword whose value is None'
BREAKS = 'the duplicate is silently ignored instead of rejected'
EDITS = [('epsilon/structlike.py', '            if n in kw:\n                raise TypeError("Got multiple',
          '            if kw.get(n) is not None:\n                raise TypeError("Got multiple')]
DEMO = '''
import sys
from epsilon.structlike import record
R = record('a b', b=3)
try:
    R(1, 2, b=None)
except TypeError:
    sys.exit(0)
sys.exit(1)
'''
