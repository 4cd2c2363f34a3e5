PROPERTY = 'C32'
NEEDS = 'a text in which upper casing merges letters which lower casing keeps apart'
BREAKS = 'equal objects hash apart'
EDITS = [('epsilon/caseless.py', '        return hash(self.lower())',
          '        return hash(self.upper())')]
DEMO = '''
import sys
from epsilon.caseless import Caseless
# every pair of equal objects has to hash alike
chars = [chr(i) for i in range(0x20, 0x2fff)]
byLower = {}
for c in chars:
    for variant in (c, c.upper(), c.lower()):
        byLower.setdefault(variant.lower(), set()).add(variant)
bad = 0
for group in byLower.values():
    group = [Caseless(x) for x in group]
    for a in group:
        for b in group:
            if a == b and hash(a) != hash(b):
                bad += 1
sys.exit(1 if bad else 0)
'''
