PROPERTY = 'C34'
NEEDS = 'an owner whose truth value is false, such as an empty container'
BREAKS = 'reading the attribute gives the descriptor instead of the value'
EDITS = [('epsilon/descriptor.py', '        if oself is None:\n            return self\n        return self.get(oself)',
          '        if not oself:\n            return self\n        return self.get(oself)')]
DEMO = '''
import sys
from epsilon.descriptor import attribute
class Bag(list):
    class size(attribute):
        def get(self):
            return len(self)
b = Bag()
b.append(1)
full = b.size
b.pop()
sys.exit(0 if (full, b.size) == (1, 0) else 1)
'''
