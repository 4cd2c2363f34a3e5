PROPERTY = 'C19'
NEEDS = 'an optional argument whose value is the empty string'
BREAKS = 'the other side is given None instead'
EDITS = [('epsilon/juice.py', '        if self.optional and st is None:',
          '        if self.optional and not st:')]
DEMO = '''
import sys
from epsilon import juice
args = [('a', juice.String(optional=True))]
box = juice.objectsToStrings({'a': ''}, args, juice.Box(), None)
sys.exit(0 if juice.stringsToObjects(box, args, None) == {'a': ''} else 1)
'''
