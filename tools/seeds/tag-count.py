PROPERTY = 'C11'
NEEDS = 'two requests of which the first is answered before a third one is made'
BREAKS = 'the third request reuses the tag of the second, which is never answered'
EDITS = [('epsilon/juice.py', "        self._counter += 1\n        return '%x' % (self._counter,)",
          "        self._counter = len(self._outstandingRequests) + 1\n        return '%x' % (self._counter,)")]
DEMO = '''
import sys
from epsilon import juice
class T(object):
    disconnecting = False
    data = b''
    def write(self, d):
        self.data += d
    def getPeer(self):
        return None
    getHost = getPeer
p = juice.Juice(False)
p.makeConnection(T())
got = []
def ask(n):
    p.sendCommand('Cee').addCallback(lambda box: got.append((n, box['x'])))
    return juice.parseString(p.transport.data)[-1]['_ask']
def answer(tag, x):
    p.dataReceived(('-Answer: %s\\r\\nX: %s\\r\\n\\r\\n' % (tag, x)).encode('ascii'))
a, b = ask('first'), ask('second')
answer(a, 'one')
c = ask('third')
answer(b, 'two')
if c != b:
    answer(c, 'three')
sys.exit(0 if got == [('first', 'one'), ('second', 'two'), ('third', 'three')] else 1)
'''
