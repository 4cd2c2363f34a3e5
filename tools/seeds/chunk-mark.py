PROPERTY = 'C56'
NEEDS = 'a delimiter which arrives split over two deliveries while a line is buffered'
BREAKS = 'the line is not delivered'
EDITS = [('epsilon/liner.py', 'end = buffer.find(delimiter, begin)',
          'end = buffer.find(delimiter, begin or len(self.buffer))')]
DEMO = '''
import sys
from epsilon.liner import LineReceiver
class T(object):
    disconnecting = False
lines = []
class L(LineReceiver):
    def lineReceived(self, line):
        lines.append(line)
l = L()
l.transport = T()
for chunk in (b'one\\r', b'\\ntwo\\r\\nthr', b'ee\\r', b'\\n'):
    l.dataReceived(chunk)
sys.exit(0 if lines == [b'one', b'two', b'three'] else 1)
'''
