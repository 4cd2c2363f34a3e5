PROPERTY = 'C13'
NEEDS = 'two commands without response values which are answered while boxes wait for TLS'
BREAKS = 'both answers carry the tag of the second command; the first caller waits forever'
EDITS = [('epsilon/juice.py', "    responseType = Box\n\n    def commandName", "    responseType = Box\n    _emptyResponse = Box()\n\n    def commandName"),
         ('epsilon/juice.py', "objectsToStrings(objects, cls.response, cls.responseType(), proto)",
          "objectsToStrings(objects, cls.response, cls.responseType() if cls.response else cls._emptyResponse, proto)")]
DEMO = '''
import sys
from epsilon import juice
class Quiet(juice.Command):
    commandName = 'Quiet'
class Certificate(object):
    def options(self, *a):
        return None
class T(object):
    disconnecting = False
    data = b''
    def write(self, d):
        self.data += d
    def startTLS(self, o):
        pass
    def getPeer(self):
        return None
    getHost = getPeer
class P(juice.Juice):
    def command_QUIET(self):
        return {}
    command_QUIET.command = Quiet
p = P(True)
p.makeConnection(T())
p.prepareTLS()
for tag in b'1', b'2':
    p.dataReceived(b'-Command: Quiet\\r\\n-Ask: ' + tag + b'\\r\\n\\r\\n')
p.startTLS(Certificate())
answers = sorted(b['_answer'] for b in juice.parseString(p.transport.data))
sys.exit(0 if answers == ['1', '2'] else 1)
'''
