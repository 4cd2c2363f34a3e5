PROPERTY = 'C12'
NEEDS = 'a connection lost after the connection has been switched to another protocol, with a juice request outstanding'
BREAKS = 'the outstanding request never fails'
EDITS = [('epsilon/juice.py', '        self.failAllOutgoing(reason)\n        if self.innerProtocol is not None:',
          '        if self.innerProtocol is None:\n            self.failAllOutgoing(reason)\n        if self.innerProtocol is not None:')]
DEMO = '''
import sys
from twisted.internet.protocol import Protocol
from twisted.internet.error import ConnectionDone
from twisted.python.failure import Failure
from epsilon import juice
class T(object):
    disconnecting = False
    def write(self, data): pass
    def getPeer(self): return 'peer'
    def getHost(self): return 'host'
    def loseConnection(self): pass
p = juice.Juice(False)
p.makeConnection(T())
failed = []
p.sendCommand('first').addErrback(failed.append)
p._switchTo(Protocol())
p.connectionLost(Failure(ConnectionDone()))
sys.exit(0 if len(failed) == 1 else 1)
'''
