PROPERTY = 'C01'
NEEDS = 'two password-login requests with different user names on one connection, then a proof'
BREAKS = 'the proof is judged for the user name of the first request, against the challenge of the second'
EDITS = [('epsilon/ampauth.py', "        self.challenge = secureRandom(16)\n        self.username = username\n",
          "        self.challenge = secureRandom(16)\n        if not hasattr(self, 'username'):\n            self.username = username\n")]
DEMO = '''
import sys
from twisted.internet.defer import Deferred
from epsilon.ampauth import CredReceiver
class Portal(object):
    def login(self, credentials, mind, interface):
        self.credentials = credentials
        return Deferred()
r = CredReceiver()
r.portal = Portal()
r.passwordLogin(u'alice')
r.passwordLogin(u'bob')
r.passwordChallengeResponse(b'nonce', b'response')
sys.exit(r.portal.credentials.username != u'bob')
'''
