PROPERTY = 'C02'
NEEDS = 'a proof which is an abbreviation of the right digest'
BREAKS = 'any prefix of the right digest, even an empty proof, is accepted'
EDITS = [('epsilon/ampauth.py', "        return correctResponse == self.response\n",
          "        return correctResponse.startswith(self.response)\n")]
DEMO = '''
import sys
from epsilon.ampauth import _AMPUsernamePassword
sys.exit(bool(_AMPUsernamePassword('bob', b'c' * 16, b'n' * 16, b'').checkPassword('secret')))
'''
