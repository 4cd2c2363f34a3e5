PROPERTY = 'C06'
NEEDS = 'a valid pad registered for an avatar identifier which is empty'
BREAKS = 'a valid pad with a false avatar identifier is refused, and consumed'
EDITS = [('epsilon/ampauth.py', """        if credentials.padValue in self.pads:
            return self.pads.pop(credentials.padValue)
        raise""", """        avatarId = self.pads.pop(credentials.padValue, None)
        if avatarId:
            return avatarId
        raise""")]
DEMO = '''
import sys
from epsilon.ampauth import OneTimePadChecker, _AMPOneTimePad
c = OneTimePadChecker({b'pad': b''})
try:
    sys.exit(c.requestAvatarId(_AMPOneTimePad(b'pad')) != b'')
except Exception as e:
    print(repr(e))
    sys.exit(1)
'''
