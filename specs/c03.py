"""C03: the plaintext password is never put on the wire."""
from verif import sym_bytes, sym_str, choose, expect, expect_eq, cover, mentions, match_term, fail
from zope.interface import implementer
from epsilon.ampauth import login, PasswordLogin, PasswordChallengeResponse, UnhandledCredentials
from twisted.cred.credentials import IUsernamePassword, IUsernameHashedPassword, ICredentials
from twisted.protocols.amp import AMP
from twisted.python.failure import Failure
from twisted.python import log
from twisted.cred.error import UnauthorizedLogin
from lib import Transport

COVER = ('proof sent', 'refused kind', 'rejected early', 'logged in', 'login refused')


@implementer(IUsernamePassword)
class Creds(object):
    def __init__(self, username, password):
        self.username = username
        self.password = password


@implementer(IUsernameHashedPassword)
class Hashed(object):
    def __init__(self, username, password):
        self.username = username
        self.password = password


class Plain(object):
    def __init__(self, username, password):
        self.username = username
        self.password = password


def client():
    c = AMP()
    c.makeConnection(Transport())
    return c


def check_login():
    pw = sym_bytes('password') if choose(2, 'kind') else sym_str('passwordText')
    user = sym_bytes('username')
    c = client()
    out = []
    d = login(c, Creds(user, pw))
    d.addBoth(out.append)
    boxes = c.transport.boxes
    expect(len(boxes) == 1, 'login starts with one request')
    expect(not mentions(boxes[0], pw), 'nothing derived from the password is sent before the challenge')
    expect_eq(boxes[0][b'username'], user, 'the user name is sent')
    expect_eq(boxes[0][b'_command'], PasswordLogin.commandName, 'a challenge is requested')
    waiting = c._outstanding.pop(0)
    if choose(2, 'server refuses'):
        waiting.errback(Failure(UnauthorizedLogin()))
        expect(len(boxes) == 1, 'nothing more is sent if no challenge is issued')
        expect(isinstance(out[0], Failure), 'the failure is reported')
        cover('rejected early')
        return
    ch = sym_bytes('challenge')
    waiting.callback({b'challenge': ch})
    expect(len(boxes) == 2, 'the proof is sent once')
    box = boxes[1]
    expect_eq(box[b'_command'], PasswordChallengeResponse.commandName, 'a proof is sent')
    expect(not mentions(box, pw, 'sha1', 'sha256', 'sha512'), 'the password leaves only inside a one-way digest')
    m = match_term(box[b'response'], 'sha1')
    expect(m is not None, 'the proof is a one-way digest')
    expect(mentions(m[0], ch), 'the digest covers the server challenge')
    expect(mentions(m[0], box[b'cnonce']), 'the digest covers the fresh nonce')
    expect(mentions(m[0], pw), 'the digest covers the password')
    cover('proof sent')
    expect(out == [], 'login is not done before the server answered')
    w = c._outstanding.pop(0)
    if choose(2, 'answer'):
        w.callback({})
        expect(len(out) == 1 and out[0] is c, 'a successful login yields the connection')
        cover('logged in')
    else:
        f = Failure(UnauthorizedLogin())
        w.errback(f)
        expect(len(out) == 1 and isinstance(out[0], Failure), 'a refused login is reported')
        expect(out[0].check(UnauthorizedLogin) is not None, 'the refusal is reported')
        cover('login refused')
    expect(len(boxes) == 2, 'nothing else is sent')


def check_refused():
    pw = sym_bytes('password')
    kind = choose((Hashed, Plain, None), 'credentials')
    c = client()
    creds = None if kind is None else kind(sym_bytes('username'), pw)
    try:
        d = login(c, creds)
    except UnhandledCredentials:
        cover('refused kind')
    else:
        fail('credentials of an unsupported kind are refused')
    expect(len(c.transport.boxes) == 0, 'nothing is sent for credentials of an unsupported kind')
