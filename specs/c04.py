"""C04: boxes reach an avatar only after the portal accepted the login."""
from verif import sym_bytes, choose, expect, expect_eq, cover
from epsilon.ampauth import (CredAMPServerFactory, CredReceiver, PasswordLogin, PasswordChallengeResponse, OTPLogin)
from twisted.cred.error import UnauthorizedLogin
from twisted.internet.defer import succeed, fail as failed
from twisted.protocols.amp import IBoxReceiver
from twisted.python.failure import Failure
from hashlib import sha1
from lib import Transport, Portal, Receiver

COVER = ('accepted', 'rejected', 'otp', 'password', 'undecided', 'two connections')


def connect(portal):
    s = CredAMPServerFactory(portal).buildProtocol(None)
    s.makeConnection(Transport())
    return s


def present(server, portal, tag):
    """Present a proof or a pad; the portal must be asked about exactly that."""
    n = len(portal.logins)
    if choose(2, 'mechanism'):
        pad = sym_bytes('pad' + tag)
        server.ampBoxReceived({b'_command': OTPLogin.commandName, b'_ask': tag.encode(), b'pad': pad})
        expect(len(portal.logins) == n + 1, 'the portal is asked once')
        expect_eq(portal.logins[n][0].padValue, pad, 'the portal is asked about the presented pad')
        cover('otp')
    else:
        user, nonce, resp = sym_bytes('user' + tag), sym_bytes('nonce' + tag), sym_bytes('resp' + tag)
        server.ampBoxReceived({b'_command': PasswordLogin.commandName, b'_ask': b'0', b'username': user})
        ch = server.transport.boxes[-1][b'challenge']
        server.ampBoxReceived({b'_command': PasswordChallengeResponse.commandName, b'_ask': tag.encode(),
                               b'cnonce': nonce, b'response': resp})
        expect(len(portal.logins) == n + 1, 'the portal is asked once')
        creds = portal.logins[n][0]
        expect_eq(creds.username, user, 'the portal is asked about the presented user')
        pw = sym_bytes('pw' + tag)
        if creds.checkPassword(pw):
            expect(resp == sha1(ch + b' ' + nonce + b' ' + pw).digest(), 'the portal judges the presented proof')
        cover('password')
    expect(IBoxReceiver in portal.logins[n][2], 'the avatar is asked for as a box receiver')
    return portal.logins[n][3]


def replies(server, tag):
    return [b for b in server.transport.boxes if b.get(b'_answer') == tag.encode() or b.get(b'_error') == tag.encode()]


def check_session():
    portal = Portal()
    server = connect(portal)
    before = server.boxReceiver
    d = present(server, portal, 'q')
    expect(server.boxReceiver is before, 'nothing changes while the portal has not answered')
    expect(replies(server, 'q') == [], 'no reply before the portal answered')
    r = choose(('accept', 'unauthorized', 'notimpl', 'other', 'pending'), 'portal')
    avatar = Receiver()
    if r == 'accept':
        d.callback((IBoxReceiver, avatar, lambda: None))
        expect(server.boxReceiver is avatar, 'the avatar becomes the receiver of further boxes')
        expect_eq(avatar.events, [('start', server.boxSender)], 'the avatar is started once with the connection as sender')
        expect(avatar.events[0][1] is server, 'the avatar sends through that connection')
        out = replies(server, 'q')
        expect(len(out) == 1 and b'_answer' in out[0], 'the client gets a success reply')
        box = {b'any': sym_bytes('content')}
        server.proto_box(box)
        expect(len(avatar.of('box')) == 1 and avatar.of('box')[0][1] is box, 'further boxes go to the avatar')
        cover('accepted')
    elif r == 'pending':
        server.proto_box({b'_command': PasswordLogin.commandName, b'_ask': b'9', b'username': sym_bytes('u9')})
        expect(avatar.events == [], 'nothing reaches an avatar before acceptance')
        cover('undecided')
    else:
        e = {'unauthorized': UnauthorizedLogin('no'), 'notimpl': NotImplementedError('no'), 'other': ValueError('secret')}[r]
        d.errback(Failure(e))
        expect(server.boxReceiver is before, 'a rejected connection keeps its previous receiver')
        expect(avatar.events == [], 'nothing is started')
        expect(server.logout is None, 'no session is recorded')
        out = replies(server, 'q')
        expect(len(out) == 1 and b'_error' in out[0], 'the error is reported to the client')
        code = out[0][b'_error_code']
        if r == 'unauthorized':
            expect_eq(code, b'UNAUTHORIZED_LOGIN', 'the refusal is reported as declared')
        elif r == 'notimpl':
            expect_eq(code, b'NOT_IMPLEMENTED_ERROR', 'a missing avatar interface is reported as declared')
        if r != 'other':
            server.proto_box({b'_command': PasswordLogin.commandName, b'_ask': b'9', b'username': sym_bytes('u9')})
            expect(len(replies(server, '9')) == 1, 'the connection still takes login requests')
        cover('rejected')


def check_retry():
    """A rejected attempt followed by an accepted one."""
    portal = Portal()
    server = connect(portal)
    present(server, portal, 'a').errback(Failure(UnauthorizedLogin()))
    avatar = Receiver()
    present(server, portal, 'b').callback((IBoxReceiver, avatar, lambda: None))
    expect(server.boxReceiver is avatar, 'a later accepted login takes effect')
    expect(len(avatar.of('start')) == 1, 'its avatar is started once')


def check_two_connections():
    portal = Portal()
    s1, s2 = connect(portal), connect(portal)
    b1, b2 = s1.boxReceiver, s2.boxReceiver
    d1 = present(s1, portal, 'a')
    d2 = present(s2, portal, 'b')
    avatar = Receiver()
    if choose(2, 'who'):
        d1.callback((IBoxReceiver, avatar, lambda: None))
        expect(s1.boxReceiver is avatar and s2.boxReceiver is b2, 'only the accepted connection changes')
        expect(avatar.events[0][1] is s1, 'the avatar is started for the accepted connection')
    else:
        d2.callback((IBoxReceiver, avatar, lambda: None))
        expect(s2.boxReceiver is avatar and s1.boxReceiver is b1, 'only the accepted connection changes')
        expect(avatar.events[0][1] is s2, 'the avatar is started for the accepted connection')
    cover('two connections')


class ImmediatePortal(object):
    def __init__(self, result):
        self.result = result

    def login(self, credentials, mind, *interfaces):
        return self.result


def check_immediate():
    """A portal that answers at once."""
    avatar = Receiver()
    if choose(2, 'ok'):
        server = connect(ImmediatePortal(succeed((IBoxReceiver, avatar, lambda: None))))
        server.ampBoxReceived({b'_command': OTPLogin.commandName, b'_ask': b'q', b'pad': sym_bytes('pad')})
        expect(server.boxReceiver is avatar, 'the avatar becomes the receiver')
        expect(len(avatar.of('start')) == 1, 'the avatar is started once')
    else:
        server = connect(ImmediatePortal(failed(Failure(UnauthorizedLogin()))))
        before = server.boxReceiver
        server.ampBoxReceived({b'_command': OTPLogin.commandName, b'_ask': b'q', b'pad': sym_bytes('pad')})
        expect(server.boxReceiver is before, 'a rejected connection keeps its receiver')
    expect(len(replies(server, 'q')) == 1, 'one reply')
