"""C57: whoever receives the boxes of a connection is told once when it ends."""
from verif import sym_bytes, choose, expect, expect_eq, cover
from epsilon.ampauth import CredAMPServerFactory, OTPLogin, PasswordLogin
from epsilon.amprouter import Router
from twisted.cred.error import UnauthorizedLogin
from twisted.protocols.amp import IBoxReceiver
from twisted.internet.error import ConnectionDone
from twisted.python.failure import Failure
from lib import Transport, Portal, Receiver

COVER = ('decided at the end', 'avatar', 'not logged in', 'refused', 'undecided', 'router', 'calls', 'logout fails')


def connect(portal):
    s = CredAMPServerFactory(portal).buildProtocol(None)
    s.makeConnection(Transport())
    return s


def present(server, portal):
    server.ampBoxReceived({b'_command': OTPLogin.commandName, b'_ask': b'1', b'pad': sym_bytes('pad')})
    return portal.logins[-1][3]


def call(server, got):
    d = server.callRemote(OTPLogin, pad=b'x')
    d.addCallbacks(lambda r: got.append(('ok', r)), lambda f: got.append(('bad', f.value)))


class LogoutFailed(Exception):
    pass


class Session(object):
    def __init__(self, avatar):
        self.avatar = avatar
        self.logouts = 0

    def logout(self):
        self.logouts += 1
        if choose(2, 'logout fails'):
            raise LogoutFailed()


def check_avatar():
    portal = Portal()
    server = connect(portal)
    avatar = Receiver()
    s = Session(avatar)
    present(server, portal).callback((IBoxReceiver, avatar, s.logout))
    for i in range(choose(3, 'boxes')):
        server.boxReceiver.ampBoxReceived({b'a': b'b'})
    expect(avatar.of('stop') == [], 'not while the connection is up')
    reason = Failure(ConnectionDone())
    try:
        server.connectionLost(reason)
    except LogoutFailed:
        cover('logout fails')
    stops = avatar.of('stop')
    expect(len(stops) == 1, 'the avatar is told once')
    expect(stops[0][1] is reason, 'with the reason')
    expect(avatar.events[-1] is stops[0], 'and gets nothing afterwards')
    expect_eq(s.logouts, 1, 'logged out')
    cover('avatar')


def check_router():
    """the avatar is a router: all its routes end"""
    portal = Portal()
    server = connect(portal)
    router = Router()
    rs = [Receiver() for i in range(2)]
    routes = [router.bindRoute(r) for r in rs]
    for i in range(choose(3, 'connected')):
        routes[i].connectTo(b'there')
    present(server, portal).callback((IBoxReceiver, router, lambda: None))
    reason = Failure(ConnectionDone())
    server.connectionLost(reason)
    for r in rs:
        expect(len(r.of('stop')) == 1 and r.of('stop')[0][1] is reason, 'every receiver is told once, with the reason')
    cover('router')


def check_without_login():
    portal = Portal()
    server = connect(portal)
    got = []
    n = choose(3, 'calls')
    for i in range(n):
        call(server, got)
    how = choose(('nothing', 'refused', 'undecided', 'challenged'), 'login')
    d = None
    if how == 'challenged':
        server.ampBoxReceived({b'_command': PasswordLogin.commandName, b'_ask': b'1', b'username': sym_bytes('user')})
    elif how != 'nothing':
        d = present(server, portal)
    if how == 'refused':
        d.errback(Failure(UnauthorizedLogin()))
        cover('refused')
    expect(got == [], 'unanswered')
    reason = Failure(ConnectionDone())
    server.connectionLost(reason)
    expect(len(got) == n and all([g[0] == 'bad' and g[1] is reason.value for g in got]), 'every call still waiting fails once')
    if n:
        cover('calls')
    cover('not logged in')
    if how == 'undecided':
        avatar = Receiver()
        s = Session(avatar)
        d.callback((IBoxReceiver, avatar, s.logout))
        expect(avatar.events == [], 'an avatar that comes too late is told nothing')
        cover('undecided')


def check_decided_at_the_end():
    """the portal decides while the connection is being torn down"""
    portal = Portal()
    server = connect(portal)
    first = Receiver()
    undecided = present(server, portal)
    if choose(2, 'logged in before'):
        present(server, portal).callback((IBoxReceiver, first, lambda: None))
    avatar = Receiver()
    s = Session(avatar)
    d = server.callRemote(OTPLogin, pad=b'x')
    d.addErrback(lambda f: undecided.callback((IBoxReceiver, avatar, s.logout)))
    try:
        server.connectionLost(Failure(ConnectionDone()))
    except LogoutFailed:
        pass
    expect(len(avatar.of('start')) == len(avatar.of('stop')), 'who was given the boxes is told of the end')
    if avatar.of('start'):
        expect(avatar.events[-1][0] == 'stop', 'and gets nothing afterwards')
    if undecided.called:
        expect_eq(s.logouts, 1, 'a session that began is logged out once')
    expect(len(first.of('start')) == len(first.of('stop')), 'who was given the boxes is told of the end')
    cover('decided at the end')
