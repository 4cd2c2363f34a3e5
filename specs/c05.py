"""C05: every login is matched by exactly one logout."""
from verif import sym_bytes, choose, expect, expect_eq, cover
from epsilon.ampauth import CredAMPServerFactory, OTPLogin
from twisted.cred.error import UnauthorizedLogin
from twisted.protocols.amp import IBoxReceiver
from twisted.internet.error import ConnectionDone
from twisted.python.failure import Failure
from lib import Transport, Portal, Receiver

COVER = ('logged out', 'never logged in', 'late answer', 'late refusal', 'pipelined', 'failing avatar', 'reentrant loss', 'failing at the end', 'failing logout')


def connect(portal):
    s = CredAMPServerFactory(portal).buildProtocol(None)
    s.makeConnection(Transport())
    return s


def present(server, portal, tag):
    server.ampBoxReceived({b'_command': OTPLogin.commandName, b'_ask': tag, b'pad': sym_bytes('pad')})
    return portal.logins[-1][3]


class Session(object):
    def __init__(self, onStart=None, onStop=None):
        self.logouts = 0
        self.avatar = Receiver(onStart=onStart, onStop=onStop)

    def logout(self):
        self.logouts += 1

    @property
    def result(self):
        return (IBoxReceiver, self.avatar, self.logout)


def lose(server):
    server.connectionLost(Failure(ConnectionDone()))


def check_sessions():
    """Up to two attempts, any order of answers and loss."""
    portal = Portal()
    server = connect(portal)
    pend, open_, done = [], [], []
    lost = False
    asked = 0
    for i in range(5):
        ops = []
        if not lost and asked < 2:
            ops.append('ask')
        for j in range(len(pend)):
            ops.append(('accept', j))
            ops.append(('refuse', j))
        if not lost:
            ops.append('lose')
        if not ops:
            break
        op = choose(ops, 'event')
        if op == 'ask':
            asked += 1
            if open_:
                break       # the avatar has the connection now
            pend.append(present(server, portal, b'%d' % i))
            if len(pend) == 2:
                cover('pipelined')
        elif op == 'lose':
            lost = True
            lose(server)
            if open_ == []:
                cover('never logged in')
            for s in open_:
                expect(s.logouts == 1, 'losing the connection logs out once')
                cover('logged out')
        elif op[0] == 'refuse':
            pend.pop(op[1]).errback(Failure(UnauthorizedLogin()))
            if lost:
                cover('late refusal')
        else:
            s = Session()
            open_.append(s)
            pend.pop(op[1]).callback(s.result)
            if lost:
                expect(s.logouts == 1, 'a session obtained after the loss is logged out at once')
                cover('late answer')
            else:
                expect(s.logouts == 0, 'no logout while the connection is up')
        if not lost:
            for s in open_:
                expect(s.logouts == 0, 'no logout while the connection is up and logged in')
    if not lost:
        lose(server)
    for s in open_:
        expect(s.logouts == 1, 'every session is logged out exactly once')


def check_failing_avatar():
    """The session exists from the portal's answer on, even if starting the avatar fails."""
    def bad(sender):
        raise ValueError('avatar is broken')
    portal = Portal()
    server = connect(portal)
    s = Session(bad)
    present(server, portal, b'1').callback(s.result)
    if s.logouts == 0:
        lose(server)
    expect(s.logouts == 1, 'a session whose avatar cannot start is logged out exactly once')
    cover('failing avatar')


def check_failing_at_the_end():
    """The avatar fails when it is told that the connection is lost."""
    def bad(reason):
        raise ValueError('avatar is broken')
    portal = Portal()
    server = connect(portal)
    s = Session(onStop=bad)
    present(server, portal, b'1').callback(s.result)
    try:
        lose(server)
    except ValueError:
        pass
    expect(s.logouts == 1, 'losing the connection logs out once')
    cover('failing at the end')


def check_reentrant_loss():
    """The connection is lost while the avatar is being started."""
    portal = Portal()
    server = connect(portal)
    s = Session(lambda sender: lose(server))
    present(server, portal, b'1').callback(s.result)
    expect(s.logouts == 1, 'a session lost while starting is logged out exactly once')
    cover('reentrant loss')


def check_two_connections():
    portal = Portal()
    a, b = connect(portal), connect(portal)
    sa, sb = Session(), Session()
    present(a, portal, b'1').callback(sa.result)
    present(b, portal, b'1').callback(sb.result)
    lose(a)
    expect(sa.logouts == 1 and sb.logouts == 0, 'only the lost connection is logged out')
    lose(b)
    expect(sa.logouts == 1 and sb.logouts == 1, 'each session once')


def check_three():
    """Three attempts in progress at once, answered in any order; a logout may fail."""
    portal = Portal()
    server = connect(portal)
    pend = [present(server, portal, b'%d' % i) for i in range(3)]
    sessions = [Session() for i in range(3)]
    broken = choose((None, 0, 1, 2), 'logout that fails')

    def bad():
        s = sessions[broken]
        s.logouts += 1
        raise ValueError('logout is broken')
    if broken is not None:
        sessions[broken].logout = bad
        cover('failing logout')
    left = list(range(3))
    late = choose((0, 1), 'answers after the loss')
    while len(left) > late:
        i = left.pop(choose(len(left), 'answered'))
        pend[i].callback(sessions[i].result)
    try:
        lose(server)
    except ValueError:
        expect(broken is not None, 'no other error')
    for i in left:
        pend[i].callback(sessions[i].result)
    for s in sessions:
        expect(s.logouts == 1, 'every session is logged out exactly once')
