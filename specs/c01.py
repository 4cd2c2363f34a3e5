"""C01: challenges are fresh, random and bound to the last login request of the connection."""
from verif import sym_bytes, sym_str, choose, expect, expect_eq, cover, symbols
from epsilon.ampauth import CredReceiver, PasswordLogin, PasswordChallengeResponse, CredAMPServerFactory
from twisted.python import randbytes
from hashlib import sha1
from twisted.cred.error import UnauthorizedLogin
from twisted.protocols.amp import IBoxReceiver
from twisted.python.failure import Failure
from lib import Transport, Portal, Receiver

COVER = ('undecided', 'refused', 'accepted', 'challenged', 'judged', 'judged again')


def connection(factory):
    server = factory.buildProtocol(None)
    server.makeConnection(Transport())
    return server


def request(server, user, tag, used):
    """One password-login request; returns the challenge of the reply."""
    before = len(randbytes.draws)
    sent = len(server.transport.boxes)
    server.ampBoxReceived({b'_command': PasswordLogin.commandName, b'_ask': tag, b'username': user})
    boxes = server.transport.boxes[sent:]
    expect(len(boxes) == 1, 'a login request gets one reply')
    box = boxes[0]
    expect(b'_answer' in box, 'a login request is answered')
    ch = box[b'challenge']
    expect(len(ch) >= 16, 'a challenge has at least 16 bytes')
    mine = [n for v, n in randbytes.draws[before:] if symbols(v, '')[0] in symbols(ch, '')]
    expect(len(mine) > 0, 'the challenge is drawn from the secure random source for this request')
    expect(max(mine) >= 16, 'at least 16 random bytes are drawn for a challenge')
    for c in used:
        expect(symbols(c, '') != symbols(ch, ''), 'no challenge is used twice')
    used.append(ch)
    cover('challenged')
    return ch


def prove(server, portal, tag, user, ch, what):
    nonce, resp, pw = sym_bytes('nonce' + what), sym_bytes('response' + what), sym_bytes('password' + what)
    server.ampBoxReceived({b'_command': PasswordChallengeResponse.commandName, b'_ask': tag, b'cnonce': nonce,
                           b'response': resp})
    expect(len(portal.logins) == 1, 'a proof asks the portal once')
    creds, mind, iface, d = portal.logins.pop()[:4]
    portal.last = d
    expect_eq(creds.username, user, 'a proof is judged for the user of the last request')
    want = sha1(ch + b' ' + nonce + b' ' + pw).digest()
    if creds.checkPassword(pw):
        expect(resp == want, 'a proof is accepted only for the challenge of the last request on its connection')
    else:
        expect(resp != want, 'a proof for the challenge of the last request is accepted')
    return creds, want, resp, pw


def check_interleaved():
    """Two connections, any interleaving of up to three requests, then a proof on either."""
    portal = Portal()
    factory = CredAMPServerFactory(portal)
    servers = [connection(factory), connection(factory)]
    last = [None, None]
    used = []
    for i in range(3):
        k = choose(2, 'connection')
        user = sym_bytes('user%d' % i)
        last[k] = (user, request(servers[k], user, b'%d' % i, used))
    k = choose(2, 'proof on')
    if last[k] is None:
        sent = len(servers[k].transport.boxes)
        servers[k].ampBoxReceived({b'_command': PasswordChallengeResponse.commandName, b'_ask': b'x',
                                   b'cnonce': sym_bytes('n'), b'response': sym_bytes('r')})
        expect(len(portal.logins) == 0, 'a proof without a challenge on that connection is not judged')
        return
    prove(servers[k], portal, b'p', last[k][0], last[k][1], '')
    cover('judged')


def check_credentials_stable():
    """Credentials under judgement are not re-bound by a later request."""
    portal = Portal()
    server = connection(CredAMPServerFactory(portal))
    used = []
    user = sym_bytes('user')
    ch = request(server, user, b'1', used)
    creds, want, resp, pw = prove(server, portal, b'2', user, ch, '')
    user2 = sym_bytes('user2')
    ch2 = request(server, user2, b'3', used)
    expect_eq(creds.username, user, 'credentials keep their user')
    if creds.checkPassword(pw):
        expect(resp == want, 'credentials keep their challenge')
    else:
        expect(resp != want, 'credentials keep their challenge')
    prove(server, portal, b'4', user2, ch2, '2')
    cover('judged again')


def check_several_proofs():
    """every proof is judged for the last request, whatever became of those
    before it"""
    portal = Portal()
    server = connection(CredAMPServerFactory(portal))
    used = []
    user = sym_bytes('user')
    ch = request(server, user, b'1', used)
    prove(server, portal, b'2', user, ch, '')
    became = choose(('undecided', 'refused', 'accepted'), 'first proof')
    if became == 'refused':
        portal.last.errback(Failure(UnauthorizedLogin()))
    elif became == 'accepted':
        portal.last.callback((IBoxReceiver, Receiver(), lambda: None))
    if choose(2, 'new request'):
        user = sym_bytes('user2')
        ch = request(server, user, b'3', used)
    prove(server, portal, b'4', user, ch, '2')
    cover(became)
