"""C02: a proof is accepted exactly when it matches."""
from verif import sym_bytes, sym_str, choose, expect, expect_eq, cover, symbols
from epsilon.ampauth import PasswordChallengeResponse, CredReceiver, PasswordLogin, CredAMPServerFactory
from twisted.python import randbytes
from hashlib import sha1
from lib import Transport, Portal

COVER = ('accept', 'reject', 'client')


def password():
    if choose(2, 'password kind'):
        return sym_str('passwordText')
    return sym_bytes('password')


def as_bytes(pw):
    return pw if isinstance(pw, bytes) else pw.encode('utf-8')


def credentials(nonce, resp):
    portal = Portal()
    server = CredAMPServerFactory(portal).buildProtocol(None)
    server.makeConnection(Transport())
    server.ampBoxReceived({b'_command': PasswordLogin.commandName, b'_ask': b'1', b'username': sym_bytes('user')})
    ch = server.transport.boxes[0][b'challenge']
    server.ampBoxReceived({b'_command': PasswordChallengeResponse.commandName, b'_ask': b'2', b'cnonce': nonce,
                           b'response': resp})
    return portal.logins[0][0], ch


def check_server():
    nonce, resp = sym_bytes('nonce'), sym_bytes('response')
    creds, ch = credentials(nonce, resp)
    pw = password()
    want = sha1(ch + b' ' + nonce + b' ' + as_bytes(pw)).digest()
    for again in range(2):
        r = creds.checkPassword(pw)
        if r:
            expect(resp == want, 'only the SHA-1 of challenge, nonce and password is accepted')
            cover('accept')
        else:
            expect(resp != want, 'the SHA-1 of challenge, nonce and password is accepted')
            cover('reject')


def check_client():
    used = []
    for i in range(2):
        before = len(randbytes.draws)
        ch = sym_bytes('challenge%d' % i)
        pw = password()
        args = PasswordChallengeResponse.determineFrom(ch, pw)
        expect_eq(sorted(args), ['cnonce', 'response'], 'the proof consists of nonce and response')
        nonce = args['cnonce']
        expect(len(nonce) >= 16, 'a nonce has at least 16 bytes')
        mine = [n for v, n in randbytes.draws[before:] if symbols(v, '')[0] in symbols(nonce, '')]
        expect(len(mine) > 0, 'the nonce is drawn anew from the secure random source')
        expect(max(mine) >= 16, 'at least 16 random bytes are drawn for a nonce')
        expect_eq(args['response'], sha1(ch + b' ' + nonce + b' ' + as_bytes(pw)).digest(),
                  'the client computes the digest the server expects')
        cover('client')


def check_agreement():
    """What the client computes is what the server accepts."""
    pw = password()
    nonce = sym_bytes('n')
    portal = Portal()
    server = CredAMPServerFactory(portal).buildProtocol(None)
    server.makeConnection(Transport())
    server.ampBoxReceived({b'_command': PasswordLogin.commandName, b'_ask': b'1', b'username': sym_bytes('user')})
    ch = server.transport.boxes[0][b'challenge']
    args = PasswordChallengeResponse.determineFrom(ch, pw)
    box = PasswordChallengeResponse.makeArguments(args, None)
    box[b'_command'] = PasswordChallengeResponse.commandName
    box[b'_ask'] = b'2'
    server.ampBoxReceived(box)
    expect(portal.logins[0][0].checkPassword(pw), 'the right password is accepted')
