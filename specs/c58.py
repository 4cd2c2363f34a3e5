"""C58: factories give each connection a protocol of its own in the right role."""
from verif import sym_bytes, choose, expect, expect_eq, cover
from epsilon import juice
from epsilon.ampauth import CredAMPServerFactory, CredReceiver, PasswordLogin
from lib import Portal
from lib import Transport as AMPTransport
from jlib import Transport, Outcome, wire, sent

COVER = ('server', 'client', 'custom', 'custom of one factory', 'talk', 'credentials', 'two factories')


class Mine(juice.Juice):
    pass


class Other(CredReceiver):
    pass


def build(f):
    p = f.buildProtocol(choose((None, 'address'), 'address'))
    expect(p is not None, 'connections are accepted')
    return p


def custom(base, mine):
    """(factory class or instance maker, protocol class)"""
    how = choose(('default', 'class', 'instance'), 'protocol')
    if how == 'class':
        class Factory(base):
            protocol = mine
        cover('custom')
        return Factory, mine, False
    if how == 'instance':
        cover('custom of one factory')
        return base, mine, True
    return base, base.protocol, False


def check_juice():
    server = choose(2, 'server') == 1
    base = juice.JuiceServerFactory if server else juice.JuiceClientFactory
    cls, want, instance = custom(base, Mine)
    f, g = cls(), cls()
    if instance:
        f.protocol = g.protocol = want
    ps = [build(f), build(f), build(g)]
    for p, owner in zip(ps, (f, f, g)):
        expect(type(p) is want, 'the protocol of the factory')
        expect(p.factory is owner, 'knows its factory')
        expect(bool(p.isServer) is server and bool(p.isClient) is (not server), 'in its role')
    expect(ps[0] is not ps[1] and ps[1] is not ps[2] and ps[0] is not ps[2], 'one for each connection')
    ts = []
    for p in ps:
        t = Transport()
        p.makeConnection(t)
        ts.append(t)
    o = Outcome(ps[0].sendCommand('Ask', x='1'))
    expect(len(sent(ts[0])) == 1 and ts[1].events == [] and ts[2].events == [], 'each writes to its own transport')
    tag = sent(ts[0])[0]['_ask']
    ps[0].dataReceived(wire([('_answer', tag), ('y', '2')]))
    expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'and reads its own answers')
    cover('server' if server else 'client')
    cover('two factories')


def check_talk():
    """the protocols of a server and a client factory understand each other"""
    s, c = build(juice.JuiceServerFactory()), build(juice.JuiceClientFactory())
    st, ct = Transport(), Transport()
    s.makeConnection(st)
    c.makeConnection(ct)
    o = Outcome(c.renegotiateVersion(juice.VERSIONS[0]))
    s.dataReceived(b''.join(ct.written()))
    c.dataReceived(b''.join(st.written()))
    expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'answered')
    cover('talk')


def check_cred():
    cls, want, instance = custom(CredAMPServerFactory, Other)
    p1, p2 = Portal(), Portal()
    f, g = cls(p1), cls(p2)
    if instance:
        f.protocol = g.protocol = want
    ps = [build(f), build(f), build(g)]
    for p, owner, portal in zip(ps, (f, f, g), (p1, p1, p2)):
        expect(type(p) is want, 'the protocol of the factory')
        expect(p.factory is owner, 'knows its factory')
        expect(p.portal is portal, 'uses the portal of its factory')
    expect(ps[0] is not ps[1] and ps[1] is not ps[2] and ps[0] is not ps[2], 'one for each connection')
    ts = []
    for p in ps:
        t = AMPTransport()
        p.makeConnection(t)
        ts.append(t)
    user = sym_bytes('user')
    ps[0].ampBoxReceived({b'_command': PasswordLogin.commandName, b'_ask': b'1', b'username': user})
    expect(len(ts[0].boxes) == 1 and ts[1].boxes == [] and ts[2].boxes == [], 'each writes to its own transport')
    cover('credentials')
