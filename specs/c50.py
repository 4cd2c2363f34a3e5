"""C50: values describing the connection come from its transport."""
from verif import choose, expect, expect_eq, cover
from twisted.internet.defer import Deferred, succeed
from epsilon import juice
from jlib import Transport, Outcome, text, wire, sent

COVER = ('responder', 'result', 'forged', 'two connections', 'no extra')
KINDS = (('peer', juice.Peer), ('pd', juice.PeerDomain), ('pu', juice.PeerUser), ('host', juice.Host), ('hd', juice.HostDomain),
         ('hu', juice.HostUser))


class Address(object):
    def __init__(self, tag):
        self.domain = text(tag + ' domain')
        self.resource = text(tag + ' user')


class Wire(Transport):
    def __init__(self, tag):
        Transport.__init__(self)
        self.peer, self.host = Address(tag + ' peer'), Address(tag + ' host')

    def getQ2QPeer(self):
        return self.peer

    def getQ2QHost(self):
        return self.host


def true_value(t, k):
    return {'peer': t.peer, 'pd': t.peer.domain, 'pu': t.peer.resource, 'host': t.host, 'hd': t.host.domain, 'hu': t.host.resource}[k]


def same(got, want, msg):
    if isinstance(want, Address):
        expect(got is want, msg)
    else:
        expect_eq(got, want, msg)


class Do(juice.Command):
    commandName = 'Do'
    arguments = [('word', juice.String())]
    response = [('back', juice.String())]
    extra = [(k, c()) for k, c in KINDS]


class Plain(juice.Command):
    commandName = 'Plain'
    arguments = [('word', juice.String())]
    response = [('back', juice.String())]


class Clash(juice.Command):
    commandName = 'Clash'
    arguments = [('peer', juice.String())]
    response = [('peer', juice.String())]
    extra = [('peer', juice.Peer())]


class Peer(juice.Juice):
    def __init__(self, server=True):
        juice.Juice.__init__(self, server)
        self.got = []

    def command_DO(self, **kw):
        self.got.append(kw)
        r = {'back': kw['word']}
        return choose((r, succeed(r)), 'how')
    command_DO.command = Do

    def command_PLAIN(self, **kw):
        self.got.append(kw)
        return {'back': kw['word']}
    command_PLAIN.command = Plain

    def command_CLASH(self, **kw):
        self.got.append(kw)
        return {'peer': 'me'}
    command_CLASH.command = Clash


def connect(server, tag):
    p = Peer(server)
    t = Wire(tag)
    p.makeConnection(t)
    return p, t


def check_responder():
    """whatever the peer sends, the responder is told what the local transport says"""
    p, t = connect(True, 'a')
    w = text('word')
    fields = [('_command', 'Do'), ('_ask', '1'), ('word', w)]
    forged = choose((None,) + tuple([k for k, c in KINDS]) + ('all',), 'forged')
    for k, c in KINDS:
        if forged in (k, 'all'):
            fields.append((k, text('forged ' + k)))
            cover('forged')
    p.dataReceived(wire(fields))
    expect(len(p.got) == 1, 'the responder runs once')
    kw = p.got[0]
    expect_eq(sorted(kw), sorted(['word'] + [k for k, c in KINDS]), 'exactly the declared arguments and values')
    expect_eq(kw['word'], w, 'the argument')
    for k, c in KINDS:
        same(kw[k], true_value(t, k), k + ' is that of the local transport')
    got = sent(t)
    expect(len(got) == 1 and '_answer' in got[0], 'answered')
    expect_eq(sorted(got[0]), ['_answer', 'back'], 'the values are not sent')
    cover('responder')


def check_result():
    """the caller's result has the values of the caller's transport"""
    p, t = connect(False, 'a')
    o = Outcome(Do(word='w').do(p))
    q = sent(t)[0]
    expect_eq(sorted(q), ['_ask', '_command', 'word'], 'the values are not sent')
    fields = [('_answer', q['_ask']), ('back', text('back'))]
    if choose(2, 'forged'):
        for k, c in KINDS:
            fields.append((k, text('forged ' + k)))
    p.dataReceived(wire(fields))
    expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'answered')
    r = o.calls[0][1]
    expect_eq(sorted(r), sorted(['back'] + [k for k, c in KINDS]), 'exactly the declared response and values')
    for k, c in KINDS:
        same(r[k], true_value(t, k), k + ' is that of the local transport')
    cover('result')


def check_two():
    """each connection has its own"""
    a, at = connect(True, 'a')
    b, bt = connect(True, 'b')
    for p in choose(((a, b), (b, a), (a, b, a)), 'order'):
        p.dataReceived(wire([('_command', 'Do'), ('_ask', '1'), ('word', 'w')]))
    for p, t in ((a, at), (b, bt)):
        for kw in p.got:
            for k, c in KINDS:
                same(kw[k], true_value(t, k), k + ' is that of the connection the command came from')
    cover('two connections')


def check_two_results():
    """also when they make the requests"""
    a, at = connect(False, 'a')
    b, bt = connect(False, 'b')
    for p, t in choose((((a, at), (b, bt)), ((b, bt), (a, at), (b, bt))), 'order'):
        n = len(sent(t))
        o = Outcome(Do(word='w').do(p))
        p.dataReceived(wire([('_answer', sent(t)[n]['_ask']), ('back', 'x')]))
        expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'answered')
        for k, c in KINDS:
            same(o.calls[0][1][k], true_value(t, k), k + ' is that of the connection the reply came from')


def check_same_name():
    """a value of the connection cannot be given by the peer even if there is an argument of that name"""
    p, t = connect(True, 'a')
    p.dataReceived(wire([('_command', 'Clash'), ('_ask', '1'), ('peer', text('forged'))]))
    expect(len(p.got) == 1, 'the responder runs once')
    same(p.got[0]['peer'], t.peer, 'the peer is that of the local transport')
    q, tq = connect(False, 'b')
    o = Outcome(Clash(peer='x').do(q))
    q.dataReceived(wire([('_answer', sent(tq)[0]['_ask']), ('peer', text('forged'))]))
    expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'answered')
    same(o.calls[0][1]['peer'], tq.peer, 'the peer is that of the local transport')


def check_plain():
    """a command that declares none gets none"""
    p, t = connect(True, 'a')
    p.dataReceived(wire([('_command', 'Plain'), ('_ask', '1'), ('word', 'w'), ('peer', 'x')]))
    expect_eq(p.got, [{'word': 'w'}], 'only the declared argument')
    cover('no extra')
