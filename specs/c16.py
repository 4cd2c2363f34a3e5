"""C16: nothing is sent in clear text while TLS is being set up."""
from verif import choose, expect, expect_eq, cover, sym_str
from twisted.internet.error import ConnectionDone
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure
from epsilon import juice
from jlib import Transport, Outcome, text, wire, sent

COVER = ('buffered', 'flushed', 'many', 'verified', 'second refused', 'unprepared', 'tls box', 'tls failed', 'answers',
         'prepared twice', 'not needed again')


class Certificate(object):
    def __init__(self, truth=True):
        self.asked = []
        self.truth = truth

    def __bool__(self):
        return self.truth

    def options(self, *authorities):
        self.asked.append(authorities)
        return (self, authorities)


class Notify(object):
    def __init__(self, log, transport, truth):
        self.log = log
        self.transport = transport
        self.truth = truth

    def __bool__(self):
        return self.truth

    def __call__(self):
        self.log.append(len(self.transport.events))


class Failing(Transport):
    def startTLS(self, options, *a):
        Transport.startTLS(self, options, *a)
        raise ValueError('no TLS here')


class Peer(juice.Juice):
    def juice_ECHO(self, box):
        return juice.Box(y=box['x'])

    def juice_LATER(self, box):
        self.later = Deferred()
        return self.later


def connect(cls=Transport):
    p = Peer(choose(2, 'server') == 1)
    t = cls()
    p.makeConnection(t)
    return p, t


def send_one(p, i, plain=False):
    """one box of any origin; returns what distinguishes it"""
    v = text('value%d' % i)
    how = choose(('command', 'packet', 'box', 'answer', 'unanswered'), 'box %d' % i) if not plain else 'box'
    if how == 'command':
        p.sendCommand('Cmd', x=v).addErrback(lambda f: None)
    elif how == 'packet':
        p.sendPacket(juice.Box(x=v))
    elif how == 'box':
        juice.Box(x=v).sendTo(p)
    elif how == 'unanswered':
        p.sendBoxCommand('Cmd', juice.Box(x=v), False)
    else:
        p.dataReceived(wire([('_command', 'Echo'), ('_ask', 'q%d' % i), ('x', v)]))
        cover('answers')
        return 'y', v
    return 'x', v


def matches(boxes, want):
    expect(len(boxes) == len(want), 'every box is written exactly once')
    for b, (k, v) in zip(boxes, want):
        expect_eq(b.get(k), v, 'boxes are written in the order they were sent')


def check_prepared():
    p, t = connect()
    want0 = [send_one(p, 9, True)] if choose(2, 'a box before') else []
    matches(sent(t), want0)
    mark = len(t.events)
    p.prepareTLS()
    n = choose(4, 'boxes')
    want = []
    for i in range(n):
        want.append(send_one(p, i, i > 1))
        if i == 0 and choose(2, 'prepare again'):
            p.prepareTLS()
            cover('prepared twice')
    expect(t.events[mark:] == [], 'nothing is written while TLS is set up')
    cover('buffered')
    c = Certificate(choose(2, 'truth of certificate') == 1)
    auth = ('a',) * choose(2, 'authorities')
    p.startTLS(c, *auth)
    expect(t.events[mark][0] == 'tls', 'TLS starts first')
    expect(t.events[mark][1] == (c, auth), 'with the certificate and authorities given')
    expect(len([e for e in t.events if e[0] == 'tls']) == 1, 'TLS is started once')
    matches(sent(t, mark), want)
    if n:
        cover('flushed')
    if n > 1:
        cover('many')
    if auth:
        cover('verified')
    # once TLS is up boxes are written at once
    want.append(send_one(p, 5, True))
    matches(sent(t, mark), want)
    again(p, t)
    want.append(send_one(p, 6, True))
    matches(sent(t, mark), want)
    p.connectionLost(Failure(ConnectionDone()))
    matches(sent(t, mark), want)


def again(p, t):
    before = len(t.events)
    c2 = Certificate()
    try:
        p.startTLS(c2, 'b')
        refused = False
    except RuntimeError:
        refused = True
    expect(refused, 'a second attempt is refused')
    expect(len(t.events) == before, 'and does not touch the transport')
    cover('second refused')


def check_unprepared():
    p, t = connect()
    want = [send_one(p, 0)]
    c = Certificate(choose(2, 'truth of certificate') == 1)
    p.startTLS(c)
    expect([e[0] for e in t.events] == ['write', 'tls'], 'TLS is started once, after the box')
    again(p, t)
    want.append(send_one(p, 1))
    matches(sent(t), want)
    cover('unprepared')


def check_box():
    """a TLS box goes out in clear, and TLS starts right after it"""
    p, t = connect()
    c = Certificate()
    verify = choose((None, 'authority', 'itself', 'falsy'), 'verify')
    if verify == 'itself':
        verify = c
    elif verify == 'falsy':
        verify = Certificate(False)
    started = []
    cb = choose((None, Notify(started, t, False), Notify(started, t, True)), 'notify')
    x = text('x')
    if verify is None and choose(2, 'default'):
        b = juice.TLSBox(c, None, cb, x=x) if cb is not None else juice.TLSBox(c, x=x)
    else:
        b = juice.TLSBox(c, verify, cb, x=x)
    b.sendTo(p)
    expect([e[0] for e in t.events] == ['write', 'tls'], 'the box, then TLS')
    expect_eq(sent(t)[0]['x'], x, 'the fields of the box')
    expect(t.events[1][1] == (c, () if verify is None else (verify,)), 'the certificate and authority of the box')
    expect(started == ([] if cb is None else [2]), 'told after TLS started, once')
    expect(p.hostCertificate is c, 'the certificate is remembered')
    again(p, t)
    cover('tls box')


def check_answer_box():
    """a TLS box as an answer while the connection is prepared"""
    p, t = connect()
    p.dataReceived(wire([('_command', 'Later'), ('_ask', '1')]))
    p.prepareTLS()
    first = send_one(p, 0) if choose(2, 'a box') else None
    c = Certificate()
    if choose(2, 'answer with'):
        p.later.callback(juice.TLSBox(c))
        expect(t.events[0][0] == 'tls', 'nothing before TLS')
        bs = sent(t)
        expect(len(bs) == (2 if first else 1), 'each box once')
        expect('_answer' in bs[-1], 'in order')
    else:
        p.later.callback(juice.Box())
        expect(t.events == [], 'nothing before TLS')
        p.startTLS(c)
        expect(t.events[0][0] == 'tls', 'TLS first')
        bs = sent(t)
        expect('_answer' in bs[-1], 'in order')
        expect(len(bs) == (2 if first else 1), 'each box once')
    cover('not needed again')


def check_failed():
    p, t = connect(Failing)
    p.prepareTLS()
    send_one(p, 0)
    try:
        p.startTLS(Certificate())
    except ValueError:
        pass
    send_one(p, 1)
    expect(sent(t) == [], 'nothing is written as long as TLS has not been started')
    p.connectionLost(Failure(ConnectionDone()))
    expect(sent(t) == [], 'nothing is written as long as TLS has not been started')
    cover('tls failed')
