"""C12: losing a juice connection fails every pending request."""
from verif import sym_str, choose, expect, expect_eq, cover, fail
from twisted.python.failure import Failure
from twisted.internet.error import ConnectionDone, ConnectionLost
from epsilon import juice
from jlib import Transport, Outcome, text, wire, sent
from c11 import Ask, connect, Request, reply

COVER = ('none pending', 'pending', 'asks again', 'raises', 'after the loss', 'answered before', 'other connection', 'many', 'switched', 'nobody listens yet', 'in a handler')


def lose(p):
    reason = ConnectionDone() if choose(2, 'cleanly') else ConnectionLost()
    p.connectionLost(Failure(reason))
    return reason


def check_pending():
    p, t = connect(server=choose(2, 'server'))
    rs = [Request(p, t, i) for i in range(choose(4, 'pending'))]
    done = []
    if len(rs) == 3 and choose(2, 'one answered'):
        reply(p, rs[1], 9)
        done = [rs.pop(1)]
        cover('answered before')
    q, tq = connect()
    other = Request(q, tq, 7)
    before = len(t.events)
    reason = lose(p)
    for r in rs:
        expect(len(r.out.calls) == 1, 'a pending request fails exactly once')
        expect(r.out.calls[0][0] == 'error', 'a pending request fails')
        expect(r.out.calls[0][1] is reason, 'with the reason of the loss')
        cover('pending')
    for r in done:
        expect(len(r.out.calls) == 1, 'an answered request completes once')
    if not rs:
        cover('none pending')
    expect(sent(t, before) == [], 'nothing is sent')
    late(p, t)
    expect(other.out.calls == [], 'requests of other connections stay pending')
    cover('other connection')


def late(p, t):
    """a request after the loss"""
    before = len(t.events)
    how = choose(('sendCommand', 'command', 'no answer', 'command, no answer'), 'late request')
    if how == 'sendCommand':
        d = p.sendCommand('Ask', q='x')
    elif how == 'command':
        d = Ask(q='x').do(p)
    elif how == 'no answer':
        d = p.sendBoxCommand('Ask', juice.Box(q='x'), requiresAnswer=False)
    else:
        d = Ask(q='x').do(p, requiresAnswer=False)
    expect(d is not None, 'a request after the loss reports its failure')
    o = Outcome(d)
    expect(len(o.calls) == 1 and o.calls[0][0] == 'error', 'a request after the loss fails at once')
    expect(isinstance(o.calls[0][1], ConnectionLost), 'with a connection lost error')
    expect(t.events[before:] == [], 'and sends nothing')
    cover('after the loss')


def check_many():
    """however many there are"""
    p, t = connect()
    outs = [Outcome(p.sendCommand('Ask', q='x')) for i in range(70)]
    reason = Failure(ConnectionDone())
    p.connectionLost(reason)
    for o in outs:
        expect(o.calls == [('error', reason.value)], 'every pending request fails exactly once')
    cover('many')


class Inner(object):
    def makeConnection(self, transport):
        pass

    def dataReceived(self, data):
        pass

    def connectionLost(self, reason):
        pass


class Factory(object):
    def buildProtocol(self, addr):
        return Inner()

    def clientConnectionFailed(self, connector, reason):
        pass

    def clientConnectionLost(self, connector, reason):
        pass


def check_switched():
    """requests left unanswered when the connection was switched to another protocol"""
    p, t = connect()
    r = Request(p, t, 1)
    n = len(t.events)
    s = Outcome(juice.ProtocolSwitchCommand(Factory()).do(p))
    p.dataReceived(wire([('_answer', sent(t, n)[0]['_ask'])]))
    expect(len(s.calls) == 1 and s.calls[0][0] == 'ok', 'switched')
    reason = lose(p)
    expect(r.out.calls == [('error', reason)], 'a pending request fails exactly once')
    cover('switched')


def check_handlers():
    """the handlers of failed requests make new requests, or raise"""
    p, t = connect()
    fresh = []
    what = [choose(('nothing', 'ask', 'raise'), 'handler %d' % i) for i in range(2)]

    def handler(i):
        def act():
            if what[i] == 'ask':
                n = len(t.events)
                fresh.append(Outcome(p.sendCommand('Ask', q='y')))
                expect(t.events[n:] == [], 'a request during the loss sends nothing')
                cover('asks again')
            elif what[i] == 'raise':
                cover('raises')
                raise ValueError('bad handler')
        return act
    rs = [Request(p, t, i, handler(i)) for i in range(2)]
    rs.append(Request(p, t, 2))
    reason = lose(p)
    for r in rs:
        expect(r.out.calls == [('error', reason)], 'every pending request fails exactly once')
    for o in fresh:
        expect(len(o.calls) == 1 and o.calls[0][0] == 'error' and isinstance(o.calls[0][1], ConnectionLost),
               'a request made meanwhile fails at once')


def check_quiet():
    """a request whose result nobody looked at yet fails like any other"""
    p, t = connect()
    d = p.sendCommand('Ask', q='x') if choose(2, 'how') else p.sendBoxCommand('Ask', juice.Box(q='x'))
    reason = lose(p)
    out = Outcome(d)
    expect(out.calls == [('error', reason)], 'a pending request fails exactly once')
    cover('nobody listens yet')


def check_inside():
    """the handler of a reply ends the connection at once"""
    p, t = connect()
    reason = ConnectionDone()
    first = Request(p, t, 1, lambda: p.connectionLost(Failure(reason)))
    others = [Request(p, t, 2 + i) for i in range(choose(3, 'others'))]
    reply(p, first, 9)
    expect(len(first.out.calls) == 1, 'an answered request completes once')
    for r in others:
        expect(r.out.calls == [('error', reason)], 'a pending request fails exactly once')
    late(p, t)
    cover('in a handler')
