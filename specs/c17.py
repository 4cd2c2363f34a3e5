"""C17: after a protocol switch all traffic belongs to the new protocol."""
from verif import choose, expect, expect_eq, cover, sym_bytes, sym_int, assume
from twisted.internet.error import ConnectionDone, ConnectionLost
from twisted.internet.defer import Deferred, succeed
from twisted.python.failure import Failure
from epsilon import juice
from jlib import Transport, Outcome, text, wire, sent, unwire, CRLF

COVER = ('client switched', 'server switched', 'refused', 'cut', 'body', 'later', 'reply dropped', 'command ignored',
         'nothing sent', 'loss forwarded', 'lost before', 'request in progress', 'two deliveries', 'lost at the start')


class Declared(Exception):
    pass


class Switch(juice.ProtocolSwitchCommand):
    commandName = 'Switch'
    arguments = [('x', juice.String(optional=True))]
    errors = {Declared: 'DECLARED'}


class Inner(object):
    """the new protocol"""

    owner = None
    dies = None

    def __init__(self, log):
        self.log = log
        self.bytes = b''

    def makeConnection(self, transport):
        self.log.append(('make', transport))
        if self.owner is not None:
            # the new protocol starts while the old one is still on the stack
            no_more_juice(self.owner, transport, len(transport.events))
        if self.dies:
            # the connection does not survive the start of the new protocol
            self.owner.connectionLost(self.dies)

    def dataReceived(self, data):
        expect(isinstance(data, bytes), 'the new protocol gets bytes')
        expect(len(data) > 0, 'no empty delivery')
        self.log.append(('data', data))
        self.bytes += data

    def connectionLost(self, reason):
        self.log.append(('lost', reason))


class Factory(object):
    def __init__(self, log):
        self.log = log

    def __len__(self):
        # the number of connections, say
        return 0

    def buildProtocol(self, addr):
        self.log.append(('build', addr))
        self.inner = Inner(self.log)
        return self.inner

    def clientConnectionFailed(self, connector, reason):
        self.log.append(('failed', reason))

    def clientConnectionLost(self, connector, reason):
        self.log.append(('factory lost', reason))


class Peer(juice.Juice):
    dies = None

    def __init__(self, server):
        juice.Juice.__init__(self, server)
        self.ran = []
        self.questions = []

    def command_SWITCH(self, x=None):
        self.ran.append('switch')
        how = self.how
        self.inner = Inner(self.events)
        self.inner.owner = self
        self.inner.dies = self.dies
        if how == 'now':
            return self.inner
        if how == 'fired':
            return succeed(self.inner)
        if how == 'later':
            self.d = Deferred()
            return self.d
        if how == 'declared':
            raise Declared('no')
        raise ValueError('no')
    command_SWITCH.command = Switch

    def juice_ASK(self, box):
        self.ran.append('ask')
        d = Deferred()
        self.questions.append(d)
        return d


def connect(server):
    p = Peer(server)
    p.events = []
    t = Transport()
    p.makeConnection(t)
    return p, t


def kinds(log):
    return [e[0] for e in log]


def deliver(p, head, rest):
    """head (the switching box) and the bytes after it, in one or two deliveries"""
    how = choose(('together', 'apart', 'split'), 'delivery')
    if how == 'together':
        p.dataReceived(head + rest)
    elif how == 'apart':
        p.dataReceived(head)
        if rest:
            p.dataReceived(rest)
    else:
        k = choose((1, 5, len(head) - 1), 'cut')
        p.dataReceived(head[:k])
        p.dataReceived(head[k:] + rest)
        cover('cut')


def no_more_juice(p, t, mark):
    """no box can be sent any more"""
    for how in ('command', 'packet', 'box'):
        try:
            if how == 'command':
                p.sendCommand('Cmd', x='1')
            elif how == 'packet':
                p.sendPacket(juice.Box(x='1'))
            else:
                juice.Box(x='1').sendTo(p)
            went = True
        except AssertionError:
            went = False
        expect(not went, 'sending a box is refused')
    expect(t.events[mark:] == [], 'no juice box is sent once the switch was requested')
    cover('nothing sent')


def lose(p, log, factory):
    reason = Failure(ConnectionDone() if choose(2, 'reason') else ConnectionLost())
    n = len(log)
    p.connectionLost(reason)
    new = log[n:]
    expect([e for e in new if e[0] == 'lost'] == [('lost', reason)], 'the new protocol is told about the loss, once')
    expect(kinds(new) == (['lost', 'factory lost'] if factory else ['lost']), 'and so is its client factory')
    cover('loss forwarded')


def check_client():
    """the side asking for the switch"""
    p, t = connect(False)
    busy = choose(2, 'a question in progress')
    if busy:
        p.dataReceived(wire([('_command', 'Ask'), ('_ask', '77')]))
        cover('request in progress')
    f = Factory(p.events)
    o = Outcome(Switch(f, x='1').do(p))
    box = unwire(t.written()[0])
    expect(len(t.written()) == 1 and box['_command'] == 'Switch', 'the switch is requested')
    mark = len(t.events)
    no_more_juice(p, t, mark)
    if busy:
        p.questions[0].callback(juice.Box()) if choose(2, 'reply') else p.questions[0].errback(Failure(ValueError('x')))
        expect(t.events[mark:] == [], 'the reply to an older question is dropped, and nothing else happens')
        cover('reply dropped')
        mark = len(t.events)
    if choose(2, 'a command arrives'):
        n = len(p.ran)
        if choose(2, 'wants an answer'):
            p.dataReceived(wire([('_command', 'Ask'), ('_ask', '78')]))
            expect(len(p.ran) == n, 'a command that wants an answer is ignored')
        else:
            p.dataReceived(wire([('_command', 'Ask')]))
            expect(len(p.ran) == n + 1, 'a command that wants none is run')
            p.questions[-1].callback(juice.Box())
        expect(t.events[mark:] == [], 'no reply is sent')
        cover('command ignored')
    expect(p.events == [], 'the new protocol is not connected before the switch completes')
    rest = sym_bytes('rest', nonempty=True) if choose(2, 'more bytes') else b''
    fields = [('_answer', box['_ask'])]
    if choose(2, 'body'):
        fields.append(('body', 'the body'))
        cover('body')
    deliver(p, wire(fields), rest)
    expect(kinds(p.events)[:2] == ['build', 'make'], 'the new protocol is built and connected')
    expect(len([k for k in kinds(p.events) if k == 'make']) == 1, 'exactly once')
    expect(p.events[1][1] is t, 'to the transport')
    expect_eq(f.inner.bytes, rest, 'it gets every byte after the switching box and no other')
    more = sym_bytes('more', nonempty=True)
    p.dataReceived(more)
    expect_eq(f.inner.bytes, rest + more, 'and all later bytes')
    cover('two deliveries', 'lost at the start')
    expect(t.events[mark:] == [], 'no juice traffic is sent')
    no_more_juice(p, t, mark)
    lose(p, p.events, True)
    expect('failed' not in kinds(p.events), 'the factory is not told of a failure')
    expect(t.written()[mark:] == [], 'no juice traffic is sent')
    cover('client switched')


def check_refused():
    """the switch is refused, or the connection is lost first"""
    p, t = connect(False)
    f = Factory(p.events)
    o = Outcome(Switch(f).do(p))
    ask = unwire(t.written()[0])['_ask']
    mark = len(t.events)
    how = choose(('declared', 'other', 'unhandled', 'lost'), 'refusal')
    if how == 'lost':
        p.connectionLost(Failure(ConnectionDone()))
        cover('lost before')
    else:
        code = {'declared': 'DECLARED', 'other': text('code'), 'unhandled': 'UNHANDLED'}[how]
        p.dataReceived(wire([('_error', ask), ('_error_code', code), ('_error_description', text('why'))]))
    expect(kinds(p.events) == ['failed'], 'the client factory is told that its connection failed, once')
    expect(len(o.calls) == 1 and o.calls[0][0] == 'error', 'and so is the caller')
    expect(t.written()[mark:] == [], 'no box is sent')
    if how != 'lost':
        p.connectionLost(Failure(ConnectionDone()))
        expect(kinds(p.events) == ['failed'], 'nothing was connected, so nothing is lost')
    cover('refused')


def check_server():
    """the side asked for the switch"""
    p, t = connect(True)
    busy = choose(2, 'a question in progress')
    if busy:
        p.dataReceived(wire([('_command', 'Ask'), ('_ask', '77')]))
    fields = [('_command', 'Switch'), ('_ask', text('tag'))]
    if choose(2, 'body'):
        fields.append(('body', 'the body'))
    p.how = how = choose(('now', 'fired', 'later', 'declared', 'other'), 'responder')
    mark = len(t.events)
    rest = first = b''
    if how in ('now', 'fired', 'later') and choose(2, 'more bytes'):
        rest = sym_bytes('rest', nonempty=True)
        if how != 'later' and choose(2, 'bytes follow at once'):
            first = rest
    deliver(p, wire(fields), first)
    expect(p.ran[busy:] == ['switch'], 'the responder runs once')
    if how in ('declared', 'other'):
        boxes = sent(t, mark)
        expect(len(boxes) == 1 and '_error' in boxes[0], 'a refusal is an error reply')
        expect(p.events == [], 'the new protocol is not connected')
        expect(p.innerProtocol is None, 'and the connection is not switched')
        return
    if how == 'later':
        expect(t.written()[mark:] == [] and p.events == [], 'nothing happens before the responder is done')
        p.d.callback(p.inner)
        cover('later')
    w = t.written()[mark:]
    expect(len(w) == 1, 'one reply')
    reply = unwire(w[0])
    expect_eq(reply['_answer'], fields[1][1], 'the switch is confirmed')
    expect(kinds(p.events)[:1] == ['make'] and p.events[0][1] is t, 'the new protocol is connected to the transport')
    expect(len([k for k in kinds(p.events) if k == 'make']) == 1, 'exactly once')
    if rest and not first:
        p.dataReceived(rest)
    expect_eq(p.inner.bytes, rest, 'it gets every byte after the switching box and no other')
    mark = len(t.events)
    if busy:
        p.questions[0].callback(juice.Box()) if choose(2, 'reply') else p.questions[0].errback(Failure(ValueError('x')))
        expect(t.events[mark:] == [], 'the reply to an older question is dropped, and nothing else happens')
        mark = len(t.events)
    no_more_juice(p, t, mark)
    more = wire([('_command', 'Ask'), ('_ask', '9')])
    p.dataReceived(more)
    expect_eq(p.inner.bytes, rest + more, 'later bytes belong to it, whatever they look like')
    expect('ask' not in p.ran[busy:], 'no command is run')
    lose(p, p.events, False)
    cover('server switched')



def check_lost_at_start():
    """the connection is lost while the new protocol starts"""
    p, t = connect(True)
    p.how = choose(('now', 'fired', 'later'), 'responder')
    p.dies = reason = Failure(ConnectionDone())
    p.dataReceived(wire([('_command', 'Switch'), ('_ask', text('tag'))]))
    if p.how == 'later':
        p.d.callback(p.inner)
    expect(kinds(p.events) == ['make', 'lost'], 'the new protocol is connected once and told about the loss, once')
    expect(p.events[1][1] is reason, 'with its reason')
    cover('lost at the start')
