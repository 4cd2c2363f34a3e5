"""C13: every command that asks for an answer gets exactly one reply."""
from verif import sym_str, choose, expect, expect_eq, cover, fail
from twisted.internet.defer import Deferred, succeed, fail as dfail
from twisted.internet.error import ConnectionDone
from twisted.python.failure import Failure
from epsilon import juice
from jlib import Transport, Outcome, text, wire, sent

COVER = ('answer', 'error', 'no answer wanted', 'later', 'without transport', 'unknown', 'any order', 'lost meanwhile',
         'wrapped', 'body', 'buffered', 'nothing to say')


class Declared(Exception):
    pass


class Do(juice.Command):
    commandName = 'Do'
    arguments = [('x', juice.String(optional=True))]
    response = [('y', juice.String())]
    errors = {Declared: 'DECLARED'}


class Quiet(juice.Command):
    commandName = 'Quiet'


class Peer(juice.Juice):
    """answers as the specification decides"""

    def __init__(self):
        juice.Juice.__init__(self, True)
        self.calls = []

    def decide(self, make, *more):
        how = choose(('value', 'fired', 'later', 'raise declared', 'raise other', 'failed', 'remote error') + more,
                     'responder')
        d = Deferred()
        self.calls.append((how, d, make))
        if how == 'value':
            return make()
        if how == 'fired':
            d.callback(make())
        elif how == 'raise declared':
            raise Declared('d')
        elif how == 'raise other':
            raise ValueError('v')
        elif how == 'failed':
            d.errback(Failure(ValueError('v')))
        elif how == 'remote error':
            raise juice.RemoteJuiceError('CODE', 'text')
        elif how == 'stale':
            # an answer got from elsewhere, passed on as it is
            b = make()
            b['_answer'] = 'stale'
            return b
        elif how == 'bad value':
            return None
        return d

    def juice_OLD(self, box):
        return self.decide(lambda: juice.Box(y='old'), 'stale')

    def command_DO(self, x=None):
        return self.decide(lambda: dict(y='new'), 'bad value')
    command_DO.command = Do

    def command_QUIET(self):
        return self.decide(dict)
    command_QUIET.command = Quiet


def connect(cls=Peer):
    p = cls()
    t = Transport()
    p.makeConnection(t)
    return p, t


def question(tag):
    cmd = choose(('Old', 'Do', 'Nothing'), 'command')
    f = [('_command', cmd)]
    if tag is not None:
        f.append(('_ask', tag))
    if choose(2, 'body'):
        f.append(('body', 'content'))
    return cmd, wire(f)


def finish(call):
    how, d, make = call
    if how != 'later':
        return
    if choose(2, 'completes with'):
        d.callback(make())
    else:
        d.errback(Failure(Declared('d') if choose(2, 'which error') else ValueError('v')))


def replies(t, start=0):
    out = []
    for b in sent(t, start):
        expect(('_answer' in b) != ('_error' in b), 'a reply is an answer or an error')
        out.append(b)
    return out


def tag_of(b):
    return b['_answer'] if '_answer' in b else b['_error']


def check_asked():
    p, t = connect()
    tag = text('tag')
    cmd, data = question(tag)
    p.dataReceived(data)
    if p.calls and p.calls[0][0] == 'later':
        expect(replies(t) == [], 'no reply before the responder is done')
        finish(p.calls[0])
        cover('later')
    got = replies(t)
    expect(len(got) == 1, 'exactly one reply')
    expect_eq(tag_of(got[0]), tag, 'the reply carries the tag of the question')
    expect(len(p.calls) == (cmd != 'Nothing'), 'the responder runs once')
    if cmd == 'Nothing':
        expect('_error' in got[0], 'an unknown command is an error')
        cover('unknown')
    cover('answer' if '_answer' in got[0] else 'error')
    if b'content' in data:
        cover('body')
    # whatever happens later, the reply stays the only one
    p.connectionLost(Failure(ConnectionDone()))
    expect(len(replies(t)) == 1, 'exactly one reply')


def check_not_asked():
    p, t = connect()
    cmd, data = question(None)
    p.dataReceived(data)
    if p.calls:
        finish(p.calls[0])
    expect(t.written() == [], 'a command that does not ask causes no reply')
    cover('no answer wanted')


def check_several():
    """two questions, completed in any order"""
    p, t = connect()
    tags = [text('tagA', nonempty=True), text('tagB', nonempty=True)]
    for tag in tags:
        p.dataReceived(wire([('_command', choose(('Old', 'Do'), 'command')), ('_ask', tag)]))
    todo = [i for i in range(2) if p.calls[i][0] == 'later']
    while todo:
        i = todo.pop(choose(len(todo), 'completes'))
        n = len(t.events)
        finish(p.calls[i])
        got = replies(t, n)
        expect(len(got) == 1, 'the completion of a responder causes one reply')
        expect_eq(tag_of(got[0]), tags[i], 'with the tag of its question')
    got = [tag_of(b) for b in replies(t)]
    expect(len(got) == 2, 'one reply for each question')
    expect(got == tags or got == tags[::-1], 'one reply for each question')
    cover('any order')


def check_gone():
    """the reply becomes ready when there is no transport, or after the connection was lost"""
    from twisted.python import log
    p, t = connect()
    tag = text('tag')
    p.dataReceived(wire([('_command', choose(('Old', 'Do'), 'command')), ('_ask', tag)]))
    if p.calls[0][0] != 'later':
        return
    if choose(2, 'lost'):
        p.connectionLost(Failure(ConnectionDone()))
        cover('lost meanwhile')
    if choose(2, 'transport is gone'):
        p.transport = None
        finish(p.calls[0])
        expect(t.events == [], 'nothing is done to the transport')
        for e in log.events:
            if e[0] == 'err':
                expect(isinstance(e[1].value, (ValueError, Declared)), 'dropping the reply is no error')
        cover('without transport')
    else:
        finish(p.calls[0])
        expect(len(replies(t)) <= 1, 'at most one reply')


class Wrapping(Peer):
    def __init__(self):
        Peer.__init__(self)
        self.wrapped = []

    def wrapper(self, f):
        def run(*a):
            self.wrapped.append(f)
            return f(*a)
        return run


def check_wrapper():
    """responders run within the wrapper of the connection"""
    p, t = connect(Wrapping)
    tag = text('tag')
    p.dataReceived(wire([('_command', choose(('Old', 'Do', 'Nothing'), 'command')), ('_ask', tag)]))
    if p.calls:
        expect(len(p.wrapped) == 1, 'the responder runs wrapped once')
        finish(p.calls[0])
    got = replies(t)
    expect(len(got) == 1, 'exactly one reply')
    expect_eq(tag_of(got[0]), tag, 'the reply carries the tag of the question')
    cover('wrapped')


class Certificate(object):
    def options(self, *a):
        return 'options'


def check_buffered():
    """replies that wait for TLS are sent as they were made"""
    p, t = connect()
    tags = [text('tagA'), text('tagB')]
    p.prepareTLS()
    for tag in tags:
        p.dataReceived(wire([('_command', choose(('Old', 'Do', 'Quiet'), 'command')), ('_ask', tag)]))
    order = [i for i in range(2) if p.calls[i][0] != 'later'] + [i for i in range(2) if p.calls[i][0] == 'later']
    for call in p.calls:
        finish(call)
    p.startTLS(Certificate())
    got = replies(t)
    expect(len(got) == 2, 'one reply for each question')
    for i in range(2):
        expect_eq(tag_of(got[i]), tags[order[i]], 'with the tag of its question')
    cover('buffered')


def check_quiet():
    """responses without contents"""
    p, t = connect()
    for i in range(2):
        tag = text('tag%d' % i)
        n = len(t.events)
        p.dataReceived(wire([('_command', 'Quiet'), ('_ask', tag)]))
        finish(p.calls[i])
        got = replies(t, n)
        expect(len(got) == 1, 'exactly one reply')
        expect_eq(tag_of(got[0]), tag, 'the reply carries the tag of the question')
        if '_answer' in got[0]:
            expect(list(got[0]) == ['_answer'], 'and nothing else')
            cover('nothing to say')
