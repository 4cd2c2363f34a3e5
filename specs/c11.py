"""C11: each reply completes exactly the request it answers."""
from verif import sym_str, choose, expect, expect_eq, cover, fail
from epsilon import juice
from jlib import Transport, Outcome, text, wire, sent

COVER = ('answered', 'error', 'unknown tag', 'already answered', 'all orders', 'reentrant', 'two connections', 'many', 'at once')


class Ask(juice.Command):
    commandName = 'Ask'
    arguments = [('q', juice.String())]
    response = [('a', juice.String())]


def connect(cls=juice.Juice, server=False):
    p = cls(server)
    t = Transport()
    p.makeConnection(t)
    return p, t


class Request(object):
    """one outstanding request made in one of the two ways"""

    def __init__(self, p, t, n, then=None):
        self.how = choose(('sendCommand', 'command'), 'way of asking')
        before = len(t.events)
        q = text('q%d' % n)
        if self.how == 'command':
            d = Ask(q=q).do(p)
        else:
            d = p.sendCommand('Ask', q=q)
        self.out = Outcome(d, then)
        boxes = sent(t, before)
        expect(len(boxes) == 1, 'a request is sent once')
        box = boxes[0]
        expect('_ask' in box and '_command' in box, 'a request expecting an answer carries a tag')
        expect_eq(box['_command'], 'Ask', 'the command asked for')
        expect_eq(box['q'], q, 'the arguments given')
        self.tag = box['_ask']


def reply(p, r, n):
    """the peer answers r; what must have happened is appended to r.out"""
    if choose(2, 'error'):
        code, desc = text('code%d' % n), text('desc%d' % n)
        p.dataReceived(wire([('_error', r.tag), ('_error_code', code), ('_error_description', desc)]))
        expect(len(r.out.calls) == 1, 'the request completes exactly once')
        kind, e = r.out.calls[0]
        expect(kind == 'error' and isinstance(e, juice.RemoteJuiceError), 'an error box fails the request remotely')
        expect_eq(e.description, desc, 'the remote error holds the description of the box')
        if r.how == 'sendCommand':
            expect_eq(e.errorCode, code, 'the remote error holds the code of the box')
        cover('error')
    else:
        a = text('a%d' % n)
        p.dataReceived(wire([('_answer', r.tag), ('a', a)]))
        expect(len(r.out.calls) == 1, 'the request completes exactly once')
        kind, box = r.out.calls[0]
        expect(kind == 'ok', 'an answer completes the request')
        expect_eq(box['a'], a, 'with that very answer')
        cover('answered')


def check_orders():
    """three requests, answered in any order"""
    p, t = connect()
    rs = [Request(p, t, i) for i in range(3)]
    expect(len(set([r.tag for r in rs])) == 3, 'tags are unique')
    left = list(rs)
    for i in range(3):
        r = left.pop(choose(len(left), 'which is answered'))
        before = [len(x.out.calls) for x in rs]
        reply(p, r, i)
        for x, n in zip(rs, before):
            if x is not r:
                expect(len(x.out.calls) == n, 'no other request completes')
    for r in rs:
        expect(len(r.out.calls) == 1, 'every request completed once')
    cover('all orders')


def check_any_tag():
    """a reply with any tag at all"""
    p, t = connect()
    rs = [Request(p, t, i) for i in range(2)]
    done = []
    if choose(2, 'first answered already'):
        reply(p, rs[0], 0)
        done.append(rs[0])
    tag = text('tag')
    before = [len(x.out.calls) for x in rs]
    box = [('_answer', tag), ('a', text('a'))] if choose(2, 'kind of reply') else \
        [('_error', tag), ('_error_code', text('code')), ('_error_description', text('desc'))]
    try:
        p.dataReceived(wire(box))
    except Exception:
        pass
    for x, n in zip(rs, before):
        if x not in done and tag == x.tag:
            expect(len(x.out.calls) == n + 1, 'the request with that tag completes')
        else:
            expect(len(x.out.calls) == n, 'a request completes only by its own tag, once')
            if x in done and tag == x.tag:
                cover('already answered')
    if tag != rs[0].tag and tag != rs[1].tag:
        cover('unknown tag')


def check_reentrant():
    """the handler of an answer asks again"""
    p, t = connect()
    more = []
    a = Request(p, t, 0, lambda: more.append(Request(p, t, 1)))
    b = Request(p, t, 2)
    reply(p, a, 0)
    c = more[0]
    tags = [a.tag, b.tag, c.tag]
    expect(len(set(tags)) == 3, 'no tag is used twice')
    expect(b.out.calls == [] and c.out.calls == [], 'the other requests are pending')
    first, second = (b, c) if choose(2, 'order') else (c, b)
    reply(p, first, 4)
    expect(second.out.calls == [], 'the other request is pending')
    reply(p, second, 5)
    cover('reentrant')


def check_connections():
    """requests of two connections have nothing to do with each other"""
    p1, t1 = connect()
    if choose(2, 'second connection later'):
        a = Request(p1, t1, 1)
        p2, t2 = connect(server=choose(2, 'second is a server'))
    else:
        p2, t2 = connect(server=choose(2, 'second is a server'))
        a = Request(p1, t1, 1)
    b = Request(p2, t2, 2)
    reply(p2, b, 3)
    expect(a.out.calls == [], 'an answer completes no request of another connection')
    reply(p1, a, 4)
    expect(len(b.out.calls) == 1, 'once')
    cover('two connections')


def check_many():
    """tags stay unique however many requests are made, answered and not expecting answers"""
    p, t = connect()
    tags = set()
    for i in range(300):
        n = len(t.events)
        if i % 7 == 3:
            d = p.sendCommand('Tell', x='y', _Juice__answer=False) if False else \
                p.sendBoxCommand('Tell', juice.Box(x='y'), requiresAnswer=False)
            expect(d is None, 'no result for a request without answer')
            expect('_ask' not in sent(t, n)[0], 'a request without answer has no tag')
            continue
        o = Outcome(p.sendCommand('Ask', q='x'))
        tag = sent(t, n)[0]['_ask']
        expect(tag not in tags, 'a tag is never used twice')
        tags.add(tag)
        if i % 3 == 0:
            p.dataReceived(wire([('_answer', tag)]))
            expect(len(o.calls) == 1, 'answered')
    cover('many')


class Prompt(Transport):
    """a transport whose peer replies before the write returns"""

    def write(self, data):
        Transport.write(self, data)
        self.protocol.dataReceived(self.answer(sent(self)[-1]))


def check_prompt():
    """the answer arrives while the request is still being sent"""
    t = Prompt()
    p = juice.Juice(False)
    t.protocol = p
    p.makeConnection(t)
    a = text('a')

    def answer(box):
        return wire([('_answer', box['_ask']), ('a', a)])
    t.answer = answer
    for i in range(2):
        out = Outcome(Ask(q='x').do(p) if choose(2, 'command') else p.sendCommand('Ask', q='x'))
        expect(len(out.calls) == 1, 'the request completes exactly once')
        expect(out.calls[0][0] == 'ok', 'it is answered')
        expect_eq(out.calls[0][1]['a'], a, 'with that answer')
    cover('at once')
