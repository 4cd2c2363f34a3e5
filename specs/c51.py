"""C51: responders and reply handlers run inside the wrapper of their connection."""
from verif import choose, expect, expect_eq, cover
from twisted.internet.defer import Deferred
from epsilon import juice
from jlib import Transport, Outcome, text, wire, sent

COVER = ('new style', 'old style', 'answer', 'error', 'unknown command', 'transaction', 'wrapper fails', 'no wrapper', 'of the class', 'per connection')


class Do(juice.Command):
    commandName = 'Do'
    arguments = [('word', juice.String())]
    response = [('back', juice.String())]


class Wrapper(object):
    """wraps callables; records what runs inside"""

    def __init__(self):
        self.inside = 0
        self.entered = 0

    def __call__(self, f):
        def run(*a, **kw):
            self.entered += 1
            self.inside += 1
            try:
                return f(*a, **kw)
            finally:
                self.inside -= 1
        return run


class Peer(juice.Juice):
    def __init__(self, w):
        juice.Juice.__init__(self, True)
        self.wrapper = w
        self.got = []

    def seen(self, what, value):
        self.got.append((what, value))
        if self.wrapper is not None:
            expect(self.wrapper.inside == 1, 'runs inside the wrapper, once')

    def command_DO(self, word):
        self.seen('new', word)
        if choose(2, 'fails'):
            raise ValueError('no')
        return {'back': word}
    command_DO.command = Do

    def juice_OLD(self, box):
        self.seen('old', box['word'])
        return juice.Box(back=box['word'])


def connect(w):
    p = Peer(w)
    t = Transport()
    p.makeConnection(t)
    return p, t


def check_responder():
    w = choose((None, Wrapper()), 'wrapper')
    p, t = connect(w)
    word = text('word')
    cmd = choose(('Do', 'Old', 'Nothing'), 'command')
    p.dataReceived(wire([('_command', cmd), ('_ask', '1'), ('word', word)]))
    expect(len(sent(t)) == 1, 'one reply')
    if cmd == 'Nothing':
        expect(p.got == [], 'nothing runs')
        expect('_error' in sent(t)[0], 'refused')
        cover('unknown command')
        return
    expect(len(p.got) == 1, 'the responder runs once')
    expect_eq(p.got[0][1], word, 'with what was sent')
    if w is None:
        cover('no wrapper')
    else:
        expect(w.entered == 1 and w.inside == 0, 'the wrapper is entered once and left')
        cover('new style' if cmd == 'Do' else 'old style')


def check_reply():
    """the handlers of a reply run inside the wrapper too"""
    w = choose((None, Wrapper()), 'wrapper')
    p, t = connect(w)
    ran = []
    d = p.sendBoxCommand('X', juice.Box())

    def handler(r):
        if w is not None:
            expect(w.inside == 1, 'the handler runs inside the wrapper, once')
        ran.append(r)
    d.addBoth(handler)
    tag = sent(t)[0]['_ask']
    if choose(2, 'error'):
        p.dataReceived(wire([('_error', tag), ('_error_code', 'C'), ('_error_description', 'd')]))
        cover('error')
    else:
        p.dataReceived(wire([('_answer', tag), ('x', 'y')]))
        cover('answer')
    expect(len(ran) == 1, 'the handler runs once')
    if w is not None:
        expect(w.entered == 1 and w.inside == 0, 'the wrapper is entered once and left')


class Store(object):
    def __init__(self):
        self.depth = 0
        self.n = 0

    def transact(self, f, *a, **kw):
        self.n += 1
        self.depth += 1
        try:
            return f(*a, **kw)
        finally:
            self.depth -= 1


def check_transaction():
    """the transaction wrapper runs its callable in a transaction of its store"""
    s = Store()
    got = []

    def f(box):
        expect(s.depth == 1, 'in a transaction')
        got.append(box)
        if choose(2, 'fails'):
            raise ValueError('no')
        return 'result'
    box = juice.Box(word='w')
    try:
        r = juice._Transactor(s, f)(box)
    except ValueError:
        pass
    else:
        expect(r == 'result', 'its result is returned')
    expect(s.n == 1 and len(got) == 1 and got[0] is box, 'once, with the box')
    p, t = connect(None)
    p.wrapper = lambda f: juice._Transactor(s, f)
    s.n = 0
    inside = []
    p.juice_TX = lambda b: inside.append(s.depth) or juice.Box(x='y')
    p.dataReceived(wire([('_command', 'tx'), ('_ask', '1')]))
    expect(inside == [1] and s.n == 1, 'the responder runs in one transaction')
    cover('transaction')


def check_failing():
    """an error of the wrapper itself is reported like an error of the responder"""
    def bad(f):
        def run(box):
            raise ValueError('secret')
        return run
    p, t = connect(None)
    p.wrapper = bad
    p.dataReceived(wire([('_command', 'Old'), ('_ask', '1'), ('word', 'w')]))
    expect(p.got == [], 'the responder is not run')
    expect(len(sent(t)) == 1 and sent(t)[0]['_error_code'] == 'UNHANDLED', 'reported once')
    cover('wrapper fails')


class Shared(Peer):
    """the wrapper is an attribute, a method or a property of the class"""

    def __init__(self):
        juice.Juice.__init__(self, True)
        self.got = []


class Held(Shared):
    wrapper = Wrapper()


class Method(Shared):
    inside = 0
    entered = 0

    def seen(self, what, value):
        self.got.append((what, value))
        expect(self.inside == 1, 'runs inside the wrapper, once')

    def wrapper(self, f):
        def run(*a, **kw):
            self.entered += 1
            self.inside += 1
            try:
                return f(*a, **kw)
            finally:
                self.inside -= 1
        return run


class Owned(Shared):
    def __init__(self, w):
        Shared.__init__(self)
        self.own = w

    @property
    def wrapper(self):
        return self.own


def check_shared():
    p = choose((Held(), Method(), Owned(Wrapper())), 'wrapper')
    t = Transport()
    p.makeConnection(t)
    w = p if isinstance(p, Method) else p.wrapper
    cmd = choose(('Do', 'Old'), 'command')
    p.dataReceived(wire([('_command', cmd), ('_ask', '1'), ('word', 'w')]))
    expect(len(p.got) == 1 and w.entered == 1 and w.inside == 0, 'the responder runs in the wrapper')
    ran = []
    p.sendBoxCommand('X', juice.Box()).addBoth(lambda r: ran.append(w.inside))
    tag = sent(t)[-1]['_ask']
    if choose(2, 'error'):
        p.dataReceived(wire([('_error', tag), ('_error_code', 'C'), ('_error_description', 'd')]))
    else:
        p.dataReceived(wire([('_answer', tag), ('x', 'y')]))
    expect(ran == [1], 'the handler runs inside the wrapper, once')
    cover('of the class')


def check_two():
    """each connection uses its own wrapper, the one it has at the time"""
    p, t = connect(Wrapper())
    q, u = connect(Wrapper())
    p.dataReceived(wire([('_command', 'Old'), ('_ask', '1'), ('word', 'w')]))
    expect(p.wrapper.entered == 1 and q.wrapper.entered == 0, 'its own wrapper')
    q.dataReceived(wire([('_command', 'Do'), ('_ask', '1'), ('word', 'w')]))
    expect(p.wrapper.entered == 1 and q.wrapper.entered == 1, 'its own wrapper')
    before, p.wrapper = p.wrapper, Wrapper()
    p.dataReceived(wire([('_command', 'Do'), ('_ask', '2'), ('word', 'w')]))
    expect(p.wrapper.entered == 1 and before.entered == 1, 'the wrapper it has now')
    cover('per connection')
