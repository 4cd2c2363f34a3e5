"""C14: remote errors are reported exactly as declared and nothing else leaks."""
from verif import sym_str, choose, expect, expect_eq, cover, fail, mentions, note, show
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure
from twisted.python import log
from epsilon import juice
from jlib import Transport, Outcome, text, wire, sent, logged

COVER = ('declared', 'fatal', 'subclass', 'undeclared', 'remote', 'old style', 'caller: declared', 'caller: unknown code',
         'caller: fatal', 'inherited', 'end to end', 'unhandled by the caller', 'not asked')


class Mild(Exception):
    pass


class Milder(Mild):
    pass


class Grave(Exception):
    pass


class Graver(Grave):
    pass


class Other(Exception):
    pass


class Odd(Exception):
    pass


class Awful(Exception):
    pass


class Do(juice.Command):
    commandName = 'Do'
    response = [('y', juice.String())]
    errors = {Mild: 'MILD'}
    fatalErrors = {Grave: 'GRAVE'}


class OnlyFatal(juice.Command):
    commandName = 'Only'
    fatalErrors = {Grave: 'GRAVE'}


class Plain(juice.Command):
    commandName = 'Plain'


class Derived(Do):
    commandName = 'Derived'
    errors = {Other: 'OTHER'}


class Many(juice.Command):
    commandName = 'Many'
    errors = {Odd: 'ODD', Mild: 'MILD', ValueError: 'KEY'}
    fatalErrors = {Awful: 'AWFUL', Grave: 'GRAVE'}


class Kin(juice.Command):
    commandName = 'Kin'
    errors = {Milder: 'MILDER', Grave: 'GRAVE'}
    fatalErrors = {Mild: 'MILD', Graver: 'GRAVER'}


class Inheriting(Do):
    commandName = 'Inheriting'


class Peer(juice.Juice):
    outcome = None

    def __init__(self, server=True):
        juice.Juice.__init__(self, server)

    def respond(self):
        e = self.outcome
        how = choose(('raise', 'failed', 'later'), 'moment')
        if how == 'raise':
            raise e
        d = self.d = Deferred()
        if how == 'failed':
            d.errback(Failure(e))
        return d

    d = None

    def command_DO(self):
        return self.respond()
    command_DO.command = Do

    def command_ONLY(self):
        return self.respond()
    command_ONLY.command = OnlyFatal

    def command_PLAIN(self):
        return self.respond()
    command_PLAIN.command = Plain

    def command_INHERITING(self):
        return self.respond()
    command_INHERITING.command = Inheriting

    def command_MANY(self):
        return self.respond()
    command_MANY.command = Many

    def command_KIN(self):
        return self.respond()
    command_KIN.command = Kin

    def command_DERIVED(self):
        return self.respond()
    command_DERIVED.command = Derived

    def juice_OLD(self, box):
        return self.respond()


def connect(server=True):
    p = Peer(server)
    t = Transport()
    p.makeConnection(t)
    return p, t


def run(p, t, e, cmd, tag):
    p.outcome = e
    p.dataReceived(wire([('_command', cmd), ('_ask', tag)]))
    if p.d is not None and not p.d.called:
        expect(t.events == [], 'no reply before the responder is done')
        p.d.errback(Failure(e))


def one_error(t, tag):
    expect(len(t.events) > 0 and t.events[0][0] == 'write', 'the reply is sent first')
    got = sent(t)
    expect(len(got) == 1, 'one reply')
    expect(set(got[0]) == {'_error', '_error_code', '_error_description'}, 'an error reply has code and description only')
    expect_eq(got[0]['_error'], tag, 'the tag of the question')
    return got[0]


def check_responder():
    p, t = connect()
    tag, msg = text('tag'), text('message')
    kind = choose((Mild, Milder, Grave, Graver, Other, ValueError, KeyError, Odd, Awful), 'exception')
    cmd = choose(('Do', 'Old', 'Only', 'Inheriting', 'Derived', 'Many', 'Plain', 'Kin'), 'command')
    both = {Mild: ('MILD', False), Grave: ('GRAVE', True)}
    table = {'Do': both, 'Inheriting': both, 'Only': {Grave: ('GRAVE', True)}, 'Old': {}, 'Plain': {},
             'Many': {Odd: ('ODD', False), Mild: ('MILD', False), ValueError: ('KEY', False), Awful: ('AWFUL', True), Grave: ('GRAVE', True)},
             'Kin': {Milder: ('MILDER', False), Mild: ('MILD', True), Grave: ('GRAVE', False), Graver: ('GRAVER', True)},
             'Derived': {Other: ('OTHER', False), Grave: ('GRAVE', True)}}[cmd]
    if cmd == 'Derived' and issubclass(kind, Mild):
        return      # whether a declaration replaces or extends the inherited one is not stated
    if cmd in ('Inheriting', 'Derived'):
        cover('inherited')
    log.events[:] = []
    run(p, t, kind(msg), cmd, tag)
    box = one_error(t, tag)
    decl = [table[k] for k in kind.__mro__ if k in table]
    if decl:
        code, fatal = decl[0]
        expect_eq(box['_error_code'], code, 'a declared error is reported with the declared code')
        expect_eq(box['_error_description'], msg, 'and the message of the error')
        expect(t.lost() == (1 if fatal else 0), 'the connection is closed exactly if the error is declared fatal')
        cover('fatal' if fatal else 'declared')
        if kind not in table:
            cover('subclass')
    else:
        expect_eq(box['_error_code'], 'UNHANDLED', 'an undeclared error is reported as unhandled')
        expect(not mentions(box, msg), 'no detail of an undeclared error is sent')
        expect(box['_error_description'].startswith('Unhandled'), 'with a generic description')
        expect(kind.__name__ not in box['_error_description'], 'without the kind of error')
        expect(t.lost() == 1, 'and the connection is closed')
        expect(len([e for e in logged() if isinstance(e[1].value, kind)]) == 1, 'it is logged locally')
        cover('undeclared')
        if cmd == 'Old':
            cover('old style')
    expect(t.events[1:] == [('lose',)] * t.lost(), 'the connection is closed only after the reply')


def check_fixed_description():
    """the generic description is the same for every undeclared failure"""
    seen = []
    for e in (Other('secret'), ValueError(), KeyError('another')):
        p, t = connect()
        p.outcome = e
        p.juice_OLD = lambda box: dfail(e)
        p.dataReceived(wire([('_command', 'Old'), ('_ask', '1')]))
        seen.append(sent(t)[0]['_error_description'])
    expect(seen[0] == seen[1] == seen[2], 'the generic description tells nothing about the failure')


def dfail(e):
    d = Deferred()
    d.errback(Failure(e))
    return d


def check_remote_error():
    """a remote juice error keeps its code and description"""
    p, t = connect()
    tag, code, desc = text('tag'), text('code'), text('desc')
    run(p, t, juice.RemoteJuiceError(code, desc), choose(('Do', 'Old'), 'command'), tag)
    box = one_error(t, tag)
    if box['_error_code'] == 'UNHANDLED' and code != 'UNHANDLED':
        fail('a remote error keeps its code')
    expect_eq(box['_error_code'], code, 'a remote error keeps its code')
    expect_eq(box['_error_description'], desc, 'and description')
    expect(t.lost() == 0, 'and leaves the connection open')
    cover('remote')


def check_caller():
    """codes become the exceptions the command declares"""
    p, t = connect(False)
    cls, table = choose(((Do, {'MILD': Mild, 'GRAVE': Grave}), (OnlyFatal, {'GRAVE': Grave}), (Plain, {}),
                         (Inheriting, {'MILD': Mild, 'GRAVE': Grave}),
                         (Many, {'ODD': Odd, 'MILD': Mild, 'KEY': ValueError, 'AWFUL': Awful, 'GRAVE': Grave}), (Derived, {'OTHER': Other, 'GRAVE': Grave})), 'command')
    o = Outcome(cls().do(p))
    tag = sent(t)[0]['_ask']
    kind = choose(('MILD', 'GRAVE', 'OTHER', 'UNHANDLED', 'ODD', 'KEY', 'AWFUL', 'any'), 'code')
    code = text('code') if kind == 'any' else kind
    desc = text('desc')
    n = len(t.events)
    p.dataReceived(wire([('_error', tag), ('_error_code', code), ('_error_description', desc)]))
    expect(len(o.calls) == 1 and o.calls[0][0] == 'error', 'the caller gets one error')
    e = o.calls[0][1]
    want = None
    for c in table:
        if code == c:
            want = table[c]
    if cls is Derived and code == 'MILD':
        return      # whether a declaration replaces or extends the inherited one is not stated
    if want is not None:
        expect(type(e) is want, 'a declared code becomes the declared exception')
        expect_eq(str(e), desc, 'with the description')
        cover('caller: fatal' if want is Grave else 'caller: declared')
    else:
        expect(type(e) not in (Mild, Grave, Other, Odd, Awful, ValueError),
               'an undeclared code does not become a declared exception')
        expect(isinstance(e, juice.RemoteJuiceError), 'any other code becomes a generic remote error')
        expect_eq(e.description, desc, 'with the description')
        expect(mentions(str(e), desc), 'also in its text')
        cover('caller: unknown code')
    expect(t.events[n:] == [], 'a handled error does not close the connection')


def check_plain_caller():
    """without a declaration the caller gets the code and the description as they were sent"""
    p, t = connect(False)
    o = Outcome(p.sendCommand('X') if choose(2, 'how') else p.sendBoxCommand('X', juice.Box()))
    code, desc = text('code'), text('desc')
    p.dataReceived(wire([('_error', sent(t)[0]['_ask']), ('_error_code', code), ('_error_description', desc)]))
    expect(len(o.calls) == 1 and o.calls[0][0] == 'error', 'the caller gets one error')
    e = o.calls[0][1]
    expect(isinstance(e, juice.RemoteJuiceError), 'a remote error')
    expect_eq(e.errorCode, code, 'with the code')
    expect_eq(e.description, desc, 'and the description')
    expect(mentions(str(e), desc) and mentions(str(e), code), 'both also in its text')
    expect(t.lost() == 0, 'a handled error does not close the connection')


def check_not_asked():
    """the failure of a command which asks for no answer is logged and closes the connection"""
    p, t = connect()
    kind = choose((Mild, Grave, Other, ValueError), 'exception')
    cmd = choose(('Do', 'Old', 'Only'), 'command')
    log.events[:] = []
    p.outcome = kind('message')
    p.dataReceived(wire([('_command', cmd)]))
    if p.d is not None and not p.d.called:
        expect(t.events == [], 'nothing before the responder is done')
        p.d.errback(Failure(p.outcome))
    expect(t.written() == [], 'nothing is sent')
    expect(t.lost() == 1, 'the connection is closed')
    expect(len(logged()) == 1, 'and the failure is logged')
    cover('not asked')


def check_nobody():
    """an error reply the caller does not handle is logged and closes the connection, an answer does not"""
    p, t = connect(False)
    n = choose((0, 1), 'handlers')
    log.events[:] = []
    d = p.sendBoxCommand('X', juice.Box())
    other = Outcome(p.sendBoxCommand('Y', juice.Box()))
    for i in range(n):
        d.addErrback(lambda f: None)
    tag = sent(t)[0]['_ask']
    how = choose(('error', 'answer', 'handler fails'), 'reply')
    if how == 'error':
        p.dataReceived(wire([('_error', tag), ('_error_code', text('code')), ('_error_description', 'd')]))
    else:
        if how == 'handler fails':
            d.addCallback(lambda r: 1 // 0)
        p.dataReceived(wire([('_answer', tag)]))
    bad = how == 'handler fails' or (how == 'error' and n == 0)
    expect(t.lost() == (1 if bad else 0), 'the connection is closed exactly if a failure is left unhandled')
    expect(len(logged()) == (1 if bad else 0), 'and the failure is logged')
    expect(other.calls == [], 'other requests wait')
    if bad:
        cover('unhandled by the caller')


def check_end_to_end():
    """what the responder raises is what the caller gets"""
    c, ct = connect(False)
    s, t = connect()
    msg = text('message')
    kind = choose((Mild, Grave, Other), 'exception')
    o = Outcome(Do().do(c))
    s.outcome = kind(msg)
    s.dataReceived(ct.written()[0])
    if s.d is not None and not s.d.called:
        s.d.errback(Failure(s.outcome))
    for w in t.written():
        c.dataReceived(w)
    expect(len(o.calls) == 1 and o.calls[0][0] == 'error', 'the caller gets one error')
    e = o.calls[0][1]
    if kind is Other:
        expect(isinstance(e, juice.RemoteJuiceError) and not mentions(e.description, msg), 'a generic remote error')
    else:
        expect(type(e) is kind, 'the declared exception')
        expect_eq(str(e), msg, 'with its message')
    cover('end to end')
