"""C15: a command is callable only from the namespaces that allow it."""
from verif import sym_str, choose, expect, expect_eq, cover, fail, note
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure
from epsilon import juice
from jlib import Transport, Outcome, text, wire, sent, logged

COVER = ('called', 'wrong namespace', 'unknown name', 'no namespace', 'spelling', 'old style', 'old style refused',
         'over the wire', 'uncallable')


class Open(juice.Command):
    commandName = 'Open-Door'
    arguments = [('x', juice.String())]
    response = [('y', juice.String())]


class Guarded(Open):
    commandName = 'Guarded'
    namespaces = ['admin', 'root']


class Both(Open):
    commandName = 'Both'
    namespaces = [None, 'admin']


class Never(Open):
    commandName = 'Never'
    namespaces = []


class Peer(juice.Juice):
    def __init__(self):
        juice.Juice.__init__(self, True)
        self.ran = []

    def command_OPEN_DOOR(self, x):
        self.ran.append(('OPEN_DOOR', x))
        return dict(y='1')
    command_OPEN_DOOR.command = Open

    def command_GUARDED(self, x):
        self.ran.append(('GUARDED', x))
        return dict(y='2')
    command_GUARDED.command = Guarded

    def command_BOTH(self, x):
        self.ran.append(('BOTH', x))
        return dict(y='3')
    command_BOTH.command = Both

    def command_NEVER(self, x):
        self.ran.append(('NEVER', x))
        return dict(y='4')
    command_NEVER.command = Never

    def juice_OLD_ONE(self, box):
        self.ran.append(('OLD_ONE', box['x']))
        return juice.Box(y='5')


ALLOWED = {'OPEN_DOOR': [None], 'GUARDED': ['admin', 'root'], 'BOTH': [None, 'admin'], 'NEVER': []}
SPELLINGS = {'OPEN_DOOR': ('Open-Door', 'open_door', 'OPEN-DOOR', 'oPeN-dOoR'),
             'GUARDED': ('Guarded', 'guarded', 'GUARDED'), 'BOTH': ('Both', 'bOTH'), 'NEVER': ('Never',),
             'OLD_ONE': ('Old-One', 'OLD_ONE', 'old-one')}


def connect():
    p = Peer()
    t = Transport()
    p.makeConnection(t)
    return p, t


def refused(o):
    expect(len(o.calls) == 1 and o.calls[0][0] == 'error', 'the caller is refused')
    expect(isinstance(o.calls[0][1], juice.UnhandledCommand), 'with an unhandled command error')


def check_namespaces():
    p, t = connect()
    name = choose(sorted(SPELLINGS), 'command')
    spelling = choose(SPELLINGS[name], 'spelling')
    which = choose(('none', 'admin', 'root', 'empty', 'any'), 'namespace')
    ns = {'none': None, 'admin': 'admin', 'root': 'root', 'empty': '', 'any': text('namespace')}[which]
    x = text('x')
    out = p.dispatchCommand(p, spelling, juice.Box(x=x), ns) if which != 'none' or choose(2, 'explicit None') \
        else p.dispatchCommand(p, spelling, juice.Box(x=x))
    o = Outcome(out)
    if name == 'OLD_ONE':
        allowed = which == 'none'
    else:
        allowed = False
        for a in ALLOWED[name]:
            if (a is None) == (ns is None) and a == ns:
                allowed = True
    if allowed:
        expect(p.ran == [(name, x)], 'the responder of that command runs, once')
        expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'and its result is returned')
        cover('called')
        if which == 'none':
            cover('no namespace')
        if spelling.upper() != spelling:
            cover('spelling')
        if name == 'OLD_ONE':
            cover('old style')
    else:
        expect(p.ran == [], 'the responder is not run')
        if name == 'OLD_ONE':
            cover('old style refused')
        refused(o)
        cover('wrong namespace')
        if name == 'NEVER':
            cover('uncallable')


def check_unknown():
    p, t = connect()
    name = sym_str('name', excl=(' ', '\t', '\n', '\r', '\x0b', '\x0c'), ascii=True, nonempty=True)
    norm = name.upper().replace('-', '_')
    for n in sorted(SPELLINGS) + ['NEGOTIATE']:    # Negotiate is the one command every juice peer has
        if norm == n:
            return
    o = Outcome(p.dispatchCommand(p, name, juice.Box(x='x'), choose((None, 'admin'), 'namespace')))
    expect(p.ran == [], 'no responder is run')
    refused(o)
    cover('unknown name')


def check_wire():
    """commands arriving over the wire belong to no namespace"""
    p, t = connect()
    name = choose(sorted(SPELLINGS) + ['MISSING'], 'command')
    spelling = choose(SPELLINGS.get(name, ('Missing',)), 'spelling')
    x = text('x')
    p.dataReceived(wire([('_command', spelling), ('_ask', '7'), ('x', x)]))
    box = sent(t)
    expect(len(box) == 1, 'one reply')
    if name == 'OLD_ONE' or None in ALLOWED.get(name, []):
        expect(p.ran == [(name, x)], 'the responder runs once')
        expect('_answer' in box[0], 'and answers')
    else:
        expect(p.ran == [], 'the responder is not run')
        expect('_error' in box[0], 'the caller is refused')
    cover('over the wire')


def check_caller():
    """the calling side names the namespace before the command"""
    p, t = connect()
    ns = choose((None, 'admin'), 'namespace')
    o = Outcome(Both(x='y').do(p) if ns is None and choose(2, 'default') else Both(x='y').do(p, namespace=ns))
    expect_eq(sent(t)[0]['_command'], 'Both' if ns is None else 'admin:Both', 'the command is named with its namespace')
