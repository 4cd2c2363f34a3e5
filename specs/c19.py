"""C19: typed command arguments arrive as the values that were sent."""
from verif import choose, expect, expect_eq, cover, sym_bytes, sym_str, sym_int, sym_float, assume
from twisted.internet.defer import Deferred, succeed
from twisted.python.filepath import FilePath
from epsilon import juice
from epsilon.extime import Time
from xlib import us_of, res_of, a_time, DAY, US
from jlib import Transport, Outcome, text, wire, unwire

COVER = ('integer', 'string', 'unicode', 'encoded', 'path', 'float', 'base64', 'boolean', 'list', 'nested list',
         'structures', 'nested structures', 'empty list', 'absent', 'explicit none', 'falsy optional', 'missing', 'refused list',
         'malformed', 'undeclared', 'response', 'body', 'missing on the wire', 'undecodable response', 'negotiated', 'time', 'untouched', 'names')

PLAIN = {'integer': juice.Integer(), 'string': juice.String(), 'unicode': juice.Unicode(), 'encoded': juice.EncodedString('utf-8'),
         'path': juice.Path(), 'float': juice.Float(), 'base64': juice.Base64Binary(), 'boolean': juice.Boolean()}
OPTIONAL = {'integer': juice.Integer(optional=True), 'string': juice.String(optional=True),
            'unicode': juice.Unicode(optional=True), 'float': juice.Float(True), 'base64': juice.Base64Binary(optional=True),
            'boolean': juice.Boolean(optional=True), 'path': juice.Path(optional=True)}


class Wrapped(juice.ListOf):
    pass


COMMANDS = {}


def command(key, arg, name='value'):
    class Cmd(juice.Command):
        commandName = 'Cmd'
        arguments = [(name, arg)]
        response = [(name, arg)]
    COMMANDS[key] = Cmd
    return Cmd


for _k in sorted(PLAIN):
    command(_k, PLAIN[_k])
for _k in sorted(OPTIONAL):
    command('optional ' + _k, OPTIONAL[_k])
command('body', juice.Body(), 'body')
command('time', juice.Time())


def peer(cmd, answer=None):
    class Server(juice.Juice):
        ran = 0

        def command_CMD(self, **kw):
            self.ran += 1
            self.got = kw
            if answer is not None:
                return answer()
            return dict(kw)
        command_CMD.command = cmd
    return Server


def exchange(cmd, kw, answer=None):
    """send the command; returns (server, result outcome, bytes sent)"""
    server = peer(cmd, answer)(True)
    client = juice.Juice(False)
    st, ct = Transport(), Transport()
    server.makeConnection(st)
    client.makeConnection(ct)
    o = Outcome(cmd(**kw).do(client))
    data = b''.join(ct.written())
    server.dataReceived(data)
    reply = b''.join(st.written())
    client.dataReceived(reply)
    return server, o, data


def same(a, b, msg):
    if isinstance(b, FilePath):
        expect(isinstance(a, FilePath), msg)
        expect_eq(a.path, b.path, msg)
        return
    if b is None or isinstance(b, bool):
        expect(a is b, msg)
        return
    if isinstance(b, list):
        expect(isinstance(a, list) and len(a) == len(b), msg)
        for x, y in zip(a, b):
            same(x, y, msg)
        return
    if isinstance(b, dict):
        expect(isinstance(a, dict) and sorted(a) == sorted(b), msg)
        for k in b:
            same(a[k], b[k], msg)
        return
    for t in (str, bytes, int, float):
        if isinstance(b, t):
            expect(isinstance(a, t), msg)
    expect_eq(a, b, msg)


def verify(server, o, cmd, want):
    expect(server.ran == 1, 'the responder runs once')
    expect(sorted(server.got) == sorted(want), 'exactly the declared arguments are passed')
    for k in want:
        same(server.got[k], want[k], 'the argument has the value sent')
    expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'the command is answered')
    same(o.calls[0][1], want, 'the response has the value sent')


def value(kind, name='v', odd=True):
    if kind == 'integer':
        return sym_int(name)
    if kind in ('string', 'unicode', 'encoded', 'body'):
        v = sym_str(name, excl=('\r', '\n'))
        if odd and choose(2, 'line break'):
            v = v + '\r\n' + sym_str(name + '2', excl=('\r', '\n'))
        return v
    if kind == 'path':
        return FilePath('/' + sym_str(name, excl=('\r', '\n')))
    if kind == 'float':
        return choose((0.0, 1.5, -2.25, 1e300, float('inf')), 'float') if choose(2, 'float kind') else sym_float(name)
    if kind == 'base64':
        return sym_bytes(name) if choose(2, 'binary') else b''
    return choose((True, False), 'boolean')


def check_plain():
    kind = choose(sorted(PLAIN), 'type')
    v = value(kind)
    cmd = COMMANDS[kind]
    s, o, data = exchange(cmd, {'value': v})
    verify(s, o, cmd, {'value': v})
    cover(kind)
    cover('response')


def check_time():
    """times of any instant and resolution"""
    unit = choose(('day', 'second', 'fraction'), 'resolution')
    size = {'day': DAY, 'second': US, 'fraction': 1}[unit]
    t = a_time(sym_int('instant of ' + unit, 367 * DAY // size, 3650000 * DAY // size) * size,
               1 if unit == 'fraction' else size)
    cmd = COMMANDS['time']
    s, o, data = exchange(cmd, {'value': t})
    expect(s.ran == 1, 'the responder runs once')
    expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'the command is answered')
    for got in (s.got['value'], o.calls[0][1]['value']):
        expect(isinstance(got, Time), 'a time')
        expect_eq(us_of(got), us_of(t), 'the instant sent')
        if unit != 'fraction':
            expect_eq(res_of(got), res_of(t), 'the resolution sent')
    cover('time')


def check_body():
    v = value('body')
    cmd = COMMANDS['body']
    s, o, data = exchange(cmd, {'body': v})
    verify(s, o, cmd, {'body': v})
    cover('body')


def check_optional():
    kind = choose(sorted(OPTIONAL), 'type')
    cmd = COMMANDS['optional ' + kind]
    how = choose(('absent', 'none', 'value', 'falsy'), 'value')
    if how == 'absent':
        kw, want = {}, None
        cover('absent')
    elif how == 'none':
        kw, want = {'value': None}, None
        cover('explicit none')
    elif how == 'value':
        want = value(kind)
        kw = {'value': want}
    else:
        want = {'integer': 0, 'string': '', 'unicode': '', 'float': 0.0, 'base64': b'', 'boolean': False,
                'path': FilePath('')}[kind]
        kw = {'value': want}
        cover('falsy optional')
    s, o, data = exchange(cmd, kw)
    verify(s, o, cmd, {'value': want})
    if want is None:
        expect(b'Value' not in data, 'an absent argument puts nothing on the wire')
    else:
        expect(b'Value' in data, 'a given argument is sent')


ELEMENTS = {'integer': juice.Integer(), 'string': juice.String(), 'boolean': juice.Boolean(), 'unicode': juice.Unicode(),
            'base64': juice.Base64Binary()}
LISTS = dict((k, command('list ' + k, juice.ListOf(ELEMENTS[k]))) for k in sorted(ELEMENTS))
NESTED = command('nested list', juice.ListOf(juice.ListOf(juice.Integer(), delimiter=';'), delimiter='|'))
DASHES = command('dashes', juice.ListOf(juice.String(), delimiter='--'))


def element(kind, i, n):
    if kind in ('string', 'unicode'):
        # never the delimiter, but any part of it
        v = sym_str('e%d' % i, excl=('\r', '\n', ','), nonempty=n == 1)
        if i == 0 and choose(2, 'part of a delimiter'):
            v = v + choose((',', ',x', ' ,'), 'tail')
        return v
    if kind == 'base64':
        return sym_bytes('e%d' % i, nonempty=n == 1)
    return value(kind, 'e%d' % i)


def check_list():
    kind = choose(sorted(LISTS), 'element type')
    n = choose(4 if kind in ('integer', 'string') else 3, 'elements')
    vs = [element(kind, i, n) for i in range(n)]
    cmd = LISTS[kind]
    s, o, data = exchange(cmd, {'value': vs})
    verify(s, o, cmd, {'value': vs})
    cover('list' if n else 'empty list')


def check_nested_list():
    n = choose(3, 'lists')
    vs = []
    for i in range(n):
        m = choose(3, 'elements')
        if n == 1 and m == 0:
            return          # refused, see below
        vs.append([sym_int('e%d%d' % (i, k)) for k in range(m)])
    s, o, data = exchange(NESTED, {'value': vs})
    verify(s, o, NESTED, {'value': vs})
    cover('nested list')


def check_refused_list():
    which = choose(('delimiter', 'one empty', 'nested empty', 'overlap', 'inner delimiter'), 'content')
    a = sym_str('a', excl=('\r', '\n'))
    cmd = LISTS['string']
    if which == 'delimiter':
        vs = [a + ', ' + sym_str('b', excl=('\r', '\n'))] + choose(([], ['x']), 'more')
    elif which == 'one empty':
        vs = ['']
    elif which == 'nested empty':
        cmd, vs = NESTED, [[]]
    elif which == 'overlap':
        cmd, vs = DASHES, ['a-', 'b']
    else:
        cmd, vs = DASHES, ['x', 'a--b']
    client = juice.Juice(False)
    t = Transport()
    client.makeConnection(t)
    try:
        cmd(value=vs).do(client)
        refused = False
    except AssertionError:
        refused = True
    expect(refused, 'content that could not be told apart is refused')
    expect(t.events == [], 'before anything is sent')
    cover('refused list')


INNER = [('number', juice.Integer()), ('text', juice.String(optional=True))]
STRUCTS = command('structs', juice.JuiceList(INNER))
DEEP = command('deep', juice.JuiceList([('name', juice.Unicode()), ('items', juice.JuiceList(INNER)),
                                        ('flags', juice.ListOf(juice.Boolean()))]))


def struct(i):
    d = {'number': sym_int('n%d' % i)}
    how = choose(('absent', 'text', 'break'), 'text')
    if how != 'absent':
        d['text'] = sym_str('t%d' % i, excl=('\r', '\n'))
        if how == 'break':
            d['text'] = d['text'] + '\r\n' + sym_str('u%d' % i, excl=('\r', '\n'))
    return d


def filled(d):
    d = dict(d)
    d.setdefault('text', None)
    return d


def check_structures():
    n = choose(3, 'structures')
    vs = [struct(i) for i in range(n)]
    before = [dict(v) for v in vs]
    s, o, data = exchange(STRUCTS, {'value': vs})
    expect(vs == before, 'the values given are left as they were')
    verify(s, o, STRUCTS, {'value': [filled(v) for v in vs]})
    cover('structures')


def check_deep():
    n = choose(3, 'structures')
    vs, want = [], []
    for i in range(n):
        items = [struct(i * 10 + k) for k in range(choose(3 if n == 1 else 2, 'items') if i == 0 else 1)]
        flags = [True, False][:choose(3, 'flags') if i == 0 else 1]
        name = sym_str('name%d' % i, excl=('\r', '\n'))
        vs.append({'name': name, 'items': items, 'flags': flags})
        want.append({'name': name, 'items': [filled(x) for x in items], 'flags': flags})
    s, o, data = exchange(DEEP, {'value': vs})
    verify(s, o, DEEP, {'value': want})
    cover('nested structures')


def check_untouched():
    """decoding leaves the box as it was, so that it can be decoded again"""
    args = [('number', juice.Integer()), ('text', juice.String(optional=True)), ('body', juice.Body(optional=True))]
    proto = juice.Juice(False)
    given = {'number': sym_int('n')}
    if choose(2, 'text'):
        given['text'] = text('t')
    if choose(2, 'body'):
        given['body'] = text('b')
    keep = dict(given)
    box = juice.objectsToStrings(given, args, juice.Box(), proto)
    expect(given == keep, 'encoding leaves the values as they were')
    keep = dict(box)
    want = {'number': given['number'], 'text': given.get('text'), 'body': given.get('body')}
    for i in range(2):
        same(juice.stringsToObjects(box, args, proto), want, 'the values sent')
        expect(dict(box) == keep, 'decoding leaves the box as it was')
    cover('untouched')


class Two(juice.Command):
    commandName = 'Cmd'
    arguments = [('first', juice.Integer()), ('other_one', juice.String()), ('third', juice.String(optional=True))]
    response = []


def check_missing():
    """a missing required argument is refused before anything is sent"""
    client = juice.Juice(False)
    t = Transport()
    client.makeConnection(t)
    given = {}
    if choose(2, 'first'):
        given['first'] = sym_int('x')
    if choose(2, 'other'):
        given[choose(('other_one', 'Other_One', 'other-one'), 'spelling')] = text('y')
    if choose(2, 'third'):
        given['third'] = 'z'
    full = 'first' in given and len([k for k in given if k.lower().startswith('other')]) == 1
    try:
        Two(**given).do(client)
        sent = True
    except RuntimeError:
        sent = False
    expect(sent == full, 'a command is sent exactly if every required argument is given')
    if not full:
        expect(t.events == [], 'nothing is sent')
        cover('missing')
    else:
        box = unwire(t.written()[0])
        names = ['first', 'other_one'] + (['third'] if 'third' in given else [])
        expect(sorted(k for k in box if not k.startswith('_')) == names, 'exactly the given arguments are sent')


def check_wire():
    """input that is malformed, incomplete or not declared"""
    server = peer(Two, dict)(True)
    t = Transport()
    server.makeConnection(t)
    how = choose(('malformed', 'missing', 'undeclared', 'reserved'), 'input')
    fields = [('_command', 'Cmd'), ('_ask', '1')]
    if how == 'malformed':
        fields.append(('first', choose(('', 'x1', '1.5', '1 2', '--1'), 'bad number')))
    else:
        fields.append(('first', '12'))
    if how != 'missing':
        fields.append(('other_one', text('y')))
    if how == 'undeclared':
        fields.append((choose(('extra', 'self', 'value', 'kw'), 'name'), text('z')))
    server.dataReceived(wire(fields))
    boxes = [unwire(w) for w in t.written()]
    expect(len(boxes) == 1, 'one reply')
    if how in ('malformed', 'missing'):
        expect(server.ran == 0, 'the responder is not run')
        expect('_error' in boxes[0], 'the caller is refused')
        cover('malformed' if how == 'malformed' else 'missing on the wire')
    else:
        expect(server.ran == 1, 'the responder runs once')
        expect(sorted(server.got) == ['first', 'other_one', 'third'], 'only declared arguments are passed')
        expect(server.got['third'] is None and server.got['first'] == 12, 'with their values')
        cover('undeclared')


def check_boolean_wire():
    server = peer(COMMANDS['boolean'], lambda: dict(value=True))(True)
    t = Transport()
    server.makeConnection(t)
    v = choose(('any', 'true', 'TRUE', '', '1', 'False ', 'None'), 'text')
    if v == 'any':
        v = text('v')
        assume(v != 'True')
        assume(v != 'False')
    server.dataReceived(wire([('_command', 'Cmd'), ('_ask', '1'), ('value', v)]))
    expect(server.ran == 0, 'what is not a boolean never reaches the responder')
    expect('_error' in unwire(t.written()[0]), 'the caller is refused')


def check_bad_response():
    """a response that cannot be decoded never reaches the caller as a value"""
    client = juice.Juice(False)
    t = Transport()
    client.makeConnection(t)
    o = Outcome(COMMANDS['integer'](value=1).do(client))
    tag = unwire(t.written()[0])['_ask']
    if choose(2, 'missing'):
        client.dataReceived(wire([('_answer', tag)]))
    else:
        client.dataReceived(wire([('_answer', tag), ('value', choose(('', 'x', '0x10', '1e3'), 'bad number'))]))
    expect(len(o.calls) == 1 and o.calls[0][0] == 'error', 'the caller gets an error')
    cover('undecodable response')


def check_negotiate():
    """the negotiation command of every peer uses a list and an integer"""
    a, b = juice.Juice(True), juice.Juice(False)
    at, bt = Transport(), Transport()
    a.makeConnection(at)
    b.makeConnection(bt)
    o = Outcome(b.renegotiateVersion(1))
    a.dataReceived(b''.join(bt.written()))
    b.dataReceived(b''.join(at.written()))
    expect(a.protocolVersion == 1 and b.protocolVersion == 1, 'both sides agree on the version')
    expect(o.calls == [('ok', 1)], 'and the caller is told')
    cover('negotiated')


def check_names():
    """arguments whose names are words of Python travel under the capitalized word"""
    class Cmd(juice.Command):
        commandName = 'Cmd'
        arguments = [('Class', juice.String()), ('In', juice.String(optional=True)), ('two_words', juice.Integer())]
        response = arguments
    want = {'Class': sym_str('class', excl=('\r', '\n')), 'In': choose((None, '', 'x'), 'optional'), 'two_words': sym_int('number')}
    given = dict(want)
    if want['In'] is None and choose(2, 'left out'):
        del given['In']
    s, o, data = exchange(Cmd, given)
    verify(s, o, Cmd, want)
    cover('names')
