"""C18: boxes survive the wire whatever the chunking and the content."""
from verif import choose, expect, expect_eq, cover, sym_bytes, sym_str, sym_int, assume
from epsilon import juice
from jlib import Transport, text, wire

COVER = ('plain', 'breaks', 'separators', 'body', 'empty body', 'two boxes', 'cut', 'two cuts', 'malformed', 'empty value',
         'parsed', 'names', 'arrives alone', 'cut in value', 'cut in body')


class Peer(juice.Juice):
    def __init__(self):
        juice.Juice.__init__(self, False)
        self.got = []

    def juiceBoxReceived(self, box):
        self.got.append(box)


def connect():
    p = Peer()
    t = Transport()
    p.makeConnection(t)
    return p, t


SEPARATORS = ('\r\n', '\n', '\r', '\r\n ', ': ', '\r\n\r\n', '\n\r\n', '\r\nX: ', ' \r\n', '\r\n-Length: 3\r\n\r\n', '\r\r\n')


def value(name, breaks=None):
    """any text, with line breaks and separators in any place of interest"""
    if breaks is None:
        breaks = choose(4, 'breaks of ' + name)
    if breaks == 3:
        cover('empty value')
        return ''
    v = sym_str(name + '0', excl=('\r', '\n'))
    for i in range(breaks):
        sep = choose(SEPARATORS if i == 0 else SEPARATORS[:3], 'separator')
        v = v + sep + sym_str(name + str(i + 1), excl=('\r', '\n'))
        cover('breaks' if sep.strip() == '' else 'separators')
    return v


def same(got, want):
    expect(isinstance(got, juice.Box), 'boxes are received')
    expect(sorted(got) == sorted(want), 'the same fields are received')
    for k in want:
        expect_eq(got[k], want[k], 'every field has the value sent')


def serialized(p, t, fields):
    """what one peer writes for a box"""
    n = len(t.events)
    b = juice.Box()
    for k in fields:
        b[k] = fields[k]
    b.sendTo(p)
    return b''.join(t.written()[n:])


def check_one():
    s, st = connect()
    r, rt = connect()
    fields = {choose(('first', '_error_description'), 'field'): value('v'), '_command': 'Cmd'}
    cover('plain')
    b = choose(3, 'body')
    if b:
        fields['body'] = sym_str('body') if b == 1 else ''
        cover('body' if b != 2 else 'empty body')
    data = serialized(s, st, fields)
    r.dataReceived(data)
    expect(len(r.got) == 1, 'one box is received, at once')
    same(r.got[0], fields)
    cover('arrives alone')
    # the stream is aligned: the next box is received as well
    r.dataReceived(b'X: 1\r\n\r\n')
    expect(len(r.got) == 2, 'the next box starts after it')
    same(r.got[1], {'x': '1'})
    expect(rt.events == [], 'nothing is written')


def check_two_values():
    s, st = connect()
    r, rt = connect()
    fields = {'first': value('v', 1), 'other': value('w', 1)}
    if choose(2, 'body'):
        fields['body'] = '\r\n\r\n: x' + sym_str('body')
    data = serialized(s, st, fields)
    r.dataReceived(data + b'X: 1\r\n\r\n')
    expect(len(r.got) == 2, 'two boxes')
    same(r.got[0], fields)
    same(r.got[1], {'x': '1'})


def check_names():
    s, st = connect()
    name = choose(('a', 'A', 'foo_bar', 'FooBar', 'foo-bar', '_private', 'x1y', "it's", 'a_', '__x', 'a.b', 'a:b', 'body_2'), 'name')
    v = text('v')
    data = serialized(s, st, {name: v})
    r, rt = connect()
    r.dataReceived(data)
    expect(len(r.got) == 1, 'one box')
    same(r.got[0], {name.lower().replace('-', '_'): v})
    cover('names')


def deliver(r, data, cuts):
    start = 0
    for i in range(cuts):
        k = sym_int('cut%d' % i, 0)
        assume(start < k)
        assume(k <= len(data))
        r.dataReceived(data[start:k])
        start = k
    r.dataReceived(data[start:])


def check_cut():
    """any cut of the stream of a box with simple fields and a body"""
    s, st = connect()
    r, rt = connect()
    fields = {'f': sym_str('v', excl=('\r', '\n'))}
    if choose(2, 'break'):
        fields['f'] += '\r\n' + sym_str('w', excl=('\r', '\n'))
    if choose(2, 'body'):
        fields['body'] = sym_str('body', nonempty=True)
    data = serialized(s, st, fields)
    two = choose(2, 'second box')
    if two:
        more = {'g': 'x', 'body': 'yy'}
        data = data + serialized(s, st, more)
        cover('two boxes')
    deliver(r, data, 1)
    expect(len(r.got) == 1 + two, 'every box is received')
    same(r.got[0], fields)
    if two:
        same(r.got[1], more)
    cover('cut')


def check_cuts():
    """two cuts of a stream of two boxes"""
    s, st = connect()
    r, rt = connect()
    boxes = [{'f': sym_str('v', excl=('\r', '\n'))}, {'a': 'x\r\ny', 'body': 'q'}]
    if choose(2, 'order'):
        boxes.reverse()
    data = b''
    for b in boxes:
        data = data + serialized(s, st, b)
    deliver(r, data, 2)
    expect(len(r.got) == 2, 'every box is received')
    same(r.got[0], boxes[0])
    same(r.got[1], boxes[1])
    cover('two cuts')


def check_bytewise():
    """the stream delivered in the smallest pieces, symbolic parts as a whole"""
    s, st = connect()
    r, rt = connect()
    v = sym_str('v', excl=('\r', '\n'), nonempty=True)
    body = sym_str('body', nonempty=True)
    boxes = [{'f': 'a' + '\r\n' + 'b', 'body': '\r\n\r\n'}, {'x': '', '_ask': '1'}, {'f': 'z', 'body': 'abc'}]
    for b in boxes:
        data = serialized(s, st, b)
        for i in range(len(data)):
            r.dataReceived(data[i:i + 1])
    expect(len(r.got) == 3, 'every box is received')
    for i in range(3):
        same(r.got[i], boxes[i])
    k = choose((1, 2, 3, 5), 'piece length')
    r2, rt = connect()
    data = b''
    for b in boxes:
        data = data + serialized(s, st, b)
    for i in range(0, len(data), k):
        r2.dataReceived(data[i:i + k])
    expect(len(r2.got) == 3, 'every box is received')
    for i in range(3):
        same(r2.got[i], boxes[i])


def check_inside():
    """cuts inside a value and inside a body"""
    s, st = connect()
    r, rt = connect()
    a = sym_str('a', excl=('\r', '\n'))
    b = sym_str('b', excl=('\r', '\n'))
    c = sym_str('c', nonempty=True)
    d = sym_str('d', nonempty=True)
    fields = {'f': a + b, 'body': c + d}
    data = serialized(s, st, fields)
    k = len(b'F: ') + len(a.encode('utf-8'))
    where = choose(('value', 'body', 'both'), 'cut')
    last = len(data) - len(d.encode('utf-8'))
    start = 0
    if where != 'body':
        r.dataReceived(data[:k])
        start = k
        cover('cut in value')
    if where != 'value':
        r.dataReceived(data[start:last])
        start = last
        cover('cut in body')
    r.dataReceived(data[start:])
    expect(len(r.got) == 1, 'one box')
    same(r.got[0], fields)


def check_malformed():
    r, rt = connect()
    line = sym_bytes('line', excl=(b'\r', b'\n', b':'), nonempty=True)
    if choose(2, 'colon'):
        line = b'key:' + sym_bytes('more', excl=(b'\r', b'\n', b' '))
    assume(line[0:1] != b' ')
    first = choose((b'', b'A: b\r\n'), 'line before')
    last = choose((b'', b'C: d\r\n'), 'line after')
    try:
        r.dataReceived(first + line + b'\r\n' + last + b'\r\n')
        raised = False
    except juice.MalformedJuiceBox:
        raised = True
    expect(raised, 'a header line without separator is rejected')
    expect(r.got == [], 'and no box is delivered')
    cover('malformed')


def check_parse():
    s, st = connect()
    fields = {'f': value('v', choose(2, 'break')), 'body': sym_str('body')}
    n = choose(3, 'boxes')
    data = b''
    for i in range(n):
        data = data + serialized(s, st, fields)
    got = juice.parseString(data)
    expect(len(got) == n, 'every box is parsed')
    for b in got:
        same(b, fields)
    cover('parsed')
