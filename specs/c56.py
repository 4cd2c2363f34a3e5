"""C56: lines and raw data are delivered once and in order, however the bytes arrive."""
from verif import choose, expect, expect_eq, cover, sym_bytes, sym_int, assume
from epsilon.liner import LineReceiver
from jlib import Transport

COVER = ('lines', 'empty line', 'part of a delimiter', 'cut', 'two cuts', 'unfinished', 'raw', 'back to lines', 'raw in pieces',
         'disconnecting', 'disconnecting in raw', 'no transport', 'delimiter', 'raw from the start', 'bytewise')


class Receiver(LineReceiver):
    """lines called RAW switch to raw mode for `need` bytes; lines called QUIT disconnect"""
    need = 0
    quit = None
    stay = False
    yes = True

    def __init__(self):
        self.got = []
        self.held = b''

    def lineReceived(self, line):
        expect(self.lineMode, 'lines are delivered in line mode')
        self.got.append(('line', line))
        if self.quit is not None and len([g for g in self.got if g[0] == 'line']) == self.quit:
            self.transport.disconnecting = self.yes
        elif self.need and line == b'RAW':
            self.held = b''
            self.setRawMode()

    def rawDataReceived(self, data):
        expect(not self.lineMode, 'raw data is delivered in raw mode')
        expect(len(data) > 0, 'some data')
        if self.stay:
            self.got.append(('raw', data))
            if self.quit == 'raw':
                self.transport.disconnecting = self.yes
            return
        self.held = self.held + data
        if len(self.held) >= self.need:
            raw, rest = self.held[:self.need], self.held[self.need:]
            self.got.append(('raw', raw))
            self.held = b''
            self.setLineMode(rest)


def connect(delimiter=None):
    r = Receiver()
    if delimiter is not None:
        r.delimiter = delimiter
    t = Transport()
    if choose(2, 'transport') == 0:
        r.makeConnection(t)
    else:
        cover('no transport')
    return r, t


def deliver(r, data, cuts):
    start = 0
    for i in range(cuts):
        k = sym_int('cut%d' % i, 0)
        assume(start < k)
        assume(k <= len(data))
        r.dataReceived(data[start:k])
        start = k
    r.dataReceived(data[start:])


def line(i):
    kind = choose(3 if i else 4, 'line %d' % i)
    if kind == 0:
        return sym_bytes('line%d' % i, excl=(b'\r', b'\n'))
    if kind == 1:
        cover('empty line')
        return b''
    cover('part of a delimiter')
    if kind == 2:
        return b'\n' + sym_bytes('part%d' % i, excl=(b'\r', b'\n'))
    return b'x\r' + sym_bytes('half%d' % i, excl=(b'\r', b'\n')) + b'y'


def check_lines():
    r, t = connect()
    n = 1 + choose(2, 'lines')
    want = [line(i) for i in range(n)]
    data = b''
    for w in want:
        data = data + w + b'\r\n'
    rest = choose((b'', b'tail', b'tail\r'), 'rest')
    cuts = choose(3 if n == 1 else 2, 'cuts')
    deliver(r, data + rest, cuts)
    if cuts:
        cover('cut' if cuts == 1 else 'two cuts')
    expect_eq(r.got, [('line', w) for w in want], 'every finished line, once and in order, and nothing else')
    cover('lines')
    more = choose((b'\n', b'\r\n', b'end\r\n', b''), 'more')
    r.dataReceived(more)
    whole = rest + more
    if whole.endswith(b'\r\n'):
        want = want + [whole[:-2]]
    else:
        cover('unfinished')
    expect_eq(r.got, [('line', w) for w in want], 'an unfinished line waits for its end')
    expect(t.events == [], 'nothing is written')


def check_delimiter():
    d = choose((b'\n', b'\0', b'--', b'\r\n\r\n'), 'delimiter')
    r, t = connect(d)
    want = [b'one', b'', b'two\r\nthree' if d[0:1] != b'\n' else b'two\r', b'-x']
    data = d.join(want + [b'rest'])
    k = choose(tuple(range(1, 8)) + (100,), 'piece length')
    for i in range(0, len(data), k):
        r.dataReceived(data[i:i + k])
    expect_eq(r.got, [('line', w) for w in want], 'lines end with the delimiter')
    r.dataReceived(d)
    expect_eq(r.got[len(want):], [('line', b'rest')], 'and the last one too')
    cover('delimiter')
    if k == 1:
        cover('bytewise')


def check_raw():
    """a line switches to raw mode, and some raw bytes later lines are back"""
    r, t = connect()
    r.need = choose((1, 3), 'raw bytes')
    first = choose((b'', b'a\r\n'), 'before')
    raw = b'\r\nZ'[:r.need]
    last = sym_bytes('last', excl=(b'\r', b'\n'))
    data = first + b'RAW\r\n' + raw + last + b'\r\n'
    want = ([('line', b'a')] if first else []) + [('line', b'RAW'), ('raw', raw), ('line', last)]
    assume(last != b'RAW')
    if choose(2, 'again'):
        data = data + b'RAW\r\n' + raw + b'end'
        want = want + [('line', b'RAW'), ('raw', raw)]
    cuts = choose(3, 'cuts')
    deliver(r, data, cuts)
    expect_eq(r.got, want, 'raw data and lines, once and in order')
    cover('raw')
    cover('back to lines')
    if cuts:
        cover('raw in pieces')


def check_raw_stays():
    """without switching back all data is passed on as it comes"""
    r, t = connect()
    r.stay = True
    r.need = 1
    a, b = sym_bytes('a', nonempty=True), sym_bytes('b', nonempty=True)
    if choose(2, 'from the start'):
        r.setRawMode()
        cover('raw from the start')
        want = []
    else:
        r.dataReceived(b'RAW\r\n')
        want = [('line', b'RAW')]
    r.dataReceived(a)
    r.dataReceived(b)
    expect_eq(r.got, want + [('raw', a), ('raw', b)], 'raw data at once')
    r.setLineMode()
    r.dataReceived(b'x\r\n')
    expect_eq(r.got[len(want) + 2:], [('line', b'x')], 'no raw data is kept')


def check_quit():
    """once the transport disconnects nothing more of the data received is delivered"""
    r = Receiver()
    r.makeConnection(Transport())
    r.need = 2
    r.quit = choose((1, 2), 'line')
    r.yes = choose((True, 1), 'truth')
    data = choose((b'a\r\nb\r\nc\r\nd\r\n', b'a\r\nRAW\r\nxyz\r\n\r\nc\r\n', b'RAW\r\nxyb\r\nc\r\nd'), 'data')
    k = choose((1, 2, 100), 'piece length')
    for i in range(0, len(data), k):
        if not r.transport.disconnecting:       # a transport does not read any more then
            r.dataReceived(data[i:i + k])
    lines = [g for g in r.got if g[0] == 'line']
    expect(len(lines) == r.quit and r.got[-1] == lines[-1], 'nothing after the line that disconnected')
    expect_eq(r.buffer, b'', 'nor kept')
    cover('disconnecting')


def check_quit_raw():
    r = Receiver()
    r.makeConnection(Transport())
    r.need = 1
    r.stay = True
    r.quit = 'raw'
    r.yes = choose((True, 1), 'truth')
    a, b = sym_bytes('a', nonempty=True), sym_bytes('b', nonempty=True)
    r.setRawMode()
    r.dataReceived(a)
    r.dataReceived(b)
    expect_eq(r.got, [('raw', a)], 'nothing after the data that disconnected')
    expect_eq(r.buffer, b'', 'nor kept')
    cover('disconnecting in raw')
