"""Environment of the juice specifications: a transport, and the wire format as its documentation states it."""
from verif import choose, expect, sym_str, sym_bytes, is_sym
from twisted.python import log

CRLF = b'\r\n'


class Transport(object):
    """Records every call in order."""
    disconnecting = False

    def __init__(self):
        self.events = []

    def write(self, data):
        expect(isinstance(data, bytes), 'bytes are written to the transport')
        self.events.append(('write', data))

    def writeSequence(self, data):
        for d in data:
            self.write(d)

    def loseConnection(self, *a):
        self.events.append(('lose',))

    def startTLS(self, options, *a):
        self.events.append(('tls', options))

    def getPeer(self):
        return 'peer'

    def getHost(self):
        return 'host'

    def getQ2QPeer(self):
        return Q2Q('peer')

    def getQ2QHost(self):
        return Q2Q('host')

    def written(self):
        return [e[1] for e in self.events if e[0] == 'write']

    def lost(self):
        return len([e for e in self.events if e[0] == 'lose'])


class Q2Q(object):
    def __init__(self, which):
        self.which = which
        self.domain = which + '-domain'
        self.resource = which + '-user'


def text(name, **kw):
    """any field value without line breaks"""
    return sym_str(name, excl=('\r', '\n', ':', ' '), **kw)


def wire(fields):
    """the bytes of a box: 'Name: value' lines, an empty line, the body"""
    out = b''
    body = None
    for k, v in fields:
        v = v if isinstance(v, bytes) else v.encode('utf-8')
        if k == 'body':
            body = v
            k = '_length'
            v = b'%d' % (len(v),)
        out += k.replace('_', '-').title().encode('ascii') + b': ' + v + CRLF
    out += CRLF
    if body is not None:
        out += body
    return out


def unwire(data):
    """fields of one box without body written as such"""
    expect(data.endswith(CRLF + CRLF), 'a box ends with an empty line')
    out = {}
    for line in data[:-4].split(CRLF):
        k, v = line.split(b': ', 1)
        k = k.decode('ascii').lower().replace('-', '_')
        expect(k not in out, 'a box has each field once')
        out[k] = v.decode('utf-8')
    return out


def sent(transport, start=0):
    """the boxes written (one write per box) since event number start"""
    return [unwire(e[1]) for e in transport.events[start:] if e[0] == 'write']


class Outcome(object):
    """What a Deferred told its caller."""

    def __init__(self, d, then=None):
        self.calls = []
        self.then = then
        d.addCallbacks(self._ok, self._bad)

    def _ok(self, r):
        self.calls.append(('ok', r))
        if self.then is not None:
            self.then()

    def _bad(self, f):
        self.calls.append(('error', f.value))
        if self.then is not None:
            self.then()


def logged():
    return [e for e in log.events if e[0] == 'err']
