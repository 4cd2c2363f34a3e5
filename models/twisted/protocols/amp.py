"""twisted.protocols.amp: the parts the library builds on."""
from zope.interface import Interface, implementer
from twisted.internet.protocol import Protocol
from twisted.internet.defer import Deferred, maybeDeferred, fail
from twisted.python.failure import Failure


class IArgumentType(Interface):
    pass


class IBoxSender(Interface):
    pass


class IBoxReceiver(Interface):
    pass


class IResponderLocator(Interface):
    pass


class AmpError(Exception):
    pass


class RemoteAmpError(AmpError):
    def __init__(self, errorCode, description, fatal=False, local=None):
        Exception.__init__(self, 'Code<%s>' % (errorCode,))
        self.local = local
        self.errorCode = errorCode
        self.description = description
        self.fatal = fatal


class Argument(object):
    optional = False

    def __init__(self, optional=False):
        self.optional = optional

    def retrieve(self, d, name, proto):
        if self.optional:
            return d.pop(name, None)
        return d.pop(name)

    def fromBox(self, name, strings, objects, proto):
        st = self.retrieve(strings, name, proto)
        nk = _wireNameToPythonIdentifier(name)
        if self.optional and st is None:
            objects[nk] = None
        else:
            objects[nk] = self.fromStringProto(st, proto)

    def toBox(self, name, strings, objects, proto):
        obj = self.retrieve(objects, _wireNameToPythonIdentifier(name), proto)
        if self.optional and obj is None:
            return
        strings[name] = self.toStringProto(obj, proto)

    def fromStringProto(self, inString, proto):
        return self.fromString(inString)

    def toStringProto(self, inObject, proto):
        return self.toString(inObject)


class String(Argument):
    def toString(self, inObject):
        return inObject

    def fromString(self, inString):
        return inString


class Unicode(String):
    def toString(self, inObject):
        return inObject.encode('utf-8')

    def fromString(self, inString):
        return inString.decode('utf-8')


class Integer(Argument):
    def fromString(self, s):
        return int(s)

    def toString(self, o):
        return str(o).encode('ascii')


class Boolean(Argument):
    def fromString(self, s):
        return s == b'True'

    def toString(self, o):
        return b'True' if o else b'False'


def _wireNameToPythonIdentifier(key):
    if isinstance(key, bytes):
        key = key.decode('ascii')
    return key.replace('-', '_')


class Box(dict):
    __slots__ = []

    def copy(self):
        n = self.__class__()
        n.update(self)
        return n


AmpBox = Box


class QuitBox(AmpBox):
    pass


class _CommandMeta(type):
    def __new__(cls, name, bases, attrs):
        reverseErrors = attrs['reverseErrors'] = {}
        er = attrs['allErrors'] = {}
        if 'commandName' not in attrs:
            attrs['commandName'] = name.encode('ascii')
        for v, k in attrs.get('errors', {}).items():
            reverseErrors[k] = v
            er[v] = k
        for v, k in attrs.get('fatalErrors', {}).items():
            reverseErrors[k] = v
            er[v] = k
        if not isinstance(attrs['commandName'], bytes):
            raise TypeError('Command names must be byte strings')
        for n, _ in attrs.get('arguments', []):
            if not isinstance(n, bytes):
                raise TypeError('Argument names must be byte strings')
        for n, _ in attrs.get('response', []):
            if not isinstance(n, bytes):
                raise TypeError('Response names must be byte strings')
        return type.__new__(cls, name, bases, attrs)


class Command(metaclass=_CommandMeta):
    arguments = []
    response = []
    extra = []
    errors = {}
    fatalErrors = {}
    commandType = 'Command'
    responseType = 'Box'
    requiresAnswer = True

    @classmethod
    def makeResponse(cls, objects, proto):
        return _objectsToStrings(objects, cls.response, Box(), proto)

    @classmethod
    def makeArguments(cls, objects, proto):
        allowed = [_wireNameToPythonIdentifier(n) for n, _ in cls.arguments]
        for k in objects.keys():
            if k not in allowed:
                raise InvalidSignature('%s is not a valid argument' % k)
        return _objectsToStrings(objects, cls.arguments, Box(), proto)

    @classmethod
    def parseResponse(cls, box, proto):
        return _stringsToObjects(box, cls.response, proto)

    @classmethod
    def parseArguments(cls, box, proto):
        return _stringsToObjects(box, cls.arguments, proto)

    @classmethod
    def responder(cls, methodfunc):
        methodfunc.__amp_command__ = cls
        return methodfunc


class InvalidSignature(AmpError):
    pass


def _objectsToStrings(objects, arglist, strings, proto):
    my = dict(objects)
    for name, argparser in arglist:
        argparser.toBox(name, strings, my, proto)
    return strings


def _stringsToObjects(strings, arglist, proto):
    objects = {}
    my = strings.copy()
    for name, argparser in arglist:
        argparser.fromBox(name, my, objects, proto)
    return objects


@implementer(IBoxReceiver, IBoxSender)
class BinaryBoxProtocol(Protocol):
    boxReceiver = None
    _justStartedTLS = False
    innerProtocol = None
    hostCertificate = None

    def __init__(self, boxReceiver):
        self.boxReceiver = boxReceiver
        self.boxSender = self

    def makeConnection(self, transport):
        self.transport = transport
        self.boxReceiver.startReceivingBoxes(self)
        self.connectionMade()

    def connectionLost(self, reason):
        if self.boxReceiver is not None:
            self.boxReceiver.stopReceivingBoxes(reason)
        self.transport = None

    def sendBox(self, box):
        self.transport.sent(box)

    def unhandledError(self, failure):
        from twisted.python import log
        log.err(failure, 'Amp server or network failure')
        self.transport.loseConnection()

    def proto_box(self, box):
        self.boxReceiver.ampBoxReceived(box)


@implementer(IBoxReceiver, IResponderLocator)
class AMP(BinaryBoxProtocol):
    """The specifications drive responders through dispatch()."""

    def __init__(self, boxReceiver=None, locator=None):
        if boxReceiver is None:
            boxReceiver = self
        if locator is None:
            locator = self
        self.locator = locator
        BinaryBoxProtocol.__init__(self, boxReceiver)
        self._outstanding = []

    def __repr__(self):
        return '<AMP>'

    def locateResponder(self, name):
        for k in type(self).__mro__:
            for f in k.__dict__.values():
                c = getattr(f, '__amp_command__', None)
                if c is not None and c.commandName == name:
                    return self._wrap(c, getattr(self, f.__name__))
        return None

    def _wrap(self, command, method):
        def doit(box):
            kw = command.parseArguments(box, self)

            def check(error):
                key = error.trap(*command.allErrors)
                raise RemoteAmpError(command.allErrors[key], error.getErrorMessage(), key in command.fatalErrors, error)
            return maybeDeferred(method, **kw).addCallback(command.makeResponse, self).addErrback(check)
        return doit

    def startReceivingBoxes(self, boxSender):
        self.boxSender = boxSender

    def stopReceivingBoxes(self, reason):
        out = self._outstanding
        self._outstanding = []
        for d in out:
            d.errback(reason)

    def ampBoxReceived(self, box):
        """one question: a box {_command, _ask, ...}"""
        cmd = box[b'_command']
        responder = self.locateResponder(cmd)

        def ok(answer):
            answer[b'_answer'] = box.get(b'_ask')
            if self.transport is not None:
                self.boxSender.sendBox(answer)

        def bad(f):
            e = Box()
            e[b'_error'] = box.get(b'_ask')
            if f.check(RemoteAmpError):
                e[b'_error_code'] = f.value.errorCode
                e[b'_error_description'] = f.value.description
            else:
                e[b'_error_code'] = b'UNKNOWN'
                e[b'_error_description'] = 'Unknown Error'
            if self.transport is not None:
                self.boxSender.sendBox(e)
            if not f.check(RemoteAmpError) or f.value.fatal:
                self.unhandledError(f)
        if responder is None:
            d = fail(Failure(RemoteAmpError(b'UNHANDLED', 'Unhandled Command')))
        else:
            d = maybeDeferred(responder, box)
        d.addCallbacks(ok, bad)
        d.addErrback(self.unhandledError)

    def callRemote(self, commandType, *a, **kw):
        try:
            box = commandType.makeArguments(kw, self)
        except Exception:
            return fail()
        box[b'_command'] = commandType.commandName
        d = Deferred()
        self._outstanding.append(d)
        self.boxSender.sendBox(box)
        d.addCallback(commandType.parseResponse, self)
        return d


class ProtocolSwitchCommand(Command):
    pass


class CommandLocator(object):
    pass
