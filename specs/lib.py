"""Shared environment objects of the specifications."""
from verif import choose, expect
from zope.interface import implementer
from twisted.protocols.amp import IBoxReceiver, IBoxSender
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure


@implementer(IBoxReceiver)
class Receiver(object):
    """An avatar or routed receiver: records what it is told."""

    def __init__(self, name='receiver', onStart=None, onStop=None, onBox=None):
        self.name = name
        self.events = []
        self.onStart = onStart
        self.onStop = onStop
        self.onBox = onBox

    def startReceivingBoxes(self, sender):
        self.events.append(('start', sender))
        if self.onStart is not None:
            self.onStart(sender)

    def ampBoxReceived(self, box):
        self.events.append(('box', box, dict(box)))
        if self.onBox is not None:
            self.onBox(box)

    def stopReceivingBoxes(self, reason):
        self.events.append(('stop', reason))
        if self.onStop is not None:
            self.onStop(reason)

    def of(self, kind):
        return [e for e in self.events if e[0] == kind]


@implementer(IBoxSender)
class Sender(object):
    def __init__(self):
        self.boxes = []
        self.errors = []

    def sendBox(self, box):
        self.boxes.append((box, dict(box)))

    def unhandledError(self, failure):
        self.errors.append(failure)


class Transport(object):
    """What an AMP connection writes."""

    def __init__(self):
        self.boxes = []
        self.lost = 0

    def sent(self, box):
        self.boxes.append(box)

    def loseConnection(self):
        self.lost += 1


class Portal(object):
    """login() answers when the specification says so."""

    def __init__(self):
        self.logins = []

    def login(self, credentials, mind, *interfaces):
        d = Deferred()
        self.logins.append((credentials, mind, interfaces, d))
        return d
