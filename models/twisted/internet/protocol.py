from zope.interface import implementer


class Factory(object):
    protocol = None
    numPorts = 0
    noisy = True

    @classmethod
    def forProtocol(cls, protocol, *args, **kw):
        factory = cls(*args, **kw)
        factory.protocol = protocol
        return factory

    def doStart(self):
        if self.numPorts == 0:
            self.startFactory()
        self.numPorts = self.numPorts + 1

    def doStop(self):
        if self.numPorts == 0:
            return
        self.numPorts = self.numPorts - 1
        if not self.numPorts:
            self.stopFactory()

    def startFactory(self):
        pass

    def stopFactory(self):
        pass

    def buildProtocol(self, addr):
        p = self.protocol()
        p.factory = self
        return p


class ClientFactory(Factory):
    def startedConnecting(self, connector):
        pass

    def clientConnectionFailed(self, connector, reason):
        pass

    def clientConnectionLost(self, connector, reason):
        pass


class ServerFactory(Factory):
    pass


class BaseProtocol(object):
    connected = 0
    transport = None

    def makeConnection(self, transport):
        self.connected = 1
        self.transport = transport
        self.connectionMade()

    def connectionMade(self):
        pass


connectionDone = None


class Protocol(BaseProtocol):
    factory = None

    def logPrefix(self):
        return self.__class__.__name__

    def dataReceived(self, data):
        pass

    def connectionLost(self, reason=connectionDone):
        pass


class ProcessProtocol(BaseProtocol):
    def childDataReceived(self, childFD, data):
        if childFD == 1:
            self.outReceived(data)
        elif childFD == 2:
            self.errReceived(data)

    def outReceived(self, data):
        pass

    def errReceived(self, data):
        pass

    def childConnectionLost(self, childFD):
        if childFD == 0:
            self.inConnectionLost()
        elif childFD == 1:
            self.outConnectionLost()
        elif childFD == 2:
            self.errConnectionLost()

    def inConnectionLost(self):
        pass

    def outConnectionLost(self):
        pass

    def errConnectionLost(self):
        pass

    def processExited(self, reason):
        pass

    def processEnded(self, reason):
        pass
