from zope.interface import Interface


class IDelayedCall(Interface):
    pass


class IProtocol(Interface):
    pass


class IReactorTime(Interface):
    pass


class ITransport(Interface):
    pass


class IProcessProtocol(Interface):
    pass


class IReactorProcess(Interface):
    pass


class ISSLTransport(Interface):
    pass


class IHandshakeListener(Interface):
    pass
