from zope.interface import Interface


class ICredentialsChecker(Interface):
    pass
