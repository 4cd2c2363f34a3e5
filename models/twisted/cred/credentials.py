from zope.interface import Interface, implementer


class ICredentials(Interface):
    pass


class IUsernameHashedPassword(ICredentials):
    pass


class IUsernamePassword(ICredentials):
    pass


class IAnonymous(ICredentials):
    pass


@implementer(IUsernamePassword)
class UsernamePassword(object):
    def __init__(self, username, password):
        self.username = username
        self.password = password

    def checkPassword(self, password):
        return self.password == password


@implementer(IUsernameHashedPassword)
class UsernameHashedPassword(object):
    def __init__(self, username, hashed):
        self.username = username
        self.hashed = hashed

    def checkPassword(self, password):
        return self.hashed == password
