from zope.interface import Interface, implementer


class IService(Interface):
    pass


@implementer(IService)
class Service(object):
    running = 0
    name = None
    parent = None

    def setName(self, name):
        self.name = name

    def setServiceParent(self, parent):
        self.parent = parent
        parent.addService(self)

    def disownServiceParent(self):
        d = self.parent.removeService(self)
        self.parent = None
        return d

    def privilegedStartService(self):
        pass

    def startService(self):
        self.running = 1

    def stopService(self):
        self.running = 0
