def pluginPackagePaths(name):
    return []


from zope.interface import Interface


class IPlugin(Interface):
    pass


def getPlugins(interface, package=None):
    return iter([])
