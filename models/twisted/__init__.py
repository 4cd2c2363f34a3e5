from twisted.python.versions import Version
version = Version('twisted', 26, 10, 0)
__version__ = '26.10.0'
