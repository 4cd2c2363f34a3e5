"""sys: recorded effects, fixed version facts."""
from verif import current_exception, loaded_modules, caller
modules = loaded_modules()
argv = ['prog']
path = ['', '/usr/lib/python3.12', '/opt/venv/lib/python3.12/site-packages']
executable = '/opt/venv/bin/python'
platform = 'linux'
prefix = '/usr'
exec_prefix = '/usr'
byteorder = 'little'
maxsize = 9223372036854775807
maxunicode = 1114111
flags = None


class _VI(tuple):
    major = 3
    minor = 12
    micro = 3
    releaselevel = 'final'
    serial = 0


version_info = _VI((3, 12, 3, 'final', 0))
hexversion = 0x030c03f0
version = '3.12.3'
trace = [None]
profile = [None]
hooks = {}


class _Out(object):
    encoding = 'utf-8'

    def __init__(self, name):
        self.name = name
        self.written = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not ' + type(s).__name__)
        self.written.append(s)
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        return {'stdin': 0, 'stdout': 1, 'stderr': 2}[self.name]


stdout = _Out('stdout')
stderr = _Out('stderr')
stdin = _Out('stdin')
__stdout__ = stdout
__stderr__ = stderr


def exc_info():
    e = current_exception()
    if e is None:
        return (None, None, None)
    return (type(e), e, None)


def exception():
    return current_exception()


def settrace(f):
    trace[0] = f


def gettrace():
    return trace[0]


def setprofile(f):
    profile[0] = f


def exit(code=None):
    raise SystemExit(code)


def intern(s):
    return s


def getdefaultencoding():
    return 'utf-8'


def getfilesystemencoding():
    return 'utf-8'


def getrecursionlimit():
    return 1000
