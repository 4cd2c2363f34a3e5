"""threading: one thread at a time; the trace function of later threads is a cell."""
trace = [None]
profile = [None]


class _Thread(object):
    name = 'MainThread'
    ident = 1
    daemon = False

    def getName(self):
        return self.name


_main = _Thread()


def current_thread():
    return _main


currentThread = main_thread = current_thread


def get_ident():
    return 1


def settrace(f):
    trace[0] = f


def gettrace():
    return trace[0]


def setprofile(f):
    profile[0] = f


class local(object):
    pass


class Lock(object):
    def __init__(self):
        self._l = False

    def acquire(self, blocking=True, timeout=-1):
        self._l = True
        return True

    def release(self):
        self._l = False

    def locked(self):
        return self._l

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    pass
