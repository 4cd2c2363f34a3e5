"""twisted.python.log: records events for the specifications."""
events = []


def msg(*message, **kw):
    events.append(('msg', message, kw))


def err(_stuff=None, _why=None, **kw):
    import sys
    if _stuff is None:
        from twisted.python.failure import Failure
        _stuff = Failure()
    events.append(('err', _stuff, _why))


deferr = err


def startLogging(file, *a, **kw):
    events.append(('start', file, None))


def addObserver(o):
    events.append(('observer', o, None))


def removeObserver(o):
    events.append(('unobserver', o, None))


def callWithContext(ctx, func, *args, **kw):
    return func(*args, **kw)


def flushErrors(*types):
    out = [e[1] for e in events if e[0] == 'err']
    events[:] = [e for e in events if e[0] != 'err']
    return out


class FileLogObserver(object):
    def __init__(self, f):
        self.f = f

    def emit(self, ev):
        pass

    def start(self):
        addObserver(self.emit)


def startLoggingWithObserver(observer, setStdout=1):
    events.append(('start', observer, None))


class _P(object):
    def __init__(self):
        self.name = None


def textFromEventDict(d):
    return ' '.join(d.get('message', ()))
