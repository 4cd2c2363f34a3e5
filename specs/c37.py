"""C37: the reactor runs until main is done and is stopped once."""
from verif import choose, expect, cover, fail
from twisted.internet.defer import Deferred, succeed, fail as failed
from twisted.python.failure import Failure
from twisted.python import log
from epsilon.react import react

COVER = ('own trigger', 'done before', 'done while running', 'failed', 'shutting down', 'main raised', 'never done')


class Boom(Exception):
    pass


class Reactor(object):
    """Runs callbacks in order; stop ends the run after triggers fired."""

    def __init__(self, script):
        self.script = script
        self.events = []
        self.whenRunning = []
        self.triggers = []
        self.running = False
        self.stopped = 0
        self.stopsWhileDown = 0

    def addSystemEventTrigger(self, phase, event, f, *a, **k):
        self.triggers.append((phase, event, f, a, k))
        return len(self.triggers)

    def removeSystemEventTrigger(self, n):
        self.triggers[n - 1] = None

    def callWhenRunning(self, f, *a, **k):
        if self.running:
            f(*a, **k)
        else:
            self.whenRunning.append((f, a, k))

    def callLater(self, t, f, *a, **k):
        self.script.append(lambda: f(*a, **k))

    def stop(self):
        if not self.running or self.stopped:
            self.stopsWhileDown += 1
            raise RuntimeError('not running')
        self.stopped += 1
        self.shutdown()

    def shutdown(self):
        for phase in ('before', 'during', 'after'):
            if phase == 'during' and self.onShutdown is not None:
                g, self.onShutdown = self.onShutdown, None
                g()
            for t in list(self.triggers):
                if t is not None and t[0] == phase and t[1] == 'shutdown':
                    t[2](*t[3], **t[4])

    onShutdown = None

    def run(self, installSignalHandlers=True):
        self.events.append('run')
        self.running = True
        for f, a, k in self.whenRunning:
            f(*a, **k)
        self.whenRunning = []
        while self.script and not self.stopped:
            self.script.pop(0)()
        self.events.append('ran')


def check_react():
    args = [[], ['a'], ['a', object()], ['', None, 0, []]][choose(4, 'arguments')]
    when = choose(('before', 'running', 'chained', 'shutdown', 'trigger', 'never'), 'main done')
    how = choose(('success', 'failure'), 'outcome')
    d = Deferred()
    boom = Boom()

    waited = Deferred()

    def finish():
        if when == 'chained':
            if how == 'success':
                waited.callback('result')
            else:
                waited.errback(Failure(boom))
        elif how == 'success':
            d.callback(choose((None, 0, 'result'), 'result'))
        else:
            d.errback(Failure(boom))
    calls = []
    seen = []

    def main(*a):
        calls.append(a)
        expect(not r.running and r.events == [], 'main is called before the reactor runs')
        if when == 'before':
            finish()
        elif when == 'chained':
            # it has fired, but waits for another
            d.callback(None)
            d.addCallback(lambda ignored: waited)
        elif when == 'trigger':
            r.addSystemEventTrigger(choose(('before', 'during', 'after'), 'phase'), 'shutdown', finish)
            cover('own trigger')
        return d
    script = []
    r = Reactor(script)
    if when in ('running', 'chained'):
        script.append(lambda: seen.append(r.stopped))
        script.append(finish)
        script.append(lambda: seen.append('after'))
    elif when == 'shutdown':
        r.onShutdown = finish
        script.append(r.stop)
    elif when == 'trigger':
        script.append(r.stop)
    elif when == 'never':
        script.append(lambda: seen.append(r.stopped))
        script.append(r.stop)
    del log.events[:]
    res = react(r, main, args)
    expect(calls == [tuple([r] + args)], 'main is called once, with the reactor and the arguments')
    expect(r.events == ['run', 'ran'], 'the reactor is run once, to its end')
    expect(r.stopped == 1 and r.stopsWhileDown == 0, 'the reactor is stopped exactly once')
    if when in ('running', 'chained'):
        expect(seen == [0], 'not before main is done, and at once then')
        cover('done while running')
    elif when == 'never':
        expect(seen == [0], 'not stopped while main is not done')
        expect(log.events == [], 'nothing is logged')
        cover('never done')
        return
    elif when == 'before':
        cover('done before')
    else:
        cover('shutting down')
    if how == 'failure':
        expect(len(log.events) == 1, 'a failure is logged, once')
        e = log.events[0]
        expect(logged(e) is boom, 'the failure of main is logged')
        cover('failed')
    else:
        expect(log.events == [], 'success is not logged')


def logged(e):
    return e[1].value


def check_main_raises():
    r = Reactor([])
    boom = Boom()
    def main(reactor):
        raise boom
    try:
        react(r, main, [])
    except Boom as e:
        expect(e is boom, 'the very error')
        expect(r.events == [], 'the reactor is not run')
        cover('main raised')
    else:
        fail('an error of main itself is passed on')
