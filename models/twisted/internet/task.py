"""Clock (time moves when told), Cooperator (contract only)."""
from twisted.internet import defer, error


class SchedulerError(Exception):
    pass


class SchedulerStopped(SchedulerError):
    pass


class DelayedCall(object):
    def __init__(self, clock, when, f, a, k):
        self.clock, self.when, self.func, self.args, self.kw = clock, when, f, a, k
        self.called = self.cancelled = 0

    def active(self):
        return not (self.called or self.cancelled)

    def getTime(self):
        return self.when

    def _check(self):
        if self.cancelled:
            raise error.AlreadyCancelled()
        if self.called:
            raise error.AlreadyCalled()

    def cancel(self):
        self._check()
        self.cancelled = 1
        self.clock.calls.remove(self)

    def reset(self, secs):
        self._check()
        self.when = self.clock.now + secs

    def delay(self, secs):
        self._check()
        self.when = self.when + secs


class Clock(object):
    def __init__(self):
        self.now = 0
        self.calls = []

    def seconds(self):
        return self.now

    def callLater(self, when, f, *a, **k):
        c = DelayedCall(self, self.now + when, f, a, k)
        self.calls.append(c)
        return c

    def getDelayedCalls(self):
        return list(self.calls)

    def advance(self, amount):
        self.now = self.now + amount
        while True:
            due = [c for c in self.calls if c.when <= self.now]
            if not due:
                return
            c = due[0]
            for x in due:
                if x.when < c.when:
                    c = x
            self.calls.remove(c)
            c.called = 1
            c.func(*c.args, **c.kw)

    def pump(self, ts):
        for t in ts:
            self.advance(t)


class TaskFinished(SchedulerError):
    pass


class CooperativeTask(object):
    def __init__(self, iterator, coop):
        self.iterator, self.coop = iterator, coop
        self.done = None
        self.waiting = []
        self.paused = 0
        coop._addTask(self)

    def whenDone(self):
        d = defer.Deferred()
        if self.done is None:
            self.waiting.append(d)
        else:
            d.callback(self.done)
        return d

    def pause(self):
        self.paused += 1
        if self.paused == 1:
            self.coop._removeTask(self)

    def resume(self):
        self.paused -= 1
        if self.paused == 0 and self.done is None:
            self.coop._addTask(self)

    def _finish(self, result):
        self.done = result
        if not self.paused:
            self.coop._removeTask(self)
        for d in self.waiting:
            d.callback(result)

    def _step(self):
        from twisted.python.failure import Failure
        try:
            r = next(self.iterator)
        except StopIteration:
            self._finish(self.iterator)
        except BaseException:
            self._finish(Failure())
        else:
            if isinstance(r, defer.Deferred):
                self.pause()
                r.addCallbacks(lambda x: self.resume(), self._finish)


class Cooperator(object):
    """one unit of work of every task in turn; each step is scheduled with the reactor"""
    _stopped = False

    def __init__(self, terminationPredicateFactory=None, scheduler=None, started=True):
        self._tasks = []
        self._call = None
        self._started = started
        self._scheduler = scheduler

    def coiterate(self, iterator, doneDeferred=None):
        d = CooperativeTask(iterator, self).whenDone()
        if doneDeferred is not None:
            d.chainDeferred(doneDeferred)
            return doneDeferred
        return d

    def cooperate(self, iterator):
        return CooperativeTask(iterator, self)

    def _addTask(self, task):
        from twisted.python.failure import Failure
        self._tasks.append(task)
        if self._stopped:
            task._finish(Failure(SchedulerStopped()))
        else:
            self._reschedule()

    def _removeTask(self, task):
        self._tasks.remove(task)
        if not self._tasks and self._call is not None:
            self._call.cancel()
            self._call = None

    def _reschedule(self):
        from twisted.internet import reactor
        if self._started and self._call is None and self._tasks:
            self._call = self._scheduler(self._tick) if self._scheduler is not None else reactor.callLater(0.00000001, self._tick)

    def _tick(self):
        self._call = None
        for t in list(self._tasks):
            if t in self._tasks:
                t._step()
        self._reschedule()

    def start(self):
        self._stopped = False
        self._started = True
        self._reschedule()

    def stop(self):
        from twisted.python.failure import Failure
        self._stopped = True
        for t in list(self._tasks):
            t._finish(Failure(SchedulerStopped()))
        self._tasks = []
        if self._call is not None:
            self._call.cancel()
            self._call = None

    @property
    def running(self):
        return self._started and not self._stopped


_theCooperator = Cooperator()


def coiterate(iterator):
    return _theCooperator.coiterate(iterator)


def cooperate(iterator):
    return _theCooperator.cooperate(iterator)


def deferLater(clock, delay, callable, *args, **kw):
    call = []

    def cancelled(d):
        call[0].cancel()
    d = defer.Deferred(cancelled)
    d.addCallback(lambda ignored: callable(*args, **kw))
    call.append(clock.callLater(delay, d.callback, None))
    return d
