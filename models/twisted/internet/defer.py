"""Deferreds, as twisted implements them (callback chains, chaining, cancellation)."""
from twisted.python.failure import Failure


class AlreadyCalledError(Exception):
    pass


class AlreadyCancelledError(Exception):
    pass


class CancelledError(Exception):
    pass


class TimeoutError(Exception):
    pass


def passthru(arg, *a, **kw):
    return arg


class Deferred(object):
    called = False
    paused = 0
    _chainedTo = None
    debug = False

    def __init__(self, canceller=None):
        self.callbacks = []
        self._canceller = canceller
        self._running = False
        self._suppress = False

    def addCallbacks(self, callback, errback=None, callbackArgs=None, callbackKeywords=None,
                     errbackArgs=None, errbackKeywords=None):
        if errback is None:
            errback = passthru
        self.callbacks.append(((callback, tuple(callbackArgs or ()), callbackKeywords or {}),
                               (errback, tuple(errbackArgs or ()), errbackKeywords or {})))
        if self.called:
            self._run()
        return self

    def addCallback(self, callback, *args, **kw):
        return self.addCallbacks(callback, None, args, kw)

    def addErrback(self, errback, *args, **kw):
        return self.addCallbacks(passthru, errback, None, None, args, kw)

    def addBoth(self, callback, *args, **kw):
        return self.addCallbacks(callback, callback, args, kw, args, kw)

    def chainDeferred(self, d):
        d._chainedTo = self
        return self.addCallbacks(d.callback, d.errback)

    def callback(self, result):
        self._start(result)

    def errback(self, fail=None):
        if fail is None:
            fail = Failure()
        elif not isinstance(fail, Failure):
            fail = Failure(fail)
        self._start(fail)

    def cancel(self):
        if not self.called:
            if self._canceller:
                self._canceller(self)
            else:
                self._suppress = True
            if not self.called:
                self.errback(Failure(CancelledError()))
        elif isinstance(self.result, Deferred):
            self.result.cancel()

    def pause(self):
        self.paused = self.paused + 1

    def unpause(self):
        self.paused = self.paused - 1
        if self.paused:
            return
        if self.called:
            self._run()

    def _start(self, result):
        if self.called:
            if self._suppress:
                self._suppress = False
                return
            raise AlreadyCalledError
        self.called = True
        self.result = result
        self._run()

    def _run(self):
        if self._running or self.paused:
            return
        while self.callbacks:
            cb, eb = self.callbacks.pop(0)
            isf = isinstance(self.result, Failure)
            f, a, kw = eb if isf else cb
            self._running = True
            try:
                try:
                    self.result = f(self.result, *a, **kw)
                finally:
                    self._running = False
            except Exception:
                self.result = Failure()
            if isinstance(self.result, Deferred):
                inner = self.result
                if inner.called and not inner.paused and not isinstance(inner.result, Deferred) and not inner._running:
                    r = inner.result
                    inner.result = None
                    self.result = r
                else:
                    self.paused = self.paused + 1
                    inner.addBoth(self._continue)
                    return

    def _continue(self, result):
        self.result = result
        self.paused = self.paused - 1
        if self.called:
            self._run()


def succeed(result):
    d = Deferred()
    d.callback(result)
    return d


def fail(result=None):
    d = Deferred()
    d.errback(result)
    return d


def execute(callable, *args, **kw):
    try:
        result = callable(*args, **kw)
    except:
        return fail()
    return succeed(result)


def maybeDeferred(f, *args, **kw):
    try:
        result = f(*args, **kw)
    except Exception:
        return fail(Failure())
    if isinstance(result, Deferred):
        return result
    elif isinstance(result, Failure):
        return fail(result)
    return succeed(result)


SUCCESS = True
FAILURE = False


class DeferredList(Deferred):
    def __init__(self, deferredList, fireOnOneCallback=False, fireOnOneErrback=False, consumeErrors=False):
        Deferred.__init__(self)
        self.resultList = [None] * len(deferredList)
        self.n = 0
        self.fc = fireOnOneCallback
        self.fe = fireOnOneErrback
        self.ce = consumeErrors
        if not deferredList and not fireOnOneCallback:
            self.callback(self.resultList)
        i = 0
        for d in deferredList:
            d.addCallbacks(self._cb, self._cb, callbackArgs=(i, True), errbackArgs=(i, False))
            i += 1

    def _cb(self, result, index, ok):
        self.resultList[index] = (ok, result)
        self.n += 1
        if not self.called:
            if ok and self.fc:
                self.callback((result, index))
            elif not ok and self.fe:
                self.errback(Failure(FirstError(result, index)))
            elif self.n == len(self.resultList):
                self.callback(self.resultList)
        if not ok and self.ce:
            result = None
        return result


class FirstError(Exception):
    def __init__(self, failure, index):
        Exception.__init__(self, failure, index)
        self.subFailure = failure
        self.index = index


def gatherResults(deferredList, consumeErrors=False):
    d = DeferredList(deferredList, fireOnOneErrback=True, consumeErrors=consumeErrors)
    d.addCallback(lambda rs: [r[1] for r in rs])
    return d


class _DefGen_Return(BaseException):
    def __init__(self, value):
        self.value = value


def returnValue(val):
    raise _DefGen_Return(val)


def inlineCallbacks(f):
    def unwind(*args, **kw):
        gen = f(*args, **kw)
        out = Deferred()

        def step(result):
            while True:
                try:
                    if isinstance(result, Failure):
                        r = gen.throw(result.value)
                    else:
                        r = gen.send(result)
                except StopIteration as e:
                    out.callback(e.value)
                    return
                except _DefGen_Return as e:
                    out.callback(e.value)
                    return
                except Exception:
                    out.errback()
                    return
                if isinstance(r, Deferred):
                    r.addBoth(step)
                    return
                result = r
        step(None)
        return out
    return unwind
