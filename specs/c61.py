"""C61: the replacements which hotfixes install behave as the repaired library does."""
import os
import sys
import warnings
import twisted.plugin
from twisted.internet import defer, reactor, task, base
from twisted.protocols import loopback, policies
from twisted.trial import unittest
from verif import sym_int, choose, expect, expect_eq, cover
from anyval import Any
from epsilon.hotfixes import (plugin_package_paths, timeoutmixin_calllater, loopbackasync_reentrancy, trial_assertwarns,
                              internet_task_clock)

COVER = ('package', 'no package', 'timed out', 'in time', 'again', 'later', 'failed', 'warned', 'silent', 'other warning', 'raised',
         'broken clock', 'good clock', 'ordered')


def check_plugin_paths():
    """every entry of the path counts unless the package itself is there"""
    entries, want = [], []
    n = choose(3, 'entries')
    parts = choose((['plugins'], ['some', 'plugins']), 'package')
    for i in range(n):
        e = choose(('/a%d' % i, 'rel%d' % i, ''), 'entry %d' % i)
        d = os.path.abspath(os.path.join(e, *parts))
        kind = choose(('none', 'directory', 'package', 'compiled'), 'directory %d' % i)
        if kind != 'none':
            p = d
            while p not in os.fs:
                os.fs[p] = ('dir',)
                p = os.path.dirname(p)
        if kind == 'package':
            os.fs[d + '/__init__.py'] = ('file', b'')
        elif kind == 'compiled':
            os.fs[d + '/__init__.pyc'] = ('file', b'')
        entries.append(e)
    for e in entries:
        d = os.path.abspath(os.path.join(e, *parts))
        if d + '/__init__.py' not in os.fs:
            want.append(d)
            cover('no package')
        else:
            cover('package')
    sys.path[:] = entries
    expect_eq(plugin_package_paths.pluginPackagePaths('.'.join(parts)), want, 'the directories which are no packages of their own, in order')
    expect_eq(list(sys.path), entries, 'the path is left alone')


class Timed(timeoutmixin_calllater.TimeoutMixin):
    def __init__(self, again=None):
        self.told = []
        self.again = again

    def timeoutConnection(self):
        self.told.append(reactor.seconds())
        if self.again is not None and len(self.told) == 1:
            self.setTimeout(self.again)


def check_timeouts():
    """a connection is told once the period has passed without a reset"""
    again = choose((None, 5), 'timeout when told')
    a, b = Timed(again), Timed()
    expect(a.timeOut is None, 'there is no timeout at first')
    end, period, told = None, None, []
    for i in range(3):
        op = choose(('set', 'none', 'reset', 'wait'), 'step %d' % i)
        if op == 'set':
            p = sym_int('period%d' % i, lo=0)
            expect_eq(a.setTimeout(p), period, 'the period before')
            period, end = p, reactor.seconds() + p
        elif op == 'none':
            expect_eq(a.setTimeout(None), period, 'the period before')
            period = end = None
        elif op == 'reset':
            a.resetTimeout()
            if end is not None:
                end = reactor.seconds() + period
        else:
            dt = sym_int('wait%d' % i, lo=0)
            # not past a second timeout
            reactor.clock.advance(dt)
            if end is not None and end <= reactor.seconds():
                told.append(reactor.seconds())
                cover('timed out')
                end = None
                if again is not None and len(told) == 1:
                    period, end = again, reactor.seconds() + again
                    cover('again')
            elif end is not None:
                cover('in time')
        expect_eq(a.timeOut, period, 'the period is kept')
        expect_eq(a.told, told, 'the connection is told once, when the period is over')
        expect_eq([c.getTime() for c in reactor.getDelayedCalls()], [] if end is None else [end], 'one call is waiting, if any')
    expect(b.timeOut is None and b.told == [], 'other connections are left alone')


def check_timeout_default():
    """without any other definition the connection is dropped"""
    class T(object):
        lost = 0

        def loseConnection(self):
            self.lost += 1
    m = timeoutmixin_calllater.TimeoutMixin()
    m.transport = T()
    made = []
    if choose(2, 'own callLater'):
        def callLater(period, f):
            made.append((period, f))
        m.callLater = callLater
        expect(m.setTimeout(7) is None, 'no period before')
        expect(len(made) == 1 and made[0][0] == 7 and reactor.getDelayedCalls() == [], 'scheduled as the protocol schedules')
        made[0][1]()
    else:
        m.setTimeout(7)
        reactor.clock.advance(6)
        expect(m.transport.lost == 0, 'not before the period is over')
        reactor.clock.advance(1)
    expect(m.transport.lost == 1, 'the connection is dropped')


class Queue(object):
    def __init__(self):
        self._notificationDeferred = defer.Deferred()


class Oops(Exception):
    pass


def check_loopback():
    """bytes are moved on from the reactor, never from within a write"""
    loopbackasync_reentrancy.install()
    s, c = Any(), Any()
    sc, cs = Queue(), Queue()
    later = defer.Deferred()
    r = choose((None, 'done', Oops(), later), 'result')
    loopback.results.append(r)
    d = loopback._loopbackAsyncContinue(None, s, sc, c, cs)
    expect(loopback.bodies == [], 'nothing is moved at once')
    expect(sc._notificationDeferred is None and cs._notificationDeferred is None, 'the notifications have been used')
    got, bad = [], []
    d.addCallbacks(got.append, bad.append)
    expect_eq([x.getTime() for x in reactor.getDelayedCalls()], [reactor.seconds()], 'as soon as possible')
    reactor.clock.advance(0)
    expect(len(loopback.bodies) == 1, 'moved once')
    b = loopback.bodies[0]
    expect(b[0] is s and b[1] is sc and b[2] is c and b[3] is cs, 'between the same two')
    if isinstance(r, Oops):
        expect(got == [] and len(bad) == 1 and bad[0].value is r, 'errors are passed on')
        cover('failed')
    else:
        if r is later:
            expect(got == [] and bad == [], 'not before the end')
            later.callback('done')
            r = 'done'
        expect(got == [r] and bad == [], 'so is the end')
        cover('later')


class Failed(Exception):
    pass


class Case(object):
    def fail(self, msg=None):
        raise Failed(msg)

    def assertEqual(self, a, b, msg=None):
        if not a == b:
            raise Failed(msg)

    def assertIdentical(self, a, b, msg=None):
        if a is not b:
            raise Failed(msg)

    def failUnless(self, a, msg=None):
        if not a:
            raise Failed(msg)
    assertTrue, assertEquals, failUnlessEqual, failUnlessIdentical, assertIs = failUnless, assertEqual, assertEqual, assertIdentical, assertIdentical


def check_warnings():
    """exactly the warning wanted, from where it is wanted"""
    class W(UserWarning):
        pass

    class Sub(W):
        pass
    emitted = []
    given = []
    result = Any()
    n = choose(3, 'warnings')
    for i in range(n):
        emitted.append(choose((('m', W, 'f.py'), ('other', W, 'f.py'), ('m', Sub, 'f.py'), ('m', W, 'g.py')), 'warning %d' % i))
    raising = choose(2, 'raises')
    orig = warnings.warn_explicit

    def f(*a, **k):
        given.append((a, k))
        for i, (m, c, n) in enumerate(emitted):
            warnings.warn_explicit(m, c, n, 10 + i)
        if raising:
            raise Oops()
        return result
    wanted = choose(('f.py', 'f.pyc'), 'file')
    x = Any()
    try:
        r = trial_assertwarns.failUnlessWarns(Case(), W, 'm', wanted, f, x, k=x)
    except Oops:
        expect(raising, 'only what was raised')
        cover('raised')
        r = None
    except Failed:
        expect(not raising, 'what is raised is passed on')
        ok = emitted != [] and emitted[0] == ('m', W, 'f.py')
        for e in emitted[1:]:
            ok = ok and e[:2] == ('m', W)
        expect(not ok, 'the warning wanted is no failure')
        cover('other warning' if emitted else 'silent')
    else:
        expect(not raising and r is result, 'the result of the function')
        expect(emitted != [] and emitted[0] == ('m', W, 'f.py'), 'the first warning is the one wanted')
        for e in emitted[1:]:
            expect(e[:2] == ('m', W), 'and there is no other')
        cover('warned')
    expect(warnings.warn_explicit is orig, 'warnings are shown as before')
    expect(len(given) == 1 and len(given[0][0]) == 1 and given[0][0][0] is x and list(given[0][1]) == ['k'] and given[0][1]['k'] is x,
           'the function is called once, with its arguments')


def check_clock():
    """a clock is broken exactly if it returns one call for another; once fixed it does not"""
    good = task.Clock.callLater

    def bad(self, when, what, *a, **kw):
        good(self, when, what, *a, **kw)
        self.calls.sort(key=lambda c: c.getTime())
        return self.calls[choose((0, 0), 'which')]

    def worse(self, when, what, *a, **kw):
        good(self, when, what, *a, **kw)
        return self.calls[0]
    kind = choose(('good', 'first', 'last'), 'clock')
    if kind == 'good':
        expect(not internet_task_clock.clockIsBroken(), 'a good clock is not broken')
        cover('good clock')
        return
    if kind == 'first':
        task.Clock.callLater = worse
    else:
        def last(self, when, what, *a, **kw):
            good(self, when, what, *a, **kw)
            self.calls.sort(key=lambda c: c.getTime())
            return self.calls[-1]
        task.Clock.callLater = last
    expect(internet_task_clock.clockIsBroken(), 'a broken clock is')
    cover('broken clock')


def check_clock_fixed():
    internet_task_clock.install()
    expect(not internet_task_clock.clockIsBroken(), 'the fixed clock is not broken')
    clock = task.Clock()
    clock.now = sym_int('now', lo=0)
    x = Any()
    whens = [sym_int('when%d' % i, lo=0) for i in range(2)]
    calls = []

    def f(*a, **k):
        calls.append((a, k))
    dcs = []
    for i, w in enumerate(whens):
        dc = clock.callLater(w, f, i, k=x)
        dcs.append(dc)
        expect_eq(dc.getTime(), clock.now + w, 'the time asked for')
        expect(dc.func is f and dc.args == (i,) and list(dc.kw) == ['k'] and dc.kw['k'] is x, 'the call asked for')
    expect(dcs[0] is not dcs[1] and len(clock.calls) == 2, 'each call is one of its own')
    expect(clock.calls[0].getTime() <= clock.calls[1].getTime(), 'in the order of their times')
    expect((clock.calls[0] is dcs[0]) == (whens[0] <= whens[1]), 'stably')
    dcs[0].cancel()
    expect(len(clock.calls) == 1 and clock.calls[0] is dcs[1], 'a cancelled call is forgotten')
    cover('ordered')


def check_install():
    plugin_package_paths.install()
    expect(twisted.plugin.pluginPackagePaths is plugin_package_paths.pluginPackagePaths, 'plugin paths installed')
    loopbackasync_reentrancy.install()
    expect(loopback._loopbackAsyncContinue is loopbackasync_reentrancy._loopbackAsyncContinue, 'loopback installed')
    trial_assertwarns.install()
    expect(unittest.TestCase.failUnlessWarns is trial_assertwarns.failUnlessWarns
           and unittest.TestCase.assertWarns is trial_assertwarns.failUnlessWarns, 'assertions installed')
