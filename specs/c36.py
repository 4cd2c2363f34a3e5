"""C36: a pending event notifies each waiter exactly once."""
from verif import choose, expect, cover, fail
from twisted.python.failure import Failure
from epsilon.pending import PendingEvent
from anyval import Any

COVER = ('fired', 'failed', 'no waiter', 're-entrant waiter', 're-entrant firing', 'waiter raises',
         'current exception')


class Boom(Any, Exception):
    pass


class Valued(Boom):
    """an exception which has what failures have"""
    value = type = 'not this'

    def __iter__(self):
        return iter(())


class Waiter(object):
    def __init__(self, ev, n, log, action=None):
        self.n = n
        self.log = log
        self.action = action
        self.d = ev.deferred()
        self.d.addCallbacks(self.ok, self.bad)

    def ok(self, r):
        self.log.append((self.n, 'ok', r))
        return self.then(r)

    def bad(self, f):
        self.log.append((self.n, 'bad', f.value))
        failures.append(f)
        return self.then(None)

    def then(self, r):
        if self.action is not None:
            self.action()


failures = []


def fire(ev, how, value):
    if how == 'callback':
        ev.callback(value)
        return value
    if how == 'errback':
        f = Failure(value)
        del failures[:]
        ev.errback(f)
        for each in failures:
            if each.value is value:
                expect(each is f, 'the failure itself, with its traceback')
    elif how == 'exception':
        ev.errback(value)
    elif how == 'current':
        try:
            raise value
        except Boom:
            ev.errback()
    return value


def outcomes(ns, how, value):
    k = 'ok' if how == 'callback' else 'bad'
    return [(n, k, value) for n in ns]


def check_rounds():
    ev = PendingEvent()
    log = []
    total = 0
    waiting = []
    for i in range(2):
        for j in range(choose(4, 'waiters %d' % i)):
            Waiter(ev, total, log)
            waiting.append(total)
            total += 1
        expect(log == [], 'nobody is notified before the event')
        how = choose(('callback', 'errback', 'current', 'exception'), 'how %d' % i)
        value = choose((Boom(), Valued()), 'error') if how != 'callback' else choose((Any(), None), 'value')
        fire(ev, how, value)
        expect(log == outcomes(waiting, how, value),
               'every waiter is notified exactly once, in order, with the outcome')
        if not waiting:
            cover('no waiter')
        elif how == 'callback':
            cover('fired')
        else:
            cover('failed')
            if how == 'current':
                cover('current exception')
        waiting = []
        del log[:]
    fire(ev, 'callback', 1)
    expect(log == [], 'nobody is notified twice')


def check_independent():
    a, b = PendingEvent(), PendingEvent()
    log = []
    Waiter(a, 'a', log)
    Waiter(b, 'b', log)
    v = object()
    a.callback(v)
    expect(log == [('a', 'ok', v)], 'events are independent')
    b.callback(v)
    expect(log == [('a', 'ok', v), ('b', 'ok', v)], 'events are independent')


def check_register_while_firing():
    """a waiter registers others, or raises, while being notified"""
    ev = PendingEvent()
    log = []
    n = choose((1, 2, 3), 'waiters')
    who = choose(n, 'active waiter')
    what = choose(('one', 'two', 'raise'), 'action')
    late = []

    def action():
        if what == 'raise':
            raise Boom()
        for i in range(1 if what == 'one' else 2):
            late.append('late %d' % i)
            Waiter(ev, late[-1], log)
    for i in range(n):
        Waiter(ev, i, log, action if i == who else None)
    how = choose(('callback', 'errback'), 'how')
    value = Boom()
    fire(ev, how, value)
    expect(log == outcomes(range(n), how, value), 'only those registered before are notified')
    del log[:]
    how = choose(('callback', 'errback'), 'next')
    fire(ev, how, value)
    expect(log == outcomes(late, how, value), 'the others are notified by the next firing')
    del log[:]
    fire(ev, how, value)
    expect(log == [], 'nobody is notified twice')
    cover('waiter raises' if what == 'raise' else 're-entrant waiter')


def check_fire_while_firing():
    """a waiter fires the event again: only new waiters hear of it"""
    ev = PendingEvent()
    log = []
    n = choose((1, 2, 3), 'waiters')
    who = choose(n, 'active waiter')
    how = choose(('callback', 'errback'), 'how')
    how2 = choose(('callback', 'errback'), 'inner')
    v, v2 = Boom(), Boom()
    register = choose(2, 'register')

    def action():
        if register:
            Waiter(ev, 'late', log)
        fire(ev, how2, v2)
    for i in range(n):
        Waiter(ev, i, log, action if i == who else None)
    fire(ev, how, v)
    want = outcomes(range(who + 1), how, v)
    if register:
        want += outcomes(['late'], how2, v2)
    want += outcomes(range(who + 1, n), how, v)
    expect(log == want, 'each waiter is notified once, by the firing it waited for')
    cover('re-entrant firing')
