"""C09: route receivers are started once when ready and all stopped at the end."""
from verif import sym_str, choose, expect, expect_eq, cover
from epsilon.amprouter import Router
from twisted.python.failure import Failure
from lib import Receiver, Sender

COVER = ('started by router', 'started by connect', 'stopped', 'unbound', 'reentrant start', 'reentrant stop',
         'unbound before start', 'lost during the start', 'many')


def check_orders():
    """Two routes; any order of connecting, unbinding, starting and stopping."""
    router, sender = Router(), Sender()
    rs = [Receiver(), Receiver()]
    routes = [router.bindRoute(rs[0], sym_str('a')), router.bindRoute(rs[1], None)]
    started = False
    stopped = False
    bound = [True, True]
    conns = [0, 0]
    want = [0, 0]
    wantstop = [0, 0]
    reason = Failure(ValueError('bye'))
    for i in range(5):
        ops = []
        if not started:
            ops.append(('start', None))
        if started and not stopped:
            ops.append(('stop', None))
        if not stopped:
            for k in range(2):
                if bound[k]:
                    if conns[k] == 0:
                        ops.append(('connect', k))
                    ops.append(('unbind', k))
        if not ops:
            break
        op, k = choose(ops, 'event')
        if op == 'start':
            started = True
            router.startReceivingBoxes(sender)
            for j in range(2):
                if bound[j] and conns[j]:
                    want[j] += 1
                    cover('started by router')
        elif op == 'connect':
            conns[k] += 1
            routes[k].connectTo(choose((None, sym_str('remote')), 'remote'))
            if started:
                want[k] += 1
                cover('started by connect')
        elif op == 'unbind':
            bound[k] = False
            routes[k].unbind()
            cover('unbound' if started else 'unbound before start')
        else:
            stopped = True
            router.stopReceivingBoxes(reason)
            for j in range(2):
                if bound[j]:
                    wantstop[j] += 1
                    cover('stopped')
        for j in range(2):
            s = rs[j].of('start')
            expect(len(s) == want[j], 'a receiver is started exactly when router and route are ready')
            for e in s:
                expect(e[1] is routes[j], 'a receiver is started with its route as sender')
            t = rs[j].of('stop')
            expect(len(t) == wantstop[j], 'a receiver still bound is stopped exactly once, with the router')
            for e in t:
                expect(e[1] is reason, 'the given reason is passed on')


def reentry(router, routes, extra):
    """What a receiver may do to the routes from inside a notification."""
    what = choose(('bind', 'bind connected', 'unbind self', 'unbind other', 'replace other', 'connect other', 'nothing'), 'reentry')
    if what in ('bind', 'bind connected'):
        r = Receiver()
        route = router.bindRoute(r, choose((None, sym_str('fresh', ne=('route0', 'route1', 'route2', 'third'))), 'new name') if what == 'bind' else 'third')
        extra.append((r, route, what))
        if what == 'bind connected':
            route.connectTo(sym_str('newremote'))
    elif what == 'unbind self':
        routes[0].unbind()
    elif what == 'unbind other':
        routes[1].unbind()
    elif what == 'replace other':
        # another route takes over the name
        if choose(2, 'unbound before'):
            routes[1].unbind()
        r = Receiver()
        extra.append((r, router.bindRoute(r, 'route1'), 'bind'))
    elif what == 'connect other':
        routes[1].connectTo(sym_str('again'))
    return what


def check_reentrant_start():
    router, sender = Router(), Sender()
    did = []
    extra = []

    def onStart(s):
        did.append(reentry(router, routes, extra))
    rs = [Receiver(onStart=onStart), Receiver(), Receiver()]
    order = choose(2, 'bound first')
    routes = [None, None, None]
    for k in ((0, 1, 2) if order else (2, 1, 0)):
        routes[k] = router.bindRoute(rs[k], 'route%d' % k)
    routes[0].connectTo(sym_str('r0'))
    other = choose(2, 'other connected')
    if other:
        routes[1].connectTo(sym_str('r1'))
    routes[2].connectTo(None)
    router.startReceivingBoxes(sender)
    cover('reentrant start')
    expect(len(rs[0].of('start')) == 1, 'the first receiver is started once')
    expect(len(rs[2].of('start')) == 1, 'an uninvolved receiver is started once')
    w = did[0]
    n = len(rs[1].of('start'))
    if w == 'connect other':
        if other:
            expect(n == 2 or n == 1, 'each connection starts the receiver at most once')
        else:
            expect(n == 1, 'a route connected meanwhile is started exactly once')
    elif w in ('unbind other', 'replace other'):
        expect(n <= (1 if other else 0), 'an unbound receiver is not started later')
        if order and other:
            expect(n == 0, 'a receiver unbound before its start is not started')
    else:
        expect(n == (1 if other else 0), 'the other receiver is started exactly if connected')
    for r, route, what in extra:
        expect(len(r.of('start')) == (1 if what == 'bind connected' else 0), 'a route bound meanwhile is started when connected')


def check_reentrant_stop():
    router, sender = Router(), Sender()
    did = []
    extra = []

    def onStop(reason):
        did.append(reentry(router, routes, extra))
    rs = [Receiver(onStop=onStop), Receiver(), Receiver()]
    order = choose(2, 'bound first')
    routes = [None, None, None]
    for k in ((0, 1, 2) if order else (2, 1, 0)):
        routes[k] = router.bindRoute(rs[k], 'route%d' % k)
        routes[k].connectTo(sym_str('r%d' % k))
    router.startReceivingBoxes(sender)
    reason = Failure(ValueError('bye'))
    router.stopReceivingBoxes(reason)
    cover('reentrant stop')
    expect_eq(rs[0].of('stop'), [('stop', reason)], 'the first receiver is stopped once')
    expect_eq(rs[2].of('stop'), [('stop', reason)], 'an uninvolved receiver is stopped once')
    n = len(rs[1].of('stop'))
    if did[0] in ('unbind other', 'replace other'):
        expect(n <= 1, 'an unbound receiver is not stopped twice')
    else:
        expect(n == 1, 'the other receiver is stopped once')
    for r, route, what in extra:
        expect(len(r.of('stop')) <= 1, 'a route bound meanwhile is stopped at most once')


def check_lost_during_start():
    """starting a receiver ends the connection at once"""
    router, sender = Router(), Sender()
    reason = Failure(ValueError('bye'))
    rs = [Receiver(onStart=lambda s: router.stopReceivingBoxes(reason)), Receiver()]
    names = ('a', 'b') if choose(2, 'order') else ('b', 'a')
    first = choose(2, 'bound first')
    for k in ((0, 1) if first else (1, 0)):
        router.bindRoute(rs[k], names[k]).connectTo('far' + names[k])
    router.startReceivingBoxes(sender)
    for r in rs:
        expect_eq(r.of('stop'), [('stop', reason)], 'every receiver still bound is stopped exactly once')
    expect(len(rs[0].of('start')) == 1, 'started once')
    expect(len(rs[1].of('start')) <= 1, 'started at most once')
    if rs[1].of('start'):
        expect(rs[1].events[0][0] == 'start', 'nothing is started after it was stopped')
    cover('lost during the start')


def check_many():
    """however many routes there are"""
    router, sender = Router(), Sender()
    rs = [Receiver() for i in range(150)]
    routes = [router.bindRoute(r) for r in rs]
    for r in routes:
        r.connectTo('far')
    router.startReceivingBoxes(sender)
    for r in rs:
        expect(len(r.of('start')) == 1, 'every receiver is started once')
    reason = Failure(ValueError('bye'))
    router.stopReceivingBoxes(reason)
    for r in rs:
        expect_eq(r.of('stop'), [('stop', reason)], 'every receiver is stopped once')
    cover('many')
