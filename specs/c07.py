"""C07: each received box goes to exactly the receiver bound to its route."""
from verif import sym_bytes, sym_str, choose, expect, expect_eq, cover, assume
from epsilon.amprouter import Router
from twisted.protocols.amp import Box
from lib import Receiver, Sender

COVER = ('named', 'default', 'unbound', 'after unbind', 'rebound', 'generated', 'reentrant')
ROUTE = '_route'


def deliver(router, sender, bound, everyone, tag=''):
    """Send an arbitrary box; bound: list of (name, receiver) currently bound."""
    box = Box()
    fields = {'x': sym_bytes('x' + tag), b'y': sym_bytes('y' + tag), '_command': sym_bytes('cmd' + tag),
              '_ask': sym_bytes('ask' + tag)}
    box.update(fields)
    kind = choose(('none', 'any', 'known'), 'route label')
    name = None
    if kind == 'any':
        name = sym_str('route' + tag)
        box[ROUTE] = name
    elif kind == 'known':
        named = [n for n, r in bound if n is not None]
        if named:
            name = choose(named, 'which route')
            box[ROUTE] = name
    want = None
    for n, r in bound:
        if (n is None) == (name is None) and n == name:
            want = r
    before = [len(r.events) for r in everyone]
    errors = len(sender.errors)
    try:
        router.ampBoxReceived(box)
    except Exception:
        expect(want is None, 'a box for a bound route is delivered')
        raised = True
    else:
        raised = False
    if want is None:
        expect(raised or len(sender.errors) > errors, 'a box for an unbound route is reported as an error')
        for r, n in zip(everyone, before):
            expect(len(r.events) == n, 'a box for an unbound route reaches nobody')
        cover('unbound')
        return None
    for r, n in zip(everyone, before):
        if r is want:
            expect(len(r.events) == n + 1, 'the bound receiver gets the box exactly once')
            ev = r.events[n]
            expect(ev[0] == 'box', 'the bound receiver gets the box')
            expect_eq(ev[2], fields, 'the label is removed and every other field unchanged')
        else:
            expect(len(r.events) == n, 'no other receiver sees the box')
    cover('default' if name is None else 'named')
    return want


def setup(n):
    router = Router()
    sender = Sender()
    bound, everyone = [], []
    a, b = sym_str('nameA'), sym_str('nameB')
    assume(a != b)
    names = [a, b, None][:n]
    started = choose(2, 'bound before start')
    if not started:
        router.startReceivingBoxes(sender)
    routes = []
    for nm in names:
        r = Receiver()
        everyone.append(r)
        routes.append(router.bindRoute(r, nm))
        bound.append((nm, r))
    if started:
        router.startReceivingBoxes(sender)
    return router, sender, bound, everyone, routes


def check_dispatch():
    router, sender, bound, everyone, routes = setup(choose((1, 2, 3), 'routes'))
    deliver(router, sender, bound, everyone)


def check_generated():
    router = Router()
    sender = Sender()
    router.startReceivingBoxes(sender)
    rs = [Receiver(), Receiver(), Receiver()]
    routes = [router.bindRoute(rs[0]), router.bindRoute(rs[1]), router.bindRoute(rs[2], None)]
    bound = [(routes[0].localRouteName, rs[0]), (routes[1].localRouteName, rs[1]), (None, rs[2])]
    deliver(router, sender, bound, rs)
    deliver(router, sender, bound, rs, '2')
    cover('generated')


def check_change():
    """Unbind, rebind or displace between deliveries."""
    router, sender, bound, everyone, routes = setup(3)
    for r in routes:
        if choose(2, 'connect'):
            r.connectTo(sym_str('remote'))
    op = choose(('unbind', 'rebind', 'displace'), 'change')
    k = choose(3, 'which')
    nm, old = bound[k]
    if op in ('unbind', 'rebind'):
        routes[k].unbind()
        bound = [x for x in bound if x[1] is not old]
        cover('after unbind')
    if op in ('rebind', 'displace'):
        new = Receiver()
        everyone = everyone + [new]
        routes[k] = router.bindRoute(new, nm)
        bound = [x for x in bound if x[1] is not old] + [(nm, new)]
        cover('rebound')
    deliver(router, sender, bound, everyone)


def check_reentrant():
    """A receiver changes the routes while it handles a box."""
    router = Router()
    sender = Sender()
    router.startReceivingBoxes(sender)
    name = sym_str('name')
    late = Receiver()

    def onBox(box):
        route.unbind()
        router.bindRoute(late, name)
    first = Receiver(onBox=onBox)
    route = router.bindRoute(first, name)
    for r in (first, late):
        box = Box()
        box[ROUTE] = name
        box['v'] = sym_bytes('v')
        router.ampBoxReceived(box)
    expect(len(first.of('box')) == 1 and len(late.of('box')) == 1, 'each box goes to the receiver bound at that moment')
    cover('reentrant')


def check_two_routers():
    r1, r2 = Router(), Router()
    s = Sender()
    r1.startReceivingBoxes(s)
    r2.startReceivingBoxes(s)
    a, b = Receiver(), Receiver()
    name = sym_str('name')
    r1.bindRoute(a, name)
    r2.bindRoute(b, name)
    box = Box()
    box[ROUTE] = name
    r1.ampBoxReceived(box)
    expect(len(a.of('box')) == 1 and b.events == [], 'routers do not share routes')
