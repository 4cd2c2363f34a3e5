"""C08: outgoing boxes carry exactly the peer route label."""
from verif import sym_bytes, sym_str, choose, expect, expect_eq, cover, fail
from epsilon.amprouter import Router, RouteNotConnected
from twisted.protocols.amp import Box
from twisted.python.failure import Failure
from lib import Receiver, Sender

COVER = ('unbound', 'labelled', 'unlabelled', 'not connected', 'reconnected', 'error passed')
ROUTE = '_route'


def send(route, sender, remote, tag=''):
    box = Box()
    fields = {'x': sym_bytes('x' + tag), b'y': sym_bytes('y' + tag), '_command': sym_bytes('cmd' + tag)}
    box.update(fields)
    had = choose(2, 'already labelled')
    if had:
        fields[ROUTE] = box[ROUTE] = sym_str('nested' + tag)
    n = len(sender.boxes)
    route.sendBox(box)
    expect(len(sender.boxes) == n + 1, 'the box reaches the underlying sender exactly once')
    expect(isinstance(sender.boxes[n][0], Box), 'still as a box')
    got = sender.boxes[n][1]
    want = dict(fields)
    if remote is not None:
        want[ROUTE] = remote
        cover('labelled')
    else:
        cover('unlabelled')
    expect_eq(got, want, 'all fields are intact and the label is the remote route name')


def remote_name(tag):
    k = choose(2, 'remote name')
    return sym_str('remote' + tag) if k else None


def check_send():
    router, sender = Router(), Sender()
    early = choose(2, 'started before binding')
    if early:
        router.startReceivingBoxes(sender)
    route = router.bindRoute(Receiver(), sym_str('local'))
    other = router.bindRoute(Receiver(), None)
    remote = remote_name('')
    other.connectTo(sym_str('otherRemote'))
    if early:
        route.connectTo(remote)
    else:
        late = choose(2, 'connected before start')
        if late:
            route.connectTo(remote)
        router.startReceivingBoxes(sender)
        if not late:
            route.connectTo(remote)
    send(route, sender, remote)
    if choose(2, 'connect again'):
        remote = remote_name('2')
        route.connectTo(remote)
        cover('reconnected')
    send(route, sender, remote, '2')


def check_unconnected():
    router, sender = Router(), Sender()
    router.startReceivingBoxes(sender)
    route = router.bindRoute(Receiver(), choose((None, sym_str('local')), 'local name'))
    if choose(2, 'other connected'):
        router.bindRoute(Receiver()).connectTo(None)
    try:
        route.sendBox(Box({'a': sym_bytes('a')}))
    except RouteNotConnected:
        cover('not connected')
    else:
        fail('sending through a route that was never connected raises RouteNotConnected')
    expect(sender.boxes == [], 'nothing is sent through an unconnected route')


def check_error():
    router, sender = Router(), Sender()
    router.startReceivingBoxes(sender)
    route = router.bindRoute(Receiver())
    if choose(2, 'connected'):
        route.connectTo(sym_str('r'))
    f = Failure(ValueError('x'))
    route.unhandledError(f)
    expect(len(sender.errors) == 1 and sender.errors[0] is f, 'errors are passed on unmodified')
    cover('error passed')


def check_unbound():
    """what a receiver still sends through a route no longer bound"""
    router, sender = Router(), Sender()
    router.startReceivingBoxes(sender)
    route = router.bindRoute(Receiver(), sym_str('local'))
    remote = remote_name('')
    route.connectTo(remote)
    route.unbind()
    send(route, sender, remote)
    if choose(2, 'stopped'):
        router.stopReceivingBoxes(Failure(ValueError()))
    f = Failure(KeyError())
    route.unhandledError(f)
    expect(sender.errors[-1] is f, 'errors are passed on')
    cover('unbound')
