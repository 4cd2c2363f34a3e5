"""C10: generated route identifiers never collide."""
from verif import sym_str, choose, expect, expect_eq, cover
from epsilon.amprouter import Router
from lib import Receiver, Sender

COVER = ('generated', 'explicit', 'freed')


def check_unique():
    """Explicit names are arbitrary text, chosen before and between generated ones."""
    router = Router()
    if choose(2, 'started'):
        router.startReceivingBoxes(Sender())
    live = []           # (name, receiver, route) bound now
    handed = []
    for i in range(4):
        op = choose(('generate', 'explicit', 'unbind', 'identifier'), 'event')
        if op == 'explicit':
            name = sym_str('name%d' % i)
            fresh = True
            for x in live:
                if x[0] == name:
                    fresh = False
            if not fresh:
                continue
            r = Receiver()
            live.append((name, r, router.bindRoute(r, name)))
            cover('explicit')
        elif op == 'generate':
            r = Receiver()
            route = router.bindRoute(r)
            name = route.localRouteName
            expect(isinstance(name, str), 'a generated identifier is text')
            for x in live:
                expect(x[0] != name, 'a generated identifier is not one of a bound route')
            for h in handed:
                expect(h != name, 'a generated identifier is not handed out twice')
            handed.append(name)
            live.append((name, r, route))
            cover('generated')
        elif op == 'identifier':
            name = router.createRouteIdentifier()
            for x in live:
                expect(x[0] != name, 'a generated identifier is not one of a bound route')
            for h in handed:
                expect(h != name, 'a generated identifier is not handed out twice')
            handed.append(name)
        elif live:
            k = choose(len(live), 'which')
            live.pop(k)[2].unbind()
            cover('freed')
    router2 = None


def check_not_displaced():
    """Every route bound stays reachable under its name."""
    router = Router()
    router.startReceivingBoxes(Sender())
    live = []
    for i in range(3):
        r = Receiver()
        if choose(2, 'explicit'):
            name = sym_str('n%d' % i)
            known = False
            for n, x in live:
                if n == name:
                    known = True
            if known:
                continue
            router.bindRoute(r, name)
        else:
            name = router.bindRoute(r).localRouteName
        live.append((name, r))
    for n, r in live:
        before = len(r.events)
        router.ampBoxReceived({'_route': n, 'v': b''})
        expect(len(r.events) == before + 1, 'an existing route is not displaced')
