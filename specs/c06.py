"""C06: a one-time pad authenticates at most once."""
from verif import sym_bytes, choose, expect, expect_eq, cover, assume, fail
from epsilon.ampauth import OneTimePadChecker, _AMPOneTimePad
from twisted.cred.error import UnauthorizedLogin

COVER = ('accepted', 'refused', 'again refused')


def registered():
    """A checker with two arbitrary distinct valid pads."""
    p1, p2 = sym_bytes('pad1'), sym_bytes('pad2')
    assume(p1 != p2)
    a1, a2 = choose((object(), b'', (), 0, None), 'avatar identifier'), object()
    if choose(2, 'the same avatar'):
        a2 = a1
    pads = {p1: a1, p2: a2}
    return OneTimePadChecker(pads), pads, [(p1, a1), (p2, a2)]


def attempt(checker, valid, pad):
    """Present an arbitrary pad; returns the pads that must remain valid."""
    want = None
    for p, a in valid:
        if p == pad:
            want = (p, a)
    try:
        got = checker.requestAvatarId(_AMPOneTimePad(pad))
    except UnauthorizedLogin:
        expect(want is None, 'a valid one-time pad is accepted')
        cover('refused')
        return valid
    expect(want is not None, 'a pad that is not currently valid is refused')
    expect(got is want[1], 'the avatar registered for that pad is returned')
    cover('accepted')
    return [v for v in valid if v is not want]


def check_history():
    checker, pads, valid = registered()
    for i in range(3):
        before = len(valid)
        valid = attempt(checker, valid, sym_bytes('presented%d' % i))
        expect(len(pads) == len(valid), 'exactly the accepted pad is invalidated')
        for p, a in valid:
            expect(p in pads, 'other pads stay valid')
    cover('done')


def check_replay():
    checker, pads, valid = registered()
    pad = sym_bytes('pad')
    v2 = attempt(checker, valid, pad)
    if len(v2) < len(valid):
        try:
            checker.requestAvatarId(_AMPOneTimePad(pad))
        except UnauthorizedLogin:
            cover('again refused')
        else:
            fail('a pad that was used is refused when presented again')
