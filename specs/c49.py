"""C49: both peers agree on the protocol version."""
from verif import choose, expect, expect_eq, cover, sym_int
from epsilon import juice
from jlib import Transport, Outcome, wire, sent

COVER = ('agreed', 'no common version', 'not supported here', 'several', 'same again', 'other answer', 'down again')


def connect(server):
    p = juice.Juice(server)
    t = Transport()
    p.makeConnection(t)
    return p, t


def deliver(src, dst):
    n = len(src.events)
    for e in src.events[:n]:
        if e[0] == 'write':
            dst.dataReceived(e[1])
    del src.events[:]


def check_agree():
    """one side asks; the other supports the version or not"""
    c, ct = connect(False)
    s, st = connect(True)
    before = c.protocolVersion
    expect_eq(s.protocolVersion, before, 'both start with the same version')
    mine, theirs = choose((([1], [1]), ([1, 2], [2]), ([2, 1], [1, 2]), ([1, 2], [1]), ([1, 2, 3], [])), 'supported')
    ask = choose(tuple(mine), 'asked for')
    juice.VERSIONS = mine
    o = Outcome(c.renegotiateVersion(ask))
    expect_eq(mine, list(mine), 'the versions supported stay')
    expect_eq(c.protocolVersion, before, 'no change before the answer')
    expect(o.calls == [] and len(sent(ct)) == 1, 'one request')
    juice.VERSIONS = theirs
    deliver(ct, s)
    if ask in theirs:
        expect_eq(s.protocolVersion, ask, 'the responder uses the version it chose')
        expect(len(st.written()) == 1 and st.lost() == 0, 'one answer')
        juice.VERSIONS = mine
        deliver(st, c)
        expect_eq(c.protocolVersion, ask, 'the requester uses it too')
        expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'agreed')
        cover('agreed')
        if choose(2, 'again'):
            o = Outcome(c.renegotiateVersion(ask))
            juice.VERSIONS = theirs
            deliver(ct, s)
            deliver(st, c)
            expect(c.protocolVersion == ask and s.protocolVersion == ask and len(o.calls) == 1, 'agreed again')
            cover('same again')
    else:
        expect_eq(s.protocolVersion, before, 'no common version: the responder keeps its version')
        deliver(st, c)
        expect(len(o.calls) == 1 and o.calls[0][0] == 'error', 'the request fails')
        expect_eq(c.protocolVersion, before, 'and the requester keeps its version')
        cover('no common version')


def check_unsupported():
    """asking for a version this side does not support sends nothing"""
    c, ct = connect(False)
    juice.VERSIONS = choose(([1], [1, 2], []), 'supported')
    keep = list(juice.VERSIONS)
    try:
        c.renegotiateVersion(choose((0, 3, 7), 'version'))
    except Exception:
        expect(ct.events == [], 'nothing is sent')
        expect_eq(c.protocolVersion, 0, 'nothing changes')
        cover('not supported here')
    else:
        expect(False, 'a version that is not supported here is refused')
    expect_eq(juice.VERSIONS, keep, 'the versions supported stay')


def check_choice():
    """the responder takes the first version offered that it supports"""
    s, st = connect(True)
    offered = choose(((1,), (2,), (1, 2), (2, 1), (3, 2, 1), (3, 4), (4, 1, 2), (5, 3, 2)), 'offered')
    theirs = choose(([1], [2], [1, 2], [2, 1], [3, 1]), 'supported')
    juice.VERSIONS = list(theirs)
    s.dataReceived(wire([('_command', 'Negotiate'), ('_ask', 'a'), ('versions', ', '.join([str(v) for v in offered]))]))
    want = [v for v in offered if v in theirs]
    got = sent(st)
    expect(len(got) == 1, 'one reply')
    if want:
        expect_eq(got[0].get('version'), str(want[0]), 'the first version offered that is supported')
        expect_eq(s.protocolVersion, want[0], 'which is used from then on')
    else:
        expect('_error' in got[0] and 'version' not in got[0], 'refused')
        expect_eq(s.protocolVersion, 0, 'unchanged')
    if len(offered) > 1:
        cover('several')
    expect_eq(juice.VERSIONS, theirs, 'the versions supported stay')


def check_answer():
    """the requester uses the version the answer states"""
    c, ct = connect(False)
    juice.VERSIONS = [1, 2, 3]
    Outcome(c.renegotiateVersion(2))
    tag = sent(ct)[0]['_ask']
    v = sym_int('version', 0)
    c.dataReceived(wire([('_answer', tag), ('version', '%d' % (v,))]))
    expect_eq(c.protocolVersion, v, 'the version of the answer')
    cover('other answer')


def check_twice():
    """a later negotiation counts, whether it goes up or down"""
    c, ct = connect(False)
    s, st = connect(True)
    juice.VERSIONS = [1, 2, 3]
    for i in range(3):
        v = choose((1, 2, 3), 'version %d' % i)
        o = Outcome(c.renegotiateVersion(v))
        deliver(ct, s)
        expect_eq(s.protocolVersion, v, 'the responder uses the version it chose')
        deliver(st, c)
        expect_eq(c.protocolVersion, v, 'the requester uses it too')
        expect(len(o.calls) == 1 and o.calls[0][0] == 'ok', 'agreed')
    cover('down again')
