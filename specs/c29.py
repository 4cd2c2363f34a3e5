"""C29: printing a record terminates and leaves no trace."""
from verif import choose, expect, expect_eq, cover, fail, sym_str
from epsilon.structlike import record
from twisted.python import context

COVER = ('plain', 'cycle', 'raised', 'thread', 'again', 'long cycle', 'shared')


class Shown(object):
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


class Rec(record('first second')):
    pass


class Alike(record('first second')):
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Other(record('item', item=None)):
    pass


def check_plain():
    a, b = sym_str('a'), sym_str('b')
    r = Rec(Shown(a), Shown(b))
    for i in range(2):
        expect_eq(repr(r), 'Rec(first=' + a + ', second=' + b + ')', 'class name and attributes in order')
    c = sym_str('c')
    r.first = Shown(c)
    expect_eq(repr(r), 'Rec(first=' + c + ', second=' + b + ')', 'the current values are shown')
    cover('plain')


def check_values():
    """Values that are false, None or plain data."""
    r = Rec(None, choose((0, '', 'x', [], (1, 'a'), {'k': 1}, False), 'value'))
    expect_eq(repr(r), 'Rec(first=None, second=' + repr(r.second) + ')', 'every value is shown by its representation')


def check_shared():
    """The same record twice, not nested in itself, is printed in full twice."""
    inner = Other(Shown(sym_str('x')))
    r = Rec(inner, inner)
    full = 'Other(item=' + sym_str('x') + ')'
    expect_eq(repr(r), 'Rec(first=' + full + ', second=' + full + ')', 'a record that is not being printed is not abbreviated')
    r = Rec([inner], {'k': inner})
    expect_eq(repr(r), 'Rec(first=[' + full + "], second={'k': " + full + '})', 'inside containers too')
    # equal but distinct records
    r = Rec(Rec(1, 2), Rec(1, 2))
    expect_eq(repr(r), 'Rec(first=Rec(first=1, second=2), second=Rec(first=1, second=2))', 'nested records are printed')
    # records which call themselves equal
    r = Alike(Alike(Shown(sym_str('x')), 1), Alike(2, 3))
    expect_eq(repr(r), 'Alike(first=Alike(first=' + sym_str('x') + ', second=1), second=Alike(first=2, second=3))',
              'a record that equals the one being printed is not abbreviated')
    cover('shared')


def check_cycle():
    r = Rec(None, Shown(sym_str('t')))
    k = choose(3, 'shape')
    if k == 0:
        r.first = r
        want = 'Rec(first=Rec(...), second=' + sym_str('t') + ')'
    elif k == 1:
        r.first = [r]
        want = 'Rec(first=[Rec(...)], second=' + sym_str('t') + ')'
    else:
        o = Other(r)
        r.first = o
        want = 'Rec(first=Other(item=Rec(...)), second=' + sym_str('t') + ')'
        cover('long cycle')
    for i in range(2):
        expect_eq(repr(r), want, 'a record being printed is abbreviated, everything else is shown')
    cover('cycle')
    r.first = 1
    expect_eq(repr(r), 'Rec(first=1, second=' + sym_str('t') + ')', 'no trace is left')
    if k == 2:
        expect_eq(repr(o), 'Other(item=Rec(first=1, second=' + sym_str('t') + '))', 'no trace is left')
    cover('again')


class Raiser(object):
    def __init__(self):
        self.bad = True
        self.text = 'fine'

    def __repr__(self):
        if self.bad:
            raise ValueError('unprintable')
        return self.text


def check_raise():
    """An attribute that cannot be printed, at any depth; then everything prints again."""
    bad = Raiser()
    inner = Other(bad)
    depth = choose(3, 'depth')
    r = Rec(1, 2)
    if depth == 0:
        r.first = bad
        want = 'fine'
    elif depth == 1:
        r.first = inner
        want = 'Other(item=fine)'
    else:
        r.first = [Rec(inner, r)]
        want = '[Rec(first=Other(item=fine), second=Rec(...))]'
    try:
        repr(r)
    except ValueError:
        cover('raised')
    else:
        fail('an error of an attribute is passed on')
    bad.bad = False
    expect_eq(repr(r), 'Rec(first=' + want + ', second=2)', 'after an error records print in full')
    expect_eq(repr(inner), 'Other(item=fine)', 'after an error inner records print in full')


def check_handled_error():
    """An attribute whose representation handles an error while printing its owner."""
    bad = Raiser()
    inner = Other(bad)

    class Careful(object):
        def __repr__(self):
            try:
                return repr(inner)
            except ValueError:
                bad.bad = False
                return '<' + repr(inner) + '>'
    r = Rec(Careful(), 1)
    expect_eq(repr(r), 'Rec(first=<Other(item=fine)>, second=1)', 'bookkeeping is undone when an error is handled meanwhile')


def check_thread():
    """Another thread prints the same record while this one is printing it."""
    seen = []

    class Switch(object):
        def __repr__(self):
            if seen:
                return 'in other thread'
            seen.append(1)
            old = context.enter_thread('other')
            try:
                seen.append(repr(r))
            finally:
                context.enter_thread(old)
            return 'here'
    r = Rec(Switch(), 2)
    out = repr(r)
    expect_eq(out, 'Rec(first=here, second=2)', 'the first thread prints in full')
    expect_eq(seen[1], 'Rec(first=in other thread, second=2)', 'prints in other threads are not abbreviated')
    expect_eq(repr(r), 'Rec(first=in other thread, second=2)', 'later prints are not abbreviated')
    cover('thread')
