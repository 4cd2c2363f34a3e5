"""C28: records accept exactly the declared attributes."""
from verif import choose, expect, expect_eq, cover, fail, sym_str
from epsilon.structlike import record
from anyval import Any

COVER = ('created', 'refused', 'bad declaration', 'independent', 'mixed')


class V(Any):
    """an arbitrary value"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return self.what


def declare(names, ndef, style):
    """record() with defaults for the last ndef names"""
    defaults = {}
    for n in names[len(names) - ndef:]:
        defaults[n] = V('default ' + n)
    if style == 'keywords':
        return record(**dict(defaults)), defaults
    return record(' '.join(names), **dict(defaults)), defaults


def bind(names, defaults, args, kw):
    """Python's parameter binding; None if it is a TypeError"""
    if len(args) > len(names):
        return None
    out = {}
    for n, v in zip(names, args):
        out[n] = v
    for n, v in kw.items():
        if n not in names or n in out:
            return None
        out[n] = v
    for n in names:
        if n not in out:
            if n not in defaults:
                return None
            out[n] = defaults[n]
    return out


def check_binding():
    n = choose((1, 2, 3), 'attributes')
    names = ['alpha', 'beta', 'gamma'][:n]
    ndef = choose(n + 1, 'defaults')
    R, defaults = declare(names, ndef, 'string')
    if choose(2, 'subclass'):
        class S(R):
            pass
        R = S
    args = [V('positional %d' % i) for i in range(choose(n + 2, 'positionals'))]
    kw = {}
    for k in names + ['other']:
        if choose(2, 'keyword ' + k):
            kw[k] = V('keyword ' + k)
    if choose(2, 'None and 0'):
        args = [None] * len(args)
        kw = {k: 0 for k in kw}
    want = bind(names, defaults, args, kw)
    given = dict(kw)
    try:
        r = R(*args, **kw)
    except TypeError:
        expect(want is None, 'a call Python would accept creates a record')
        cover('refused')
    else:
        expect(want is not None, 'a call Python would refuse raises TypeError')
        for k in names:
            expect(getattr(r, k) is want[k], 'each attribute gets the value Python would bind')
        for k in ('alpha', 'beta', 'gamma', 'other'):
            expect((k in r.__dict__) == (k in want), 'only declared attributes are set')
        cover('created')
    expect(list(kw.items()) == list(given.items()), 'the arguments of the caller are not changed')
    # creating one instance does not affect the next
    want2 = bind(names, defaults, [V('second') for k in names], {})
    r2 = R(*[want2[k] for k in names])
    for k in names:
        expect(getattr(r2, k) is want2[k], 'a later instance is unaffected')
    if ndef == n:
        r3 = R()
        for k in names:
            expect(getattr(r3, k) is defaults[k], 'defaults are unaffected')
    if want is not None:
        for k in names:
            expect(getattr(r, k) is want[k], 'an earlier instance is unaffected')
    cover('independent')


def check_keyword_declaration():
    """record(a=..., b=...): attributes in sorted order."""
    b, a = V('default b'), V('default a')
    R = record(b=b, a=a)
    x, y = V('x'), V('y')
    r = R(x)
    expect(r.a is x and r.b is b, 'attributes declared by keyword alone are ordered by name')
    r = R(x, y)
    expect(r.a is x and r.b is y, 'positionals follow the sorted names')
    r = R()
    expect(r.a is a and r.b is b, 'all defaults apply')
    r = R(b=y)
    expect(r.a is a and r.b is y, 'keywords override defaults')


def refused(f):
    try:
        f()
    except TypeError:
        cover('bad declaration')
        return
    fail('a bad record declaration raises TypeError')


def check_declaration():
    """Any subset of defaults over three names."""
    names = ['one', 'two', 'three']
    kw = {}
    have = []
    for n in names:
        h = choose(2, 'default ' + n)
        have.append(h)
        if h:
            kw[n] = V('d ' + n)
    extra = choose(2, 'default for an undeclared name')
    if extra:
        kw['four'] = V('d4')
    gap = False
    for i in range(2):
        if have[i] and not have[i + 1]:
            gap = True
    before = dict(kw)
    try:
        R = record('one  two three', **kw)
    except TypeError:
        expect(gap or extra, 'a proper declaration is accepted')
        cover('bad declaration')
        return
    expect(not gap and not extra, 'defaults with gaps or for undeclared names raise TypeError')
    missing = [n for n, h in zip(names, have) if not h]
    r = R(*[V(n) for n in missing])
    for n in names:
        if n in before:
            expect(getattr(r, n) is before[n], 'declared defaults apply')


def check_default_values():
    """whatever the value, it is a default; whatever the value given, it replaces the default"""
    a, b = choose((None, 0, '', V('a'), record), 'default a'), choose((None, False, V('b')), 'default b')
    R = record('a b', a=a, b=b)
    r = R()
    expect(r.a is a and r.b is b, 'defaults apply')
    v = choose((None, 0, '', V('v')), 'value')
    for r in (R(v), R(a=v)):
        expect(r.a is v and r.b is b, 'a value given replaces the default')
    for r in (R(v, b=v), R(v, v), R(b=v, a=v)):
        expect(r.a is v and r.b is v, 'values given replace the defaults')
    S = record('a b', b=b)
    expect(S(v).a is v and S(v).b is b, 'the default applies')
    refused(lambda: S())
    refused(lambda: S(v, a=v))
    refused(lambda: S(b=v))


def check_no_attributes():
    refused(lambda: record())


def check_two_positionals():
    refused(lambda: record('a b', 'c'))


def check_mutable_default_shared_as_python():
    """Two classes declared alike stay independent."""
    d = V('d')
    A, B = record('p q', q=d), record('p q', q=None)
    expect(A(1).q is d and B(1).q is None, 'record classes do not share defaults')
    x = A(1, 2)
    expect(A(3).q is d and B(1).q is None, 'instances do not change defaults')


def check_other_bases():
    """a record among several base classes: theirs are initialized as well"""
    made = []

    class Other(object):
        def __init__(self):
            super(Other, self).__init__()
            made.append(self)
            self.other = V('other')

    class Mixed(record('a b', b=None), Other):
        pass
    v = V('v')
    m = Mixed(v) if choose(2, 'positional') else Mixed(a=v)
    expect(m.a is v and m.b is None, 'the attributes are bound')
    expect(len(made) == 1 and made[0] is m, 'the next base class is initialized once')
    expect(m.other.what == 'other', 'with what it sets')
    refused(lambda: Mixed())
    expect(len(made) <= 2, 'at most once each')
    cover('mixed')


def check_class_attributes():
    """attributes of derived classes do not change what a record takes"""
    v, w, x = object(), object(), object()

    class P(record('a b', b=v)):
        a = w
        b = w
        __names = ()
    p = P(x)
    expect(p.a is x and p.b is v, 'the declared default')
    p.b = w
    q = P(x)
    expect(q.b is v, 'for every record')
    expect(P(x, x).b is x, 'or what was given')
    refused(lambda: P())
    refused(lambda: P(b=x))
