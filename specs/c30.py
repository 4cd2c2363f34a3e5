"""C30: an exposer hands out only what was exposed for that purpose."""
from verif import choose, expect, cover, fail, sym_str, assume
from epsilon.expose import Exposer, MethodNotExposed, NameRequired

COVER = ('found', 'refused', 'other exposer', 'overridden', 'deleted',
         'instance attribute', 'no name')


def get(exposer, obj, key):
    try:
        return exposer.get(obj, key)
    except MethodNotExposed:
        return None


def bound(m, obj, result):
    expect(m is not None, 'an exposed method is found')
    expect(m.__self__ is obj, 'the method is bound to that object')
    expect(m() == (obj, result), 'the method exposed under the key is the one handed out')
    cover('found')


def method(result):
    def m(self):
        return (self, result)
    return m


def check_exposed_or_not():
    """Two exposers, arbitrary keys, one method exposed by an arbitrary
    subset of them; every lookup."""
    one, two = Exposer('one'), Exposer('two')
    ka, kb = sym_str('keyA'), sym_str('keyB')
    kind = choose(('one', 'two', 'both', 'plain'), 'exposed by')

    class C(object):
        def f(self):
            return (self, 'f')

        def g(self):
            return (self, 'g')

        if kind in ('one', 'both'):
            f = one.expose(ka)(f)
        if kind in ('two', 'both'):
            f = two.expose(kb)(f)
    o = C()
    look = sym_str('looked up')
    m = get(one, o, look)
    if kind in ('one', 'both') and look == ka:
        bound(m, o, 'f')
    else:
        expect(m is None, 'only what this exposer exposed under this key is handed out')
        cover('refused')
    m = get(two, o, look)
    if kind in ('two', 'both') and look == kb:
        bound(m, o, 'f')
    else:
        expect(m is None, 'another exposer does not hand it out')
        cover('other exposer')
    # an unrelated class which happens to have the same names
    class D(object):
        def f(self):
            return (self, 'other')
    expect(get(one, D(), look) is None, 'other classes expose nothing')
    expect(get(two, D(), look) is None, 'other classes expose nothing')
    # looking up changes nothing
    m = get(one, o, look)
    if kind in ('one', 'both') and look == ka:
        bound(m, o, 'f')
    else:
        expect(m is None, 'a repeated lookup gives the same answer')


def check_decorator_returns():
    e = Exposer('doc')
    def f(self):
        return (self, 'f')
    expect(e.expose('k')(f) is f, 'exposing returns the very function')
    expect(e.expose()(f) is f, 'exposing returns the very function')
    class C(object):
        g = f
    o = C()
    bound(get(e, o, 'k'), o, 'f')
    bound(get(e, o, 'f'), o, 'f')
    expect(get(e, o, 'g') is None, 'the key is the name of the function, not of the attribute')


def check_name_required():
    e = Exposer('doc')
    thing = choose((staticmethod(lambda: 1), 3, object()), 'thing')
    try:
        e.expose()(thing)
    except NameRequired:
        cover('no name')
    else:
        fail('something without a name needs an explicit key')
    class C(object):
        x = thing
    expect(get(e, C(), 'x') is None, 'nothing was exposed')


def check_hierarchy():
    """base and subclass, each defining the method in some way"""
    e, other = Exposer('e'), Exposer('other')
    inBase = choose(('exposed', 'plain', 'absent', 'other'), 'base')
    inSub = choose(('exposed', 'plain', 'absent', 'other', 'value'), 'subclass')
    middle = choose((False, True), 'class in between')

    class Base(object):
        if inBase == 'exposed':
            @e.expose('k')
            def f(self):
                return (self, 'base')
        elif inBase == 'other':
            @other.expose('k')
            def f(self):
                return (self, 'base')
        elif inBase == 'plain':
            def f(self):
                return (self, 'base')
    B = Base
    if middle:
        class B(Base):
            pass

    class Sub(B):
        if inSub == 'exposed':
            @e.expose('k')
            def f(self):
                return (self, 'sub')
        elif inSub == 'other':
            @other.expose('k')
            def f(self):
                return (self, 'sub')
        elif inSub == 'plain':
            def f(self):
                return (self, 'sub')
        elif inSub == 'value':
            f = None
    b, s = B(), Sub()
    m = get(e, b, 'k')
    if inBase == 'exposed':
        bound(m, b, 'base')
    else:
        expect(m is None, 'a base class exposes only what it exposed itself')
    m = get(e, s, 'k')
    if inSub == 'exposed':
        bound(m, s, 'sub')
    elif inSub == 'absent' and inBase == 'exposed':
        bound(m, s, 'base')
    else:
        expect(m is None, 'an overriding attribute must be exposed again')
        if inSub in ('plain', 'value') and inBase == 'exposed':
            cover('overridden')


def check_two_names():
    """Different methods under the same key in base and subclass: the nearest
    in resolution order."""
    e = Exposer('e')

    class A(object):
        @e.expose('k')
        def a(self):
            return (self, 'a')

    class B(object):
        @e.expose('k')
        def b(self):
            return (self, 'b')
    which = choose(('sub', 'left', 'right', 'deep'), 'shape')
    if which == 'sub':
        class C(A):
            @e.expose('k')
            def c(self):
                return (self, 'c')
        want = 'c'
    elif which == 'left':
        class C(A, B):
            pass
        want = 'a'
    elif which == 'right':
        class C(B, A):
            pass
        want = 'b'
    else:
        class X(A):
            pass

        class Y(A):
            @e.expose('k')
            def y(self):
                return (self, 'y')

        class C(X, Y):
            pass
        want = 'y'
    o = C()
    bound(get(e, o, 'k'), o, want)
    oa = A()
    bound(get(e, oa, 'k'), oa, 'a')


def check_changes_later():
    """Deleting or replacing after exposing; setting on the instance only."""
    e = Exposer('e')

    class C(object):
        @e.expose('k')
        def f(self):
            return (self, 'f')

        @e.expose('k2')
        def g(self):
            return (self, 'g')
    o = C()
    what = choose(('delete', 'replace', 'instance', 'instance replaced', 'moved'), 'change')
    if what == 'delete':
        del C.f
        expect(get(e, o, 'k') is None, 'a deleted method is refused')
        cover('deleted')
    elif what == 'replace':
        C.f = method('new')
        expect(get(e, o, 'k') is None, 'a replaced method is refused')
    elif what == 'instance':
        def h(self):
            return (self, 'h')
        e.expose('k3')(h)
        o.h = h
        expect(get(e, o, 'k3') is None, 'something set on the instance only is refused')
        cover('instance attribute')
    elif what == 'instance replaced':
        o.f = 3
        bound(get(e, o, 'k'), o, 'f')
    else:
        # the subclass attribute of that name is the base function of another name
        class D(C):
            g = C.__dict__['f']
        d = D()
        bound(get(e, d, 'k'), d, 'f')
        expect(get(e, d, 'k2') is None, 'overridden by another method')
    bound(get(e, o, 'k2'), o, 'g')


def check_many():
    """many methods under one key, of unrelated classes"""
    e = Exposer('e')
    out = []
    for i in range(40):
        class C(object):
            m = e.expose('k')(method(i))
        out.append(C())
    for i in (0, 1, 20, 38, 39):
        bound(get(e, out[i], 'k'), out[i], i)


def check_key_values():
    """any key, also one counting as false"""
    e = Exposer('e')
    k = choose(('', 0, (), b'', 5, ('a', 1), frozenset()), 'key')

    class C(object):
        @e.expose(k)
        def f(self):
            return (self, 'f')
    o = C()
    bound(get(e, o, k), o, 'f')
    expect(get(e, o, 'f') is None, 'under its key only')
    expect(get(e, o, 'other') is None, 'under its key only')


class Alike(object):
    """equal to everything, exposed nowhere"""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1

    def __get__(self, obj, cls):
        return 'unsafe'


def check_wrapped():
    """something around an exposed function is not that function"""
    e = Exposer('e')

    def f(self):
        return (self, 'f')
    e.expose('k')(f)
    how = choose(('function', 'static', 'class', 'alike'), 'around')
    if how == 'function':
        def w(self):
            return (self, 'w')
        w.__wrapped__ = f
        w.__name__ = 'f'
    elif how == 'static':
        w = staticmethod(f)
    elif how == 'class':
        w = classmethod(f)
    else:
        w = Alike()

    class C(object):
        pass
    setattr(C, choose(('f', 'k', 'g'), 'name'), w)
    expect(get(e, C(), 'k') is None, 'only the exposed function itself is handed out')

    class D(C):
        pass
    D.h = f
    d = D()
    bound(get(e, d, 'k'), d, 'f')


def check_several_keys():
    e = Exposer('e')

    class C(object):
        @e.expose('a')
        @e.expose('b')
        def f(self):
            return (self, 'f')

        @e.expose('c')
        def g(self):
            return (self, 'g')

    class D(object):
        @e.expose('a')
        def f(self):
            return (self, 'd')
    o, d = C(), D()
    bound(get(e, o, 'a'), o, 'f')
    bound(get(e, o, 'b'), o, 'f')
    bound(get(e, o, 'c'), o, 'g')
    bound(get(e, d, 'a'), d, 'd')
    expect(get(e, d, 'b') is None, 'exposed under another class only')
    expect(get(e, d, 'c') is None, 'exposed under another class only')
    expect(get(e, C, 'a') is None, 'the class itself exposes nothing')


def check_other_descriptors():
    """what is exposed is not touched: objects which take no attributes, and
    ones which are exposed for two purposes"""
    one, two = Exposer('one'), Exposer('two')

    class C(object):
        def __init__(self):
            self.n = object()

        @one.expose('n')
        @two.expose('m')
        @property
        def number(self):
            return self.n
    o = C()
    expect(one.get(o, 'n') is o.n, 'an exposed descriptor hands out what it computes')
    expect(two.get(o, 'm') is o.n, 'for each purpose')
    expect(get(one, o, 'm') is None and get(two, o, 'n') is None, 'under its keys only')


def check_large_class():
    """the method is found among many others"""
    e = Exposer('e')
    body = dict([('m%d' % i, method(i)) for i in range(200)])
    for i in range(200):
        e.expose('k%d' % i)(body['m%d' % i])
    C = type('C', (object,), body)
    o = C()
    for i in (0, 63, 64, 100, 199):
        bound(get(e, o, 'k%d' % i), o, i)
