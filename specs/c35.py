"""C35: a remembered attribute is computed once per instance."""
from verif import choose, expect, cover, fail, sym_int, sym_str, sym_bool
from epsilon.remember import remembered

COVER = ('computed', 'remembered', 'raised', 'super', 'same name', 'every name')


class V(object):
    pass


class Boom(Exception):
    pass


class LookUp(Boom, AttributeError, KeyError, StopIteration):
    pass


class Never(object):
    """equal to nothing, not even to itself"""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    def __bool__(self):
        return False
    __hash__ = object.__hash__


calls = []


def values():
    return (V(), Never(), float('nan'), None, 0, False, '', (), sym_int('number', None, None), sym_str('text'), sym_bool('flag'))


def build(same):
    """two attributes; with the same function name if asked"""
    def f(self):
        calls.append(('f', self))
        r = self.results.pop(0)
        if isinstance(r, Boom):
            raise r
        return r

    def mk():
        if same:
            def f(self):
                calls.append(('g', self))
                return self.second
            return f
        def g(self):
            calls.append(('g', self))
            return self.second
        return g
    g = mk()

    class C(object):
        one = remembered(f)
        two = remembered(g)

        def __init__(self, results, second):
            self.results = list(results)
            self.second = second
    return C


def check_once():
    same = choose(2, 'same function name')
    C = build(same)
    if choose(2, 'subclass'):
        class S(C):
            pass
        C = S
    v = choose(values(), 'value')
    other = V()
    del calls[:]
    o, p = C([v, V()], V()), C([other, V()], V())
    expect(calls == [], 'nothing is computed before the first access')
    expect(o.one is v, 'the computed value')
    expect(calls == [('f', o)], 'one call, with the instance')
    cover('computed')
    for i in range(3):
        expect(o.one is v, 'the identical value')
        expect(calls == [('f', o)], 'no further computation')
    cover('remembered')
    expect(p.one is other, 'another instance computes its own')
    expect(calls == [('f', o), ('f', p)], 'one call for the other instance')
    expect(o.two is o.second, 'another attribute has its own value')
    if same:
        cover('same name')
    expect(p.two is p.second, 'another attribute has its own value')
    expect(calls == [('f', o), ('f', p), ('g', o), ('g', p)], 'one call each')
    expect(o.one is v and p.one is other and o.two is o.second and p.two is p.second, 'all remembered')
    expect(len(calls) == 4, 'and not computed again')
    q = C([V()], V())
    expect(q.one is not v and q.one is not other, 'a later instance shares nothing')


def check_raises():
    C = build(False)
    b, v = choose((Boom(), LookUp()), 'error'), choose(values(), 'value')
    o = C([b, b, v, V()], V())
    del calls[:]
    for i in range(2):
        try:
            o.one
        except Boom as e:
            expect(e is b, 'the error is passed on')
        else:
            fail('the error of the computation is passed on')
        expect(len(calls) == i + 1, 'a failed computation is repeated')
    expect(o.two is o.second, 'other attributes are unaffected')
    del calls[:]
    expect(o.one is v, 'nothing was remembered of the failures')
    expect(o.one is v, 'then it is remembered')
    expect(calls == [('f', o)], 'computed once')
    cover('raised')


def check_super():
    class A(object):
        @remembered
        def x(self):
            calls.append('A')
            return self.va

    class B(A):
        @remembered
        def x(self):
            calls.append('B')
            return (super(B, self).x, self.vb)
    o = B()
    o.va, o.vb = choose((V(), None), 'value'), V()
    del calls[:]
    order = choose(('base first', 'derived first'), 'order')
    if order == 'base first':
        expect(super(B, o).x is o.va, 'the attribute of the base class')
    r = o.x
    expect(r[0] is o.va and r[1] is o.vb, 'the attribute of the derived class')
    expect(super(B, o).x is o.va, 'different attributes never share values')
    expect(o.x is r, 'remembered')
    expect(sorted(calls) == ['A', 'B'], 'each computed once')
    cover('super')


def check_reentrant():
    """computing one remembered attribute may access another"""
    class A(object):
        @remembered
        def inner(self):
            calls.append('inner')
            return self.v

        @remembered
        def outer(self):
            calls.append('outer')
            return (self.inner, self.inner)
    o = A()
    o.v = choose((V(), None, 0), 'value')
    del calls[:]
    r = o.outer
    expect(r[0] is o.v and r[1] is o.v, 'the value')
    expect(o.outer is r and o.inner is o.v, 'both remembered')
    expect(calls == ['outer', 'inner'], 'computed once each')


def check_any_attribute():
    """the object has a value for every name"""
    class Wide(object):
        n = 0

        def __getattr__(self, name):
            return 'made up'

        @remembered
        def one(self):
            self.n += 1
            return [self.n]
    w = Wide()
    first = w.one
    expect(first == [1] and w.n == 1, 'computed by the function')
    expect(w.one is first and w.n == 1, 'and remembered')
    cover('every name')
