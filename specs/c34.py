"""C34: attribute descriptors call exactly the accessor defined."""
from verif import choose, expect, cover, fail, sym_str
from epsilon.descriptor import attribute, requiredAttribute
from anyval import Any

COVER = ('get', 'set', 'delete', 'no accessor', 'required unset', 'required set', 'accessor raised')


class V(Any):
    pass


class Boom(Exception):
    pass


def build(g, s, d, log):
    """the result of each accessor is V/None; 'raise' for one raising"""
    class C(Any):
        class attr(attribute):
            if g:
                def get(self):
                    log.append(('get', self))
                    if g == 'raise':
                        raise Boom()
                    return g
            if s:
                def set(self, value):
                    log.append(('set', self, value))
                    if s == 'raise':
                        raise Boom()
            if d:
                def delete(self):
                    log.append(('delete', self))
                    if d == 'raise':
                        raise Boom()

        class second(attribute):
            def get(self):
                log.append(('second get', self))
                return 2

            def set(self, value):
                log.append(('second set', self, value))

            def delete(self):
                log.append(('second delete', self))
    return C


def attempt(f):
    try:
        return f(), None
    except AttributeError:
        return None, 'attribute'
    except Boom:
        return None, 'boom'


def outcome(kind, log, want, err, what):
    if not kind:
        expect(err == 'attribute', 'an operation without accessor is an AttributeError')
        expect(log == [], 'no accessor is called')
        cover('no accessor')
        return
    expect(log == [want], 'exactly the defined accessor is called, once, with the instance (and value)')
    if kind == 'raise':
        expect(err == 'boom', 'the error of the accessor is passed on')
        cover('accessor raised')
    else:
        expect(err is None, 'the operation succeeds')
        cover(what)


def check_accessors():
    log = []
    g = choose((None, V(), 'raise'), 'get')
    s = choose((None, 'ok', 'raise'), 'set')
    d = choose((None, 'ok', 'raise'), 'delete')
    C = build(g, s, d, log)
    if choose(2, 'subclass'):
        class S(C):
            pass
        C = S
    o = C()
    o.mark = 'm'
    bool(o)
    before = dict(o.__dict__)
    for op in ('get', 'set', 'get', 'delete', 'get'):
        del log[:]
        if op == 'get':
            r, err = attempt(lambda: o.attr)
            outcome(g, log, ('get', o), err, 'get')
            if g and g != 'raise':
                expect(r is g, 'the value of the accessor is the value of the attribute')
        elif op == 'set':
            v = V()
            def f():
                o.attr = v
            r, err = attempt(f)
            outcome(s, log, ('set', o, v), err, 'set')
        else:
            def f():
                del o.attr
            r, err = attempt(f)
            outcome(d, log, ('delete', o), err, 'delete')
        expect(o.__dict__ == before, 'the instance is not touched')
    del log[:]
    o.second = 5
    expect(log == [('second set', o, 5)], 'another attribute has its own accessors')
    del log[:]
    expect(o.second == 2 and log == [('second get', o)], 'another attribute has its own accessors')
    del log[:]
    del o.second
    expect(log == [('second delete', o)], 'another attribute has its own accessors')


def check_class_access():
    log = []
    C = build('x', 'ok', 'ok', log)
    expect(C.attr is C.__dict__['attr'], 'access through the class gives the descriptor')
    expect(log == [], 'and calls no accessor')


def check_required():
    name = 'req'
    style = choose(('class', 'inherited'), 'style')

    class M(Any):
        req = requiredAttribute('req')
        other = requiredAttribute('other')
    C = M
    if style == 'inherited':
        class C(M):
            pass
    a, b = C(), C()
    values = [V(), None, 0, '']
    cur = {}
    for i in range(3):
        step = choose(('set a', 'set b', 'set other', 'delete'), 'step %d' % i)
        v = choose(values, 'value %d' % i) if step != 'delete' else None
        if step == 'set a':
            a.req = v
            cur[('a', 'req')] = v
        elif step == 'set b':
            b.req = v
            cur[('b', 'req')] = v
        elif step == 'set other':
            a.other = v
            cur[('a', 'other')] = v
        else:
            try:
                del a.req
            except AttributeError:
                pass
            else:
                fail('a required attribute cannot be deleted')
        for n, o in (('a', a), ('b', b)):
            for k in ('req', 'other'):
                try:
                    got = getattr(o, k)
                except AttributeError:
                    expect((n, k) not in cur, 'a value which was set is yielded')
                    cover('required unset')
                else:
                    expect((n, k) in cur, 'AttributeError until it has been set on that instance')
                    expect(got is cur[(n, k)], 'the value last set on that instance')
                    cover('required set')


def check_required_overridden():
    class M(object):
        req = requiredAttribute('req')

    class C(M):
        req = 7
    o = C()
    expect(o.req == 7, 'a derived class supplies the value')
    class D(M):
        pass
    try:
        D().req
    except AttributeError:
        cover('required unset')
    else:
        fail('another class is unaffected')


def check_instance_dict():
    """what the instance has under the name of the attribute is not looked at"""
    log = []
    v = object()
    C = build(v, True, True, log)
    o = C()
    o.__dict__['attr'] = V()
    expect(o.attr is v and log == [('get', o)], 'reading calls the accessor')
    del log[:]
    w = V()
    o.attr = w
    expect(log == [('set', o, w)], 'assigning calls the accessor')
    del log[:]
    o.attr = C.attr
    expect(log == [('set', o, C.attr)], 'whatever is assigned')
    del log[:]
    del o.attr
    expect(log == [('delete', o)], 'deleting calls the accessor')
