def itemgetter(*ks):
    if len(ks) == 1:
        return lambda o: o[ks[0]]
    return lambda o: tuple([o[k] for k in ks])


def _dotted(o, n):
    for p in n.split('.'):
        o = getattr(o, p)
    return o


def attrgetter(*ns):
    if len(ns) == 1:
        return lambda o: _dotted(o, ns[0])
    return lambda o: tuple([_dotted(o, n) for n in ns])


def methodcaller(name, *a, **kw):
    return lambda o: getattr(o, name)(*a, **kw)


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def gt(a, b):
    return a > b


def ge(a, b):
    return a >= b


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def truediv(a, b):
    return a / b


def floordiv(a, b):
    return a // b


def mod(a, b):
    return a % b


def neg(a):
    return -a


def or_(a, b):
    return a | b


def and_(a, b):
    return a & b


def not_(a):
    return not a


def truth(a):
    return bool(a)


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def contains(a, b):
    return b in a


def getitem(a, b):
    return a[b]


def setitem(a, b, c):
    a[b] = c


def delitem(a, b):
    del a[b]


def index(a):
    return a.__index__()


def iadd(a, b):
    a += b
    return a


concat = add
