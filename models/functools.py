def reduce(f, it, *init):
    it = iter(it)
    if init:
        acc = init[0]
    else:
        acc = next(it)
    for x in it:
        acc = f(acc, x)
    return acc


class partial(object):
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.keywords = kw

    def __call__(self, *args, **kw):
        k = dict(self.keywords)
        k.update(kw)
        return self.func(*(self.args + args), **k)


class partialmethod(object):
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.keywords = kw

    def __get__(self, obj, cls=None):
        return partial(self.func.__get__(obj, cls), *self.args, **self.keywords)


WRAPPER_ASSIGNMENTS = ('__module__', '__name__', '__qualname__', '__doc__')
WRAPPER_UPDATES = ('__dict__',)


def update_wrapper(wrapper, wrapped, assigned=WRAPPER_ASSIGNMENTS, updated=WRAPPER_UPDATES):
    for a in assigned:
        if hasattr(wrapped, a):
            setattr(wrapper, a, getattr(wrapped, a))
    wrapper.__dict__.update(wrapped.__dict__)
    wrapper.__wrapped__ = wrapped
    return wrapper


def wraps(wrapped, assigned=WRAPPER_ASSIGNMENTS, updated=WRAPPER_UPDATES):
    return lambda w: update_wrapper(w, wrapped)


def total_ordering(cls):
    roots = [op for op in ('__lt__', '__le__', '__gt__', '__ge__')
             if getattr(cls, op, None) is not getattr(object, op, None)]
    if not roots:
        raise ValueError('must define at least one ordering operation: < > <= >=')

    def from_lt(cls):
        lt = '__lt__'

        def gt(self, other):
            r = type(self).__lt__(self, other)
            if r is NotImplemented:
                return r
            return not r and self != other

        def le(self, other):
            r = type(self).__lt__(self, other)
            if r is NotImplemented:
                return r
            return r or self == other

        def ge(self, other):
            r = type(self).__lt__(self, other)
            if r is NotImplemented:
                return r
            return not r
        return {'__gt__': gt, '__le__': le, '__ge__': ge}

    def from_le(cls):
        def ge(self, other):
            r = type(self).__le__(self, other)
            if r is NotImplemented:
                return r
            return not r or self == other

        def lt(self, other):
            r = type(self).__le__(self, other)
            if r is NotImplemented:
                return r
            return r and self != other

        def gt(self, other):
            r = type(self).__le__(self, other)
            if r is NotImplemented:
                return r
            return not r
        return {'__ge__': ge, '__lt__': lt, '__gt__': gt}

    def from_gt(cls):
        def lt(self, other):
            r = type(self).__gt__(self, other)
            if r is NotImplemented:
                return r
            return not (r or self == other)

        def ge(self, other):
            r = type(self).__gt__(self, other)
            if r is NotImplemented:
                return r
            return r or self == other

        def le(self, other):
            r = type(self).__gt__(self, other)
            if r is NotImplemented:
                return r
            return not r
        return {'__lt__': lt, '__ge__': ge, '__le__': le}

    def from_ge(cls):
        def le(self, other):
            r = type(self).__ge__(self, other)
            if r is NotImplemented:
                return r
            return not r or self == other

        def gt(self, other):
            r = type(self).__ge__(self, other)
            if r is NotImplemented:
                return r
            return r and self != other

        def lt(self, other):
            r = type(self).__ge__(self, other)
            if r is NotImplemented:
                return r
            return not r
        return {'__le__': le, '__gt__': gt, '__lt__': lt}
    root = max(roots)
    table = {'__lt__': from_lt, '__le__': from_le, '__gt__': from_gt, '__ge__': from_ge}
    for k, f in table[root](cls).items():
        if k not in roots:
            setattr(cls, k, f)
    return cls


class cached_property(object):
    def __init__(self, func):
        self.func = func
        self.attrname = None

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        cache = instance.__dict__
        if self.attrname in cache:
            return cache[self.attrname]
        v = self.func(instance)
        cache[self.attrname] = v
        return v


def cmp_to_key(mycmp):
    class K(object):
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return mycmp(self.obj, other.obj) < 0

        def __gt__(self, other):
            return mycmp(self.obj, other.obj) > 0

        def __eq__(self, other):
            return mycmp(self.obj, other.obj) == 0

        def __le__(self, other):
            return mycmp(self.obj, other.obj) <= 0

        def __ge__(self, other):
            return mycmp(self.obj, other.obj) >= 0
    return K


def _key(a, kw):
    return (a, tuple(sorted(kw.items()))) if kw else a


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return cache(maxsize)
    return cache


def cache(f):
    # (the least recently used entries are never dropped)
    memo = {}

    def wrapper(*a, **kw):
        k = _key(a, kw)
        if k not in memo:
            memo[k] = f(*a, **kw)
        return memo[k]
    update_wrapper(wrapper, f)
    wrapper.cache_clear = memo.clear
    return wrapper


def singledispatch(f):
    registry = {object: f}

    def dispatch(cls):
        for k in cls.__mro__:
            if k in registry:
                return registry[k]
        return f

    def register(cls, func=None):
        if func is None:
            return lambda g: register(cls, g)
        registry[cls] = func
        return func

    def wrapper(*a, **kw):
        return dispatch(a[0].__class__)(*a, **kw)
    update_wrapper(wrapper, f)
    wrapper.register = register
    wrapper.dispatch = dispatch
    return wrapper
