class _Missing(object):
    pass


MISSING = _Missing()


class Field(object):
    def __init__(self, default=MISSING, default_factory=MISSING, init=True, repr=True, compare=True, hash=None,
                 kw_only=False, metadata=None):
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.repr = repr
        self.compare = compare
        self.name = None


field = Field


class FrozenInstanceError(AttributeError):
    pass


def dataclass(cls=None, init=True, repr=True, eq=True, order=False, frozen=False, unsafe_hash=False, slots=False,
              kw_only=False):
    if cls is None:
        return lambda c: dataclass(c, init, repr, eq, order, frozen, unsafe_hash, slots, kw_only)
    if order or slots or kw_only:
        raise NotImplementedError('dataclass options')
    fields = {}
    for k in reversed(cls.__mro__[1:]):
        fields.update(k.__dict__.get('__dataclass_fields__', {}))
    for n in cls.__dict__.get('__annotations__', {}):
        d = cls.__dict__.get(n, MISSING)
        f = d if isinstance(d, Field) else Field(default=d)
        f.name = n
        fields[n] = f
        if isinstance(d, Field):
            if d.default is MISSING:
                delattr(cls, n)
            else:
                setattr(cls, n, d.default)
    cls.__dataclass_fields__ = fields
    names = [n for n in fields if fields[n].init]
    cls.__match_args__ = tuple(names)

    def put(name, f):
        if name not in cls.__dict__:
            setattr(cls, name, f)

    if init:
        def __init__(self, *args, **kw):
            if len(args) > len(names):
                raise TypeError('too many positional arguments')
            got = dict(zip(names, args))
            for n, v in kw.items():
                if n in got or n not in names:
                    raise TypeError('got an unexpected keyword argument %r' % (n,))
                got[n] = v
            for n, f in fields.items():
                if n in got:
                    v = got[n]
                elif f.default is not MISSING:
                    v = f.default
                elif f.default_factory is not MISSING:
                    v = f.default_factory()
                elif f.init:
                    raise TypeError('missing required argument: %r' % (n,))
                else:
                    continue
                object.__setattr__(self, n, v)
            if hasattr(self, '__post_init__'):
                self.__post_init__()
        put('__init__', __init__)
    if repr:
        def __repr__(self):
            return '%s(%s)' % (type(self).__qualname__, ', '.join(
                ['%s=%r' % (n, getattr(self, n)) for n, f in fields.items() if f.repr]))
        put('__repr__', __repr__)
    if eq:
        def __eq__(self, other):
            if other.__class__ is not self.__class__:
                return NotImplemented
            for n, f in fields.items():
                if f.compare and getattr(self, n) != getattr(other, n):
                    return False
            return True
        put('__eq__', __eq__)
        if frozen or unsafe_hash:
            put('__hash__', lambda self: hash(tuple([getattr(self, n) for n, f in fields.items() if f.compare])))
        elif '__hash__' not in cls.__dict__:
            cls.__hash__ = None
    if frozen:
        def __setattr__(self, name, value):
            raise FrozenInstanceError('cannot assign to field %r' % (name,))
        cls.__setattr__ = __setattr__
    return cls


def fields(c):
    return tuple(c.__dataclass_fields__.values())


def asdict(o):
    return dict([(n, getattr(o, n)) for n in o.__dataclass_fields__])


def astuple(o):
    return tuple([getattr(o, n) for n in o.__dataclass_fields__])


def replace(o, **kw):
    d = asdict(o)
    d.update(kw)
    return type(o)(**d)
