TYPE_CHECKING = False


class _Form(object):
    def __getitem__(self, item):
        return self

    def __or__(self, other):
        return self

    def __ror__(self, other):
        return self


Any = _Form()
Optional = Union = Callable = List = Dict = Tuple = Set = FrozenSet = Type = _Form()
Iterable = Iterator = Sequence = Mapping = MutableMapping = Generator = ClassVar = Final = Literal = _Form()
Text = str
AnyStr = _Form()


def cast(typ, value):
    return value


def overload(f):
    return f


def final(f):
    return f


def TypeVar(name, *a, **kw):
    return _Form()


class _NTMeta(type):
    def __new__(meta, name, bases, ns):
        if not bases:
            return type.__new__(meta, name, bases, ns)
        from collections import namedtuple
        names = list(ns.get('__annotations__', {}))
        defaults = [ns[n] for n in names if n in ns]
        base = namedtuple(name, names, defaults)
        body = {}
        for k, v in ns.items():
            if k not in names and k not in ('__annotations__', '__qualname__'):
                body[k] = v
        return type(name, (base,), body)


class NamedTuple(metaclass=_NTMeta):
    pass
