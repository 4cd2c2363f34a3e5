class _ABC(type):
    def __instancecheck__(cls, obj):
        for n in cls.needs:
            if not hasattr(type(obj), n):
                return False
        return True


class Iterable(metaclass=_ABC):
    needs = ('__iter__',)


class Callable(metaclass=_ABC):
    needs = ('__call__',)


class Mapping(metaclass=_ABC):
    needs = ('__getitem__', 'keys', 'items')


class MutableMapping(metaclass=_ABC):
    needs = ('__getitem__', 'keys', 'items', '__setitem__')


class Sequence(metaclass=_ABC):
    needs = ('__getitem__', '__len__', 'index')


class Hashable(metaclass=_ABC):
    needs = ('__hash__',)


class Iterator(metaclass=_ABC):
    needs = ('__next__',)
