class ABCMeta(type):
    def __call__(cls, *a, **kw):
        for k in dir(cls):
            if getattr(getattr(cls, k, None), '__isabstractmethod__', False):
                raise TypeError("Can't instantiate abstract class %s" % (cls.__name__,))
        return type.__call__(cls, *a, **kw)


class ABC(metaclass=ABCMeta):
    pass


def abstractmethod(f):
    f.__isabstractmethod__ = True
    return f
