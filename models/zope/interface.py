"""zope.interface: declarations and providedBy."""


class Element(object):
    pass


class InterfaceClass(object):
    def __init__(self, name, bases, attrs):
        self.__name__ = name
        self.__bases__ = bases
        self.attrs = attrs

    def __call__(self, obj, default=None):
        if self.providedBy(obj):
            return obj
        raise TypeError('Could not adapt')

    def extends(self, other):
        if self is other:
            return True
        for b in self.__bases__:
            if b.extends(other):
                return True
        return False

    isOrExtends = extends

    def implementedBy(self, cls):
        for k in cls.__mro__:
            for i in k.__dict__.get('__implements_list__', ()):
                if i.extends(self):
                    return True
        return False

    def providedBy(self, obj):
        for i in getattr(obj, '__provides_list__', ()):
            if i.extends(self):
                return True
        return self.implementedBy(type(obj))


Interface = InterfaceClass('Interface', (), {})


class Attribute(object):
    def __init__(self, name='', doc=''):
        self.__name__ = name
        self.__doc__ = doc


def implementer(*interfaces):
    def deco(cls):
        if isinstance(cls, type):
            cls.__implements_list__ = tuple(interfaces)
        else:
            cls.__implements_list__ = tuple(interfaces)
        return cls
    return deco


def directlyProvides(obj, *interfaces):
    obj.__provides_list__ = tuple(interfaces)


def alsoProvides(obj, *interfaces):
    obj.__provides_list__ = getattr(obj, '__provides_list__', ()) + tuple(interfaces)


def classImplements(cls, *interfaces):
    cls.__implements_list__ = tuple(cls.__dict__.get('__implements_list__', ())) + tuple(interfaces)


def providedBy(obj):
    out = list(getattr(obj, '__provides_list__', ()))
    for k in type(obj).__mro__:
        out.extend(k.__dict__.get('__implements_list__', ()))
    return out


def implementedBy(cls):
    out = []
    for k in cls.__mro__:
        out.extend(k.__dict__.get('__implements_list__', ()))
    return out
