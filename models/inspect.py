from verif import (func_info, type_function as _F, type_method as _M, type_module as _Mod, type_generator as _G,
                   type_builtin_function_or_method as _B)


def getmro(cls):
    return cls.__mro__


def isclass(o):
    return isinstance(o, type)


def isfunction(o):
    return isinstance(o, _F)


def ismethod(o):
    return isinstance(o, _M)


def ismodule(o):
    return isinstance(o, _Mod)


def isgenerator(o):
    return isinstance(o, _G)


def isbuiltin(o):
    return isinstance(o, _B)


def isroutine(o):
    return isinstance(o, (_F, _M, _B))


def ismethoddescriptor(o):
    return False


class ArgSpec(tuple):
    @property
    def args(self):
        return self[0]

    @property
    def varargs(self):
        return self[1]

    @property
    def varkw(self):
        return self[2]

    keywords = varkw

    @property
    def defaults(self):
        return self[3]


def getfullargspec(f):
    i = func_info(f)
    if i is None:
        raise TypeError('unsupported callable')
    return ArgSpec((list(i[0]), i[2], i[3], i[1], [], None, {}))


def getargvalues(frame):
    return frame.argvalues


def getmodule(o):
    return None


def getsource(o):
    raise OSError('could not get source code')


def getdoc(o):
    return o.__doc__


def getmembers(o, pred=None):
    out = []
    for n in dir(o):
        v = getattr(o, n)
        if pred is None or pred(v):
            out.append((n, v))
    return out


def getattr_static(o, name, *d):
    for k in type(o).__mro__:
        if name in k.__dict__:
            return k.__dict__[name]
    if d:
        return d[0]
    raise AttributeError(name)


def getargs(co):
    n = co.co_argcount
    return (list(co.co_varnames[:n]), None, None)
