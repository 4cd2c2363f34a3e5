import sys


def qual(clazz):
    return clazz.__module__ + '.' + clazz.__qualname__


fullyQualifiedName = qual


def safe_str(o):
    if isinstance(o, bytes):
        try:
            return o.decode('utf-8')
        except UnicodeDecodeError:
            pass
    try:
        return str(o)
    except Exception:
        return '<unprintable object>'


def safe_repr(o):
    try:
        return repr(o)
    except Exception:
        return '<unprintable object>'


class ModuleNotFound(Exception):
    pass


class ObjectNotFound(Exception):
    pass


def namedModule(name):
    topLevel = __import__(name)
    m = topLevel
    for p in name.split('.')[1:]:
        m = getattr(m, p)
    return m


def namedAny(name):
    names = name.split('.')
    n = len(names)
    obj = None
    while n:
        try:
            obj = __import__('.'.join(names[:n]))
        except ImportError:
            n -= 1
            continue
        break
    if obj is None:
        raise ModuleNotFound('No module named %r' % (name,))
    for p in names[1:]:
        obj = getattr(obj, p)
    return obj


def namedObject(name):
    return namedAny(name)


def prefixedMethodNames(classObj, prefix):
    out = []
    for k in classObj.__mro__:
        for n in k.__dict__:
            if n.startswith(prefix) and n not in out:
                out.append(n[len(prefix):])
    return out


def accumulateClassList(classObj, attr, listObj, baseClass=None):
    for base in classObj.__bases__:
        accumulateClassList(base, attr, listObj)
    if baseClass is None or baseClass in classObj.__bases__:
        listObj.extend(classObj.__dict__.get(attr, []))


def accumulateClassDict(classObj, attr, adict, baseClass=None):
    for base in classObj.__bases__:
        accumulateClassDict(base, attr, adict)
    if baseClass is None or baseClass in classObj.__bases__:
        adict.update(classObj.__dict__.get(attr, {}))
