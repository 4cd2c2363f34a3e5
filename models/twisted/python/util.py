def mergeFunctionMetadata(f, g):
    try:
        g.__name__ = f.__name__
    except TypeError:
        pass
    try:
        g.__doc__ = f.__doc__
    except (TypeError, AttributeError):
        pass
    try:
        g.__dict__.update(f.__dict__)
    except (TypeError, AttributeError):
        pass
    try:
        g.__module__ = f.__module__
    except TypeError:
        pass
    return g


def sibpath(path, sibling):
    import os.path
    return os.path.join(os.path.dirname(os.path.abspath(path)), sibling)


def untilConcludes(f, *a, **kw):
    import errno
    while True:
        try:
            return f(*a, **kw)
        except (IOError, OSError) as e:
            if e.args[0] == errno.EINTR:
                continue
            raise
