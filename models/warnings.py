seen = []


def warn(message, category=None, stacklevel=1, source=None):
    seen.append((message, category))


def warn_explicit(message, category, filename, lineno, module=None, registry=None, module_globals=None, source=None):
    seen.append((message, category))


def filterwarnings(*a, **kw):
    pass


def simplefilter(*a, **kw):
    pass
