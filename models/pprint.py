def pformat(o, *a, **kw):
    return repr(o)


def pprint(o, *a, **kw):
    pass
