def import_module(name, package=None):
    if name[:1] == '.':
        raise ValueError('relative')
    return __import__(name, None, None, ('*x',), 0)
