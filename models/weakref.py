class WeakKeyDictionary(dict):
    pass


class WeakValueDictionary(dict):
    pass


class WeakSet(set):
    pass


class ref(object):
    def __init__(self, o, callback=None):
        self._o = o

    def __call__(self):
        return self._o

    def __eq__(self, other):
        return isinstance(other, ref) and self._o == other._o

    def __hash__(self):
        return hash(self._o)


def proxy(o):
    return o
