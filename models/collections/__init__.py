class OrderedDict(dict):
    def popitem(self, last=True):
        if last:
            return dict.popitem(self)
        k = next(iter(self))
        return k, self.pop(k)

    def move_to_end(self, key, last=True):
        v = self.pop(key)
        if last:
            self[key] = v
        else:
            rest = list(self.items())
            self.clear()
            self[key] = v
            self.update(rest)


class defaultdict(dict):
    def __init__(self, default_factory=None, *a, **kw):
        dict.__init__(self, *a, **kw)
        self.default_factory = default_factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class Counter(dict):
    def __init__(self, it=()):
        for x in it:
            self[x] = self.get(x, 0) + 1

    def __missing__(self, key):
        return 0


class deque(list):
    def __init__(self, it=(), maxlen=None):
        list.__init__(self, it)
        self.maxlen = maxlen

    def appendleft(self, x):
        self.insert(0, x)

    def popleft(self):
        if not self:
            raise IndexError('pop from an empty deque')
        return self.pop(0)

    def extendleft(self, it):
        for x in it:
            self.insert(0, x)


def namedtuple(name, fields, defaults=(), **kw):
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    fields = tuple(fields)

    def __new__(cls, *a, **k):
        vals = list(a)
        if len(vals) > len(fields):
            raise TypeError('too many arguments')
        for i in range(len(vals), len(fields)):
            f = fields[i]
            if f in k:
                vals.append(k.pop(f))
            elif i - (len(fields) - len(defaults)) >= 0:
                vals.append(defaults[i - (len(fields) - len(defaults))])
            else:
                raise TypeError('missing argument ' + f)
        if k:
            raise TypeError('unexpected argument')
        return tuple.__new__(cls, vals)

    def getter(i):
        return property(lambda self: tuple.__getitem__(self, i))

    def _replace(self, **k):
        return type(self)(*[k.pop(f, v) for f, v in zip(fields, self)])

    def _asdict(self):
        return dict(zip(fields, self))
    ns = {'__new__': __new__, '_fields': fields, '_replace': _replace, '_asdict': _asdict, '__slots__': ()}
    for i, f in enumerate(fields):
        ns[f] = getter(i)
    cls = type(name, (tuple,), ns)
    cls._make = classmethod(lambda c, it: tuple.__new__(c, it))
    return cls


from collections import abc
