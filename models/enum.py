class auto(object):
    pass


class EnumMeta(type):
    def __new__(meta, name, bases, ns):
        members = []
        for k, v in list(ns.items()):
            if k.startswith('_') or hasattr(v, '__get__'):
                continue
            members.append((k, v))
            del ns[k]
        cls = type.__new__(meta, name, bases, ns)
        cls._members = out = {}
        for k, v in members:
            if isinstance(v, auto):
                v = len(out) + 1
            for m in out.values():
                if m._value_ == v:
                    out[k] = m
                    break
            else:
                m = object.__new__(cls)
                m._name_ = k
                m._value_ = v
                out[k] = m
            setattr(cls, k, out[k])
        return cls

    def __iter__(cls):
        seen = []
        for m in cls._members.values():
            if m not in seen:
                seen.append(m)
        return iter(seen)

    def __len__(cls):
        return len(list(iter(cls)))

    def __contains__(cls, x):
        for m in cls._members.values():
            if m is x or m._value_ == x:
                return True
        return False

    def __getitem__(cls, name):
        return cls._members[name]

    def __call__(cls, value):
        for m in cls._members.values():
            if m is value or m._value_ == value:
                return m
        raise ValueError('%r is not a valid %s' % (value, cls.__name__))

    @property
    def __members__(cls):
        return dict(cls._members)


EnumType = EnumMeta


class Enum(metaclass=EnumMeta):
    @property
    def name(self):
        return self._name_

    @property
    def value(self):
        return self._value_

    def __hash__(self):
        return hash(self._name_)

    def __eq__(self, other):
        return self is other

    def __str__(self):
        return '%s.%s' % (type(self).__name__, self._name_)

    def __repr__(self):
        return '<%s.%s: %r>' % (type(self).__name__, self._name_, self._value_)


def unique(cls):
    return cls
