"""six on Python 3."""
from six import moves
PY2 = False
PY3 = True
PY34 = True
text_type = str
binary_type = bytes
string_types = (str,)
integer_types = (int,)
class_types = (type,)
unichr = chr
MAXSIZE = 9223372036854775807


def b(s):
    return s.encode('latin-1')


def u(s):
    return s


def iteritems(d, **kw):
    return iter(d.items(**kw))


def iterkeys(d, **kw):
    return iter(d.keys(**kw))


def itervalues(d, **kw):
    return iter(d.values(**kw))


def viewitems(d):
    return d.items()


def viewkeys(d):
    return d.keys()


def viewvalues(d):
    return d.values()


def next(it):
    return it.__next__()


advance_iterator = next


def callable(x):
    from builtins import callable as c
    return c(x)


def int2byte(i):
    return bytes((i,))


def byte2int(bs):
    return bs[0]


def indexbytes(buf, i):
    return buf[i]


def iterbytes(buf):
    return iter(buf)


def get_function_code(f):
    return f.__code__


def get_function_globals(f):
    return f.__globals__


def get_function_defaults(f):
    return f.__defaults__


def get_method_function(m):
    return m.__func__


def get_method_self(m):
    return m.__self__


def get_unbound_function(f):
    return f


def ensure_binary(s, encoding='utf-8', errors='strict'):
    if isinstance(s, bytes):
        return s
    if isinstance(s, str):
        return s.encode(encoding, errors)
    raise TypeError("not expecting type '%s'" % type(s))


def ensure_str(s, encoding='utf-8', errors='strict'):
    if type(s) is str:
        return s
    if isinstance(s, bytes):
        return s.decode(encoding, errors)
    elif not isinstance(s, str):
        raise TypeError("not expecting type '%s'" % type(s))
    return s


def ensure_text(s, encoding='utf-8', errors='strict'):
    if isinstance(s, bytes):
        return s.decode(encoding, errors)
    elif isinstance(s, str):
        return s
    else:
        raise TypeError("not expecting type '%s'" % type(s))


def raise_from(value, from_value):
    raise value


def reraise(tp, value, tb=None):
    if value is None:
        value = tp()
    raise value


def python_2_unicode_compatible(klass):
    return klass


def with_metaclass(meta, *bases):
    return meta('temporary_class', bases or (object,), {})


def add_metaclass(metaclass):
    def wrapper(cls):
        orig_vars = dict(cls.__dict__)
        slots = orig_vars.get('__slots__')
        if slots is not None:
            if isinstance(slots, str):
                slots = [slots]
            for slots_var in slots:
                orig_vars.pop(slots_var)
        orig_vars.pop('__dict__', None)
        orig_vars.pop('__weakref__', None)
        if hasattr(cls, '__qualname__'):
            orig_vars['__qualname__'] = cls.__qualname__
        return metaclass(cls.__name__, cls.__bases__, orig_vars)
    return wrapper
