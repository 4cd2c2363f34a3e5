"""Built-in functions that are easiest to state in Python (analysed like any other code)."""


def all(it):
    for x in it:
        if not x:
            return False
    return True


def any(it):
    for x in it:
        if x:
            return True
    return False


def enumerate(it, start=0):
    def g():
        i = start
        for x in it:
            yield i, x
            i += 1
    return g()


def map(f, *its):
    if len(its) == 1:
        def g():
            for x in its[0]:
                yield f(x)
    else:
        def g():
            for xs in zip(*its):
                yield f(*xs)
    return g()


def filter(f, it):
    def g():
        for x in it:
            if (x if f is None else f(x)):
                yield x
    return g()


def zip(*its, strict=False):
    iters = [iter(i) for i in its]

    def g():
        if not iters:
            return
        while True:
            row = []
            for i in iters:
                try:
                    row.append(next(i))
                except StopIteration:
                    return
            yield tuple(row)
    return g()


def reversed(seq):
    if type(seq) in (dict, type({}.keys()), type({}.values()), type({}.items())):
        seq = list(seq)
    elif isinstance(seq, (set, frozenset)):
        raise TypeError("'%s' object is not reversible" % (type(seq).__name__,))
    f = None if type(seq) in (list, tuple, str, bytes, range) else getattr(type(seq), '__reversed__', None)
    if f is not None:
        return f(seq)

    def g():
        i = len(seq) - 1
        while i >= 0:
            yield seq[i]
            i -= 1
    return g()


def sorted_(it, key=None, reverse=False):
    out = []
    for x in it:
        k = x if key is None else key(x)
        i = len(out)
        if reverse:
            while i > 0 and out[i - 1][0] < k:
                i -= 1
        else:
            while i > 0 and k < out[i - 1][0]:
                i -= 1
        out.insert(i, (k, x))
    return [x for (k, x) in out]


def sorted(it, key=None, reverse=False):
    return sorted_(it, key, reverse)


_missing = object()


def max(*args, key=None, default=_missing):
    seq = args[0] if len(args) == 1 else args
    best = _missing
    bk = None
    for x in seq:
        k = x if key is None else key(x)
        if best is _missing or k > bk:
            best = x
            bk = k
    if best is _missing:
        if default is _missing:
            raise ValueError('max() arg is an empty sequence')
        return default
    return best


def min(*args, key=None, default=_missing):
    seq = args[0] if len(args) == 1 else args
    best = _missing
    bk = None
    for x in seq:
        k = x if key is None else key(x)
        if best is _missing or k < bk:
            best = x
            bk = k
    if best is _missing:
        if default is _missing:
            raise ValueError('min() arg is an empty sequence')
        return default
    return best


def sum(it, start=0):
    for x in it:
        start = start + x
    return start


def divmod(a, b):
    return a // b, a % b


def print(*args, sep=' ', end='\n', file=None, flush=False):
    import sys
    if file is None:
        file = sys.stdout
    file.write((sep or ' ').join([str(a) for a in args]))
    file.write(end)


def open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    import os
    return os.File(file, mode, encoding)


def _match_keys(subject, keys):
    out = []
    for k in keys:
        v = subject.get(k, _missing)
        if v is _missing:
            return None
        out.append(v)
    return tuple(out)


def _match_class(subject, cls, count, names):
    if not isinstance(subject, cls):
        return None
    out = []
    if count:
        if issubclass(cls, (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)):
            out.append(subject)
        else:
            for n in cls.__match_args__[:count]:
                if not hasattr(subject, n):
                    return None
                out.append(getattr(subject, n))
    for n in names:
        if not hasattr(subject, n):
            return None
        out.append(getattr(subject, n))
    return tuple(out)


_executed = []      # a list of lists: where to record what is run as a program


class _Code(object):
    def __init__(self, source):
        self.source = source


def compile(source, filename, mode, flags=0, dont_inherit=False, optimize=-1):
    if not _executed:
        breakpoint()
    return _Code(source)


def eval(source, globals=None, locals=None):
    if not _executed:
        breakpoint()
    _executed[0].append(source)
    return _Code(source)


def exec(source, globals=None, locals=None):
    if not _executed:
        breakpoint()
    _executed[0].append(source)
