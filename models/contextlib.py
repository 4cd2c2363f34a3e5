class _GCM(object):
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        return next(self.gen)

    def __exit__(self, typ, value, tb):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        if value is None:
            value = typ()
        try:
            self.gen.throw(value)
        except StopIteration as exc:
            return exc is not value
        except BaseException as exc:
            if exc is not value:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")

    def __call__(self, func):
        def inner(*a, **kw):
            with self:
                return func(*a, **kw)
        return inner


def contextmanager(f):
    def helper(*a, **kw):
        return _GCM(f(*a, **kw))
    return helper


class closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


class suppress(object):
    def __init__(self, *excs):
        self.excs = excs

    def __enter__(self):
        pass

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.excs)


class nullcontext(object):
    def __init__(self, r=None):
        self.r = r

    def __enter__(self):
        return self.r

    def __exit__(self, *a):
        return None


class ExitStack(object):
    def __init__(self):
        self.cbs = []

    def __enter__(self):
        return self

    def callback(self, f, *a, **kw):
        self.cbs.append(lambda t, v, tb: f(*a, **kw) and False)
        return f

    def push(self, exit):
        self.cbs.append(exit if not hasattr(exit, '__exit__') else exit.__exit__)
        return exit

    def enter_context(self, cm):
        r = cm.__enter__()
        self.cbs.append(cm.__exit__)
        return r

    def __exit__(self, t, v, tb):
        supp = False
        pending = v
        while self.cbs:
            cb = self.cbs.pop()
            try:
                if cb(type(pending) if pending is not None else None, pending, None):
                    pending = None
                    supp = True
            except BaseException as e:
                pending = e
                supp = False
        if pending is not None and pending is not v:
            raise pending
        return v is not None and pending is None
