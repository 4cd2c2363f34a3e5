"""Command line options: the contract of twisted.python.usage for parameters and flags."""


class UsageError(Exception):
    pass


error = UsageError


class Options(dict):
    optParameters = []
    optFlags = []
    parent = None

    def __init__(self):
        dict.__init__(self)
        self.opts = self
        self.defaults = {}
        self._takes = {}
        for cls in self.__class__.__mro__:
            for p in cls.__dict__.get('optFlags', ()):
                p = list(p) + [None] * (3 - len(p))
                self._declare(p[0], p[1], 0, False, None)
            for p in cls.__dict__.get('optParameters', ()):
                p = list(p) + [None] * (5 - len(p))
                self._declare(p[0], p[1], p[2], True, p[4])
        self.defaults.update(self)

    def _declare(self, long, short, default, takes, coerce):
        if long in self:
            return
        self[long] = default
        self._takes['--' + long] = (long, takes, coerce)
        if short:
            self._takes['-' + short] = (long, takes, coerce)

    def __hash__(self):
        return id(self)

    def _set(self, opt, value):
        long, takes, coerce = self._takes[opt]
        if not takes:
            self[long] = 1
            return
        if coerce is not None:
            try:
                value = coerce(value)
            except ValueError as e:
                raise UsageError('Parameter type enforcement failed: %s' % (e,))
        self[long] = value

    def parseOptions(self, options=None):
        if options is None:
            import sys
            options = sys.argv[1:]
        args = list(options)
        while args and args[0][:1] == '-' and args[0] != '-':
            a = args.pop(0)
            if a == '--':
                break
            if a[:2] == '--':
                name, eq, value = a.partition('=')
                hits = [n for n in self._takes if n[:len(name)] == name]
                if name not in self._takes:
                    if len(hits) != 1:
                        raise UsageError('option %s not recognized' % (name,))
                    name = hits[0]
                if self._takes[name][1]:
                    if not eq:
                        if not args:
                            raise UsageError('option %s requires argument' % (name,))
                        value = args.pop(0)
                elif eq:
                    raise UsageError('option %s must not have an argument' % (name,))
                self._set(name, value)
                continue
            rest = a[1:]
            while rest:
                o = '-' + rest[:1]
                rest = rest[1:]
                if o not in self._takes:
                    raise UsageError('option %s not recognized' % (o,))
                if self._takes[o][1]:
                    if not rest:
                        if not args:
                            raise UsageError('option %s requires argument' % (o,))
                        rest = args.pop(0)
                    self._set(o, rest)
                    break
                self._set(o, '')
        try:
            self.parseArgs(*args)
        except TypeError:
            raise UsageError('Wrong number of arguments.')
        self.postOptions()

    def parseArgs(self):
        pass

    def postOptions(self):
        pass

    def getSynopsis(self):
        return 'Usage: prog [options]'
