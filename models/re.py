"""Regular expressions (matching is an analysis primitive)."""
from verif import re_match, re_info
A = ASCII = 256
I = IGNORECASE = 2
L = LOCALE = 4
M = MULTILINE = 8
S = DOTALL = 16
U = UNICODE = 32
X = VERBOSE = 64


class error(Exception):
    pass


class Match(object):
    def __init__(self, pattern, string, groups, pos):
        self.re = pattern
        self.string = string
        self._g = groups
        self.pos = pos

    def _idx(self, k):
        if isinstance(k, str):
            for n, i in self.re._names:
                if n == k:
                    return i
            raise IndexError('no such group')
        if k < 0 or k >= len(self._g):
            raise IndexError('no such group')
        return k

    def _val(self, k, default=None):
        g = self._g[self._idx(k)]
        return default if g is None else g[0]

    def group(self, *ks):
        if not ks:
            return self._val(0)
        if len(ks) == 1:
            return self._val(ks[0])
        return tuple([self._val(k) for k in ks])

    def __getitem__(self, k):
        return self._val(k)

    def groups(self, default=None):
        return tuple([self._val(k, default) for k in range(1, len(self._g))])

    def groupdict(self, default=None):
        return dict([(n, self._val(i, default)) for n, i in self.re._names])

    def start(self, k=0):
        g = self._g[self._idx(k)]
        return -1 if g is None else g[1]

    def end(self, k=0):
        g = self._g[self._idx(k)]
        return -1 if g is None else g[2]

    def span(self, k=0):
        return (self.start(k), self.end(k))

    @property
    def lastindex(self):
        r = None
        for i in range(1, len(self._g)):
            if self._g[i] is not None:
                r = i
        return r


_SPECIAL = {str: '.^$*+?{}[]\\|()', bytes: b'.^$*+?{}[]\\|()'}
_BACKSLASH = {str: '\\', bytes: b'\\'}


class Pattern(object):
    def __init__(self, pattern, flags=0):
        i = re_info(pattern, flags)
        if i is None:
            raise error('bad pattern')
        self.pattern = pattern
        self.flags = i[2]
        self.groups = i[0]
        self._names = i[1]
        self.groupindex = dict(i[1])
        self._flags = flags

    def _m(self, string, mode, pos):
        r = re_match(self.pattern, self._flags, string, mode, pos)
        if r is None:
            return None
        return Match(self, string, r, pos)

    def match(self, string, pos=0):
        return self._m(string, 'match', pos)

    def fullmatch(self, string, pos=0):
        return self._m(string, 'fullmatch', pos)

    def search(self, string, pos=0):
        return self._m(string, 'search', pos)

    def finditer(self, string):
        pos = 0
        while True:
            m = self.search(string, pos)
            if m is None:
                return
            yield m
            pos = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, string):
        out = []
        for m in self.finditer(string):
            out.append(m.group() if self.groups == 0 else m.group(1) if self.groups == 1 else m.groups())
        return out

    def split(self, string, maxsplit=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            out.append(string[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(string[last:])
        return out

    def sub(self, repl, string, count=0):
        if (not count and not self._flags and not callable(repl) and len(self.pattern) == 1 and
                self.pattern not in _SPECIAL[type(self.pattern)] and _BACKSLASH[type(self.pattern)] not in repl):
            return string.replace(self.pattern, repl)
        out = []
        last = 0
        n = 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            out.append(string[last:m.start()])
            if callable(repl):
                out.append(repl(m))
            else:
                out.append(repl)
            last = m.end()
            n += 1
        out.append(string[last:])
        return string[:0].join(out)


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    return Pattern(pattern, flags)


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def escape(p):
    if isinstance(p, str):
        return ''.join([c if c.isalnum() or c == '_' else '\\' + c for c in p])
    return p
