class Version(object):
    def __init__(self, package, major, minor, micro, release_candidate=None, prerelease=None, post=None, dev=None):
        self.package = package
        self.major = major
        self.minor = minor
        self.micro = micro
        self.release_candidate = prerelease if release_candidate is None else release_candidate
        self.post, self.dev = post, dev

    def _t(self):
        return (self.major, self.minor, self.micro)

    def short(self):
        return '%d.%d.%d' % self._t()

    base = public = short

    def __lt__(self, o):
        return self._t() < o._t()

    def __le__(self, o):
        return self._t() <= o._t()

    def __gt__(self, o):
        return self._t() > o._t()

    def __ge__(self, o):
        return self._t() >= o._t()

    def __eq__(self, o):
        return isinstance(o, Version) and self._t() == o._t()
