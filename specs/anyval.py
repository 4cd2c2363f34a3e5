"""Values of which nothing is known, not even whether they count as true."""
from verif import choose


class Any(object):
    _truth = None

    def __bool__(self):
        if self._truth is None:
            self._truth = bool(choose((1, 0), 'truth of a value'))
        return self._truth
