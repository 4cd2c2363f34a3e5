class count(object):
    def __init__(self, start=0, step=1):
        self.n = start
        self.step = step

    def __iter__(self):
        return self

    def __next__(self):
        n = self.n
        self.n = n + self.step
        return n


def _chain(its):
    for it in its:
        for x in it:
            yield x


class chain(object):
    def __new__(cls, *its):
        return _chain(its)

    @classmethod
    def from_iterable(cls, its):
        return _chain(its)


def islice(it, *a):
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    start = start or 0
    step = step or 1

    def g():
        i = 0
        nxt = start
        for x in it:
            if stop is not None and i >= stop:
                return
            if i == nxt:
                yield x
                nxt += step
            i += 1
            if stop is not None and i >= stop:
                return
    return g()


def repeat(x, times=None):
    def g():
        if times is None:
            while True:
                yield x
        for _ in range(times):
            yield x
    return g()


def takewhile(p, it):
    def g():
        for x in it:
            if not p(x):
                return
            yield x
    return g()


def dropwhile(p, it):
    def g():
        on = False
        for x in it:
            if on or not p(x):
                on = True
                yield x
    return g()


def starmap(f, it):
    def g():
        for x in it:
            yield f(*x)
    return g()


def zip_longest(*its, fillvalue=None):
    lists = [list(i) for i in its]
    n = max([len(l) for l in lists] or [0])
    return iter([tuple([l[i] if i < len(l) else fillvalue for l in lists]) for i in range(n)])


def accumulate(it, func=None, initial=None):
    def g():
        tot = initial
        first = initial is None
        if not first:
            yield tot
        for x in it:
            tot = x if first else (tot + x if func is None else func(tot, x))
            first = False
            yield tot
    return g()


def product(*its, repeat=1):
    out = [()]
    its = [list(it) for it in its]
    for it in its * repeat:
        l = list(it)
        out = [t + (x,) for t in out for x in l]
    return iter(out)


def tee(it, n=2):
    l = list(it)
    return tuple([iter(l) for _ in range(n)])


def cycle(it):
    l = list(it)

    def g():
        while True:
            for x in l:
                yield x
    return g()


def filterfalse(p, it):
    def g():
        for x in it:
            if not (x if p is None else p(x)):
                yield x
    return g()


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def pairwise(it):
    first = True
    last = None
    for x in it:
        if not first:
            yield last, x
        first, last = False, x


def groupby(it, key=None):
    # (the groups are independent lists: only to be used one after the other)
    group, current, first = [], None, True
    for x in it:
        k = x if key is None else key(x)
        if not first and k != current:
            yield current, iter(group)
            group = []
        if first or k != current:
            current = k
        first = False
        group.append(x)
    if not first:
        yield current, iter(group)


def permutations(it, r=None):
    pool = list(it)
    n = len(pool)
    r = n if r is None else r
    for idx in product(range(n), repeat=r):
        if len(set(idx)) == r:
            yield tuple([pool[i] for i in idx])


def combinations(it, r):
    pool = list(it)
    for idx in permutations(range(len(pool)), r):
        if sorted(idx) == list(idx):
            yield tuple([pool[i] for i in idx])
