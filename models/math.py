inf = float('inf')
nan = float('nan')
pi = 3.141592653589793


def floor(x):
    return x // 1 if isinstance(x, int) else int(x // 1)


def ceil(x):
    return -floor(-x)


def trunc(x):
    return int(x)


def fabs(x):
    return float(abs(x))


def modf(x):
    i = float(int(x))
    return x - i, i


def fmod(x, y):
    r = abs(x) % abs(y)
    return float(-r if x < 0 else r)


def isnan(x):
    return x != x


def isinf(x):
    return x in (inf, -inf)


def isfinite(x):
    return not (isnan(x) or isinf(x))
