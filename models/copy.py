def copy(x):
    f = getattr(type(x), '__copy__', None)
    if f is not None:
        return f(x)
    t = type(x)
    if t in (list, dict, set):
        return x.copy()
    if isinstance(x, (str, bytes, int, float, tuple, type(None), type)) or t in (bool,):
        return x
    if isinstance(x, dict):
        y = t.__new__(t)
        y.__dict__.update(x.__dict__)
        y.update(x)
        return y
    if isinstance(x, list):
        y = t.__new__(t)
        y.__dict__.update(x.__dict__)
        y.extend(x)
        return y
    y = t.__new__(t)
    y.__dict__.update(x.__dict__)
    return y


def deepcopy(x, memo=None):
    if memo is None:
        memo = {}
    if id(x) in memo:
        return memo[id(x)]
    t = type(x)
    if t is list:
        y = []
        memo[id(x)] = y
        for v in x:
            y.append(deepcopy(v, memo))
        return y
    if t is dict:
        y = {}
        memo[id(x)] = y
        for k, v in x.items():
            y[deepcopy(k, memo)] = deepcopy(v, memo)
        return y
    if t is tuple:
        return tuple([deepcopy(v, memo) for v in x])
    if isinstance(x, (str, bytes, int, float, type(None), type)):
        return x
    y = t.__new__(t)
    memo[id(x)] = y
    for k, v in x.__dict__.items():
        y.__dict__[k] = deepcopy(v, memo)
    return y
