"""The context, one stack per thread; the specifications switch threads explicitly."""
defaultContextDict = {}
_stacks = {'main': [{}]}
_current = ['main']


def enter_thread(name):
    old = _current[0]
    _current[0] = name
    if name not in _stacks:
        _stacks[name] = [{}]
    return old


def get(key, default=None):
    for c in _stacks[_current[0]][::-1]:
        if key in c:
            return c[key]
    return default


def call(ctx, func, *args, **kw):
    st = _stacks[_current[0]]
    new = dict(st[-1])
    new.update(ctx)
    st.append(new)
    try:
        return func(*args, **kw)
    finally:
        st.pop()
