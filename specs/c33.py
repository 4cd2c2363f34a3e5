"""C33: a sliced view always mirrors the live underlying sequence."""
from verif import choose, expect, expect_eq, cover, fail, sym_int, term
from epsilon.view import SlicedView

COVER = ('element', 'IndexError', 'negative index', 'view of a view', 'changed in between', 'iterated')


class Seq(object):
    """A sequence of unknown length; element i is an unknown of its own."""

    def __init__(self, n, what='seq'):
        self.n = n
        self.what = what

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            fail('the sequence is not copied')
        if i < 0:
            i = i + self.n
        if i < 0 or i >= self.n:
            raise IndexError('beyond the sequence')
        return (self.what, i)

    def __iter__(self):
        fail('the sequence is not copied')

    def __setitem__(self, i, v):
        fail('the sequence is not changed')

    def __delitem__(self, i):
        fail('the sequence is not changed')


def part(name):
    """slice part: absent or any number"""
    if choose(2, name):
        return sym_int(name, None, None)
    return None


def wanted(bounds, n, what, i):
    """element i of the slice of a sequence of length n; None if there is none"""
    positions = range(*bounds.indices(n))
    if i < 0:
        i = i + len(positions)
    if i < 0 or i >= len(positions):
        return None
    return (what, positions[i])


def same(view, bounds, n, what, i):
    want = wanted(bounds, n, what, i)
    try:
        got = view[i]
    except IndexError:
        expect(want is None, 'an index of the slice is accepted')
        cover('IndexError')
    else:
        expect(want is not None, 'an index outside the slice raises IndexError')
        expect_eq(got, want, 'element i of the view is the element slicing would put at position i')
        cover('element')
        if i < 0:
            cover('negative index')


def bound_step(step):
    bounds = slice(part('start'), part('stop'), step)
    n = sym_int('length', 0, None)
    s = Seq(n)
    v = SlicedView(s, bounds)
    i = sym_int('index', None, None)
    same(v, bounds, n, 'seq', i)


def length_step(step):
    bounds = slice(part('start'), part('stop'), step)
    n = sym_int('length', 0, None)
    v = SlicedView(Seq(n), bounds)
    expect_eq(len(v), len(range(*bounds.indices(n))), 'the length of the view is that of the slice')


def check_step_default():
    bound_step(None)
    

def check_step_1():
    bound_step(1)


def check_step_2():
    bound_step(2)


def check_step_3():
    bound_step(3)


def check_step_minus_1():
    bound_step(-1)


def check_step_minus_2():
    bound_step(-2)


def check_length():
    length_step(choose((None, 1, 2, 3, 7, -1, -2, -5), 'step'))


def check_live():
    """the sequence shrinks or grows between two accesses"""
    step = choose((None, 2, -1), 'step')
    bounds = slice(part('start'), part('stop'), step)
    n = sym_int('length', 0, None)
    s = Seq(n)
    v = SlicedView(s, bounds)
    first = choose(('len', 'get', 'nothing'), 'first access')
    if first == 'len':
        len(v)
    elif first == 'get':
        try:
            v[0]
        except IndexError:
            pass
    n2 = sym_int('new length', 0, None)
    s.n = n2
    s.what = 'new'
    i = choose((0, 1, -1), 'index')
    same(v, bounds, n2, 'new', i)
    expect_eq(len(v), len(range(*bounds.indices(n2))), 'the length follows the sequence')
    cover('changed in between')


def check_lists():
    """every slice with bounds in a range, of lists"""
    n = choose(4, 'length')
    data = ['e%d' % i for i in range(n)]
    a = choose((None, -5, -2, -1, 0, 1, 2, 4), 'start')
    b = choose((None, -5, -2, -1, 0, 1, 2, 4), 'stop')
    step = choose((None, 1, 2, -1, -2), 'step')
    bounds = slice(a, b, step)
    want = data[bounds]
    orig = list(data)
    v = SlicedView(data, bounds)
    expect(len(v) == len(want), 'the length of the slice')
    for i in range(-5, 6):
        try:
            got = v[i]
        except IndexError:
            expect(not (-len(want) <= i < len(want)), 'an index of the slice is accepted')
        else:
            expect(-len(want) <= i < len(want), 'an index outside the slice raises IndexError')
            expect(got is want[i], 'the element of the slice')
    out = []
    for x in v:
        out.append(x)
    expect(out == want, 'iteration yields the slice')
    cover('iterated')
    expect(data == orig, 'the sequence is unchanged')


def check_view_of_view():
    n = sym_int('length', 0, None)
    s = Seq(n)
    b1 = slice(part('start'), part('stop'), choose((None, -1), 'step'))
    inner = choose((slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, 2), slice(None, None, 2)), 'inner')
    v = SlicedView(s, b1)
    w = v[inner]
    expect(isinstance(w, SlicedView), 'slicing a view gives a view')
    outer = range(*b1.indices(n))
    m = len(outer)
    i = choose((0, 1, -1), 'index')
    positions = range(*inner.indices(m))
    try:
        got = w[i]
    except IndexError:
        expect(not (-len(positions) <= i < len(positions)), 'an index of the slice is accepted')
    else:
        expect(-len(positions) <= i < len(positions), 'an index outside raises IndexError')
        expect_eq(got, ('seq', outer[positions[i]]), 'the element of the slice of the slice')
        cover('view of a view')


def check_view_of_view_live():
    data = ['a', 'b', 'c', 'd']
    v = SlicedView(data, slice(1, None))
    w = v[choose((slice(1, None), slice(None, None, -1), slice(-2, None)), 'inner')]
    sl = w
    change = choose(('append', 'pop', 'replace', 'clear'), 'change')
    if change == 'append':
        data.append('e')
    elif change == 'pop':
        data.pop()
    elif change == 'replace':
        data[2] = 'z'
    else:
        del data[:]
    want = data[1:][w.bounds]
    expect(len(w) == len(want), 'the length follows')
    for i in range(len(want)):
        expect(w[i] == want[i] and w[-1 - i] == want[-1 - i], 'the elements follow')
    for i in (len(want), -len(want) - 1):
        try:
            w[i]
        except IndexError:
            pass
        else:
            fail('an index outside raises IndexError')
