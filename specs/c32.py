"""C32: caseless strings ignore case consistently."""
from verif import choose, expect, expect_eq, cover, fail, sym_str, sym_int, same
from epsilon.caseless import Caseless

COVER = ('compared', 'hashed', 'searched', 'found', 'not found', 'affix', 'original', 'rewrapped')


class Sub(Caseless):
    pass


class Several(tuple):
    pass


def wrap(s, how):
    if how == 'plain':
        return s
    if how == 'caseless':
        return Caseless(s)
    if how == 'subclass':
        return Sub(s)
    return Caseless(Caseless(s))


def operand(s, label):
    return wrap(s, choose(('plain', 'caseless', 'subclass', 'twice'), label))


def subject(s):
    return wrap(s, choose(('caseless', 'twice', 'subclass'), 'subject'))


def text(name):
    k = choose(3, name)
    if k == 0:
        return sym_str(name)
    if k == 1:
        return 'Mixed CASE'
    return 'MIXed ' + sym_str(name + "'") + ' End'


def outcome(f):
    try:
        return ('value', f())
    except ValueError:
        return ('ValueError', None)


def check_compare():
    a, b = text('a'), text('b')
    x, y = subject(a), operand(b, 'operand')
    la, lb = a.lower(), b.lower()
    k = choose(('==', '!=', '<', '<=', '>', '>=', 'r==', 'r<', 'r>='), 'operator')
    if k == '==':
        r, w = x == y, la == lb
    elif k == '!=':
        r, w = x != y, la != lb
    elif k == '<':
        r, w = x < y, la < lb
    elif k == '<=':
        r, w = x <= y, la <= lb
    elif k == '>':
        r, w = x > y, la > lb
    elif k == '>=':
        r, w = x >= y, la >= lb
    elif k == 'r==':
        r, w = y == x, la == lb
    elif k == 'r<':
        r, w = y < x, lb < la
    else:
        r, w = y >= x, lb >= la
    expect(bool(r) == bool(w), 'comparison as of the lower-cased strings')
    cover('compared')


def check_hash():
    a = text('a')
    x = subject(a)
    expect_eq(hash(x), hash(a.lower()), 'the hash of the lower-cased string')
    cover('hashed')
    b = text('b')
    y = subject(b)
    if x == y:
        expect_eq(hash(x), hash(y), 'equal caseless strings hash equal')


def rest():
    k = choose(3, 'range')
    if k == 0:
        return ()
    if k == 1:
        return (sym_int('start', None, None),)
    return (sym_int('start', None, None), sym_int('end', None, None))


def check_search():
    a, b = text('a'), choose((0, 1), 'sought')
    b = text('b') if b else choose(('X', '', 'mixed'), 'literal')
    x, y = subject(a), operand(b, 'operand')
    la, lb = a.lower(), b.lower()
    r = rest()
    k = choose(('find', 'rfind', 'index', 'rindex', 'count'), 'operation')
    if k == 'find':
        got, want = outcome(lambda: x.find(y, *r)), outcome(lambda: la.find(lb, *r))
    elif k == 'rfind':
        got, want = outcome(lambda: x.rfind(y, *r)), outcome(lambda: la.rfind(lb, *r))
    elif k == 'index':
        got, want = outcome(lambda: x.index(y, *r)), outcome(lambda: la.index(lb, *r))
    elif k == 'rindex':
        got, want = outcome(lambda: x.rindex(y, *r)), outcome(lambda: la.rindex(lb, *r))
    else:
        got, want = outcome(lambda: x.count(y, *r)), outcome(lambda: la.count(lb, *r))
    expect(got[0] == want[0], 'found exactly if it is found in the lower-cased string')
    expect_eq(got[1], want[1], 'the result of the operation on the lower-cased strings')
    cover('searched')
    cover('found' if got[0] == 'value' else 'not found')


def check_contains():
    a, b = text('a'), text('b')
    x, y = subject(a), operand(b, 'operand')
    expect((y in x) == (b.lower() in a.lower()), 'containment as of the lower-cased strings')
    expect((y not in x) == (b.lower() not in a.lower()), 'containment as of the lower-cased strings')


def check_affix():
    a, b = text('a'), text('b')
    x = subject(a)
    if choose(2, 'tuple'):
        c = sym_str('c')
        y, low = (operand(b, 'operand'), operand(c, 'second')), (b.lower(), c.lower())
        if choose(2, 'kind of tuple'):
            y = Several(y)
    else:
        y, low = operand(b, 'operand'), b.lower()
    r = rest()
    la = a.lower()
    if choose(2, 'suffix'):
        got, want = x.endswith(y, *r), la.endswith(low, *r)
    else:
        got, want = x.startswith(y, *r), la.startswith(low, *r)
    expect(bool(got) == bool(want), 'prefix and suffix tests as of the lower-cased strings')
    cover('affix')


def check_original():
    a = text('a')
    x = subject(a)
    expect_eq(len(x), len(a), 'the length of the original')
    expect_eq(str(x), a, 'the original string')
    expect_eq(x.lower(), a.lower(), 'lower case of the original')
    expect_eq(x.upper(), a.upper(), 'upper case of the original')
    expect_eq(x.swapcase(), a.swapcase(), 'swapped case of the original')
    i = choose((0, 1, -1), 'index')
    try:
        w = a[i]
    except IndexError:
        w = None
    try:
        g = x[i]
    except IndexError:
        expect(w is None, 'indexing shows the original')
    else:
        expect_eq(g, w, 'indexing shows the original')
    expect_eq(x[1:], a[1:], 'slicing shows the original')
    cover('original')


def check_more_original():
    a = choose((sym_str('a'), 'mIxed CASE'), 'text')
    x = subject(a)
    expect_eq(x.title(), a.title(), 'title case of the original')
    expect_eq(list(subject('aBc')), ['a', 'B', 'c'], 'iteration shows the original')
    y = Caseless(x)
    expect(isinstance(y.cased, str), 'the wrapped string is a plain string again')
    expect_eq(y.cased, a, 'wrapping again changes nothing')
    expect_eq(repr(Caseless('Ab')), "Caseless('Ab')", 'the representation shows the original')
    expect_eq(repr(Sub('Ab')), "Sub('Ab')", 'the representation shows the original')
    cover('rewrapped')


def check_dictionary():
    """as keys"""
    a, b = sym_str('a'), sym_str('b')
    d = {Caseless(a): 1}
    d[Caseless(b)] = 2
    if a.lower() == b.lower():
        expect(len(d) == 1 and d[Caseless(a)] == 2, 'one key')
    else:
        expect(len(d) == 2 and d[Caseless(a)] == 1 and d[Caseless(b)] == 2, 'two keys')
    expect(d[Caseless(a.lower())] == d[Caseless(a)], 'found whatever the case')
