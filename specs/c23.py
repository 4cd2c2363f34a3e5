"""C23: times compare, sort and combine by instant."""
import datetime
from verif import choose, expect, expect_eq, cover, sym_int, sym_str, assume
from epsilon.extime import Time
from xlib import Zone, zone, instant, naive, aware, td, us_of, res_of, a_time, resolution, Frozen, DAY

COVER = ('equal', 'less', 'greater', 'other type', 'sum', 'difference', 'interval', 'sorted', 'hash', 'bad operand')


class Later(Time):
    """a subclass is a time as well"""


def check_compare():
    a, b = instant('a'), instant('b')
    x = a_time(a, resolution('r') if choose(2, 'resolution of the first') else None)
    if choose(2, 'class of the second'):
        y = Later.fromDatetime(naive(b))
    else:
        y = a_time(b, resolution('s') if choose(2, 'resolution of the second') else None)
    f = Frozen(x, y)
    expect((x == y) == (a == b), 'equal exactly when they start at the same instant')
    expect((x != y) == (a != b), 'different exactly when they do not')
    expect((x < y) == (a < b), 'ordered by instant (<)')
    expect((x <= y) == (a <= b), 'ordered by instant (<=)')
    expect((x > y) == (a > b), 'ordered by instant (>)')
    expect((x >= y) == (a >= b), 'ordered by instant (>=)')
    for r in (x == y, x != y, x < y, x <= y, x > y, x >= y):
        expect(isinstance(r, bool), 'comparisons answer true or false')
    if a == b:
        expect(hash(x) == hash(y), 'equal times hash equal')
        cover('hash')
    cover('equal' if a == b else 'less' if a < b else 'greater')
    f.check()


def check_sorted():
    us = [instant('a'), instant('b'), instant('c')]
    ts = [a_time(u) for u in us]
    out = sorted(ts)
    for i in range(2):
        expect(us_of(out[i]) <= us_of(out[i + 1]), 'sorting sorts by instant')
    expect_eq(us_of(min(ts)), min(us), 'the least time')
    expect_eq(us_of(max(ts)), max(us), 'the greatest time')
    cover('sorted')


class Anything(object):
    def __repr__(self):
        return 'anything'


def check_other():
    x = a_time(instant('a'), resolution() if choose(2, 'resolution') else None)
    other = choose(('none', 'number', 'zero', 'text', 'datetime', 'aware', 'duration', 'object'), 'other')
    y = {'none': None, 'number': sym_int('n'), 'zero': 0, 'text': sym_str('s'), 'datetime': naive(instant('b')),
         'aware': aware(instant('b'), Zone(0), 0), 'duration': td(sym_int('d', 0, DAY)), 'object': Anything()}[other]
    f = Frozen(x)
    expect((x == y) is False, 'never equal to anything else')
    expect((x != y) is True, 'always different from anything else')
    expect((y == x) is False, 'from either side')
    for op in ('<', '<=', '>', '>='):
        for swap in (0, 1):
            p, q = (y, x) if swap else (x, y)
            try:
                if op == '<':
                    p < q
                elif op == '<=':
                    p <= q
                elif op == '>':
                    p > q
                else:
                    p >= q
                raised = False
            except TypeError:
                raised = True
            expect(raised, 'ordering against anything else raises TypeError')
    f.check()
    cover('other type')


def check_arithmetic():
    a = instant('a')
    x = a_time(a, resolution() if choose(2, 'resolution') else None)
    d = sym_int('d', -300 * DAY, 300 * DAY)
    f = Frozen(x)
    if choose(2, 'operation'):
        y = x + td(d)
        expect_eq(us_of(y), a + d, 'shifted by exactly that duration')
        cover('sum')
    else:
        y = x - td(d)
        expect_eq(us_of(y), a - d, 'shifted back by exactly that duration')
        cover('difference')
    expect(y is not x, 'the result is another object')
    expect_eq(res_of(y), 1, 'the result is an instant (of the smallest resolution)')
    f.check()


def check_interval():
    a, b = instant('a'), instant('b')
    x = a_time(a, resolution('r') if choose(2, 'resolution of the first') else None)
    y = a_time(b, resolution('s') if choose(2, 'resolution of the second') else None)
    f = Frozen(x, y)
    d = x - y
    expect(isinstance(d, datetime.timedelta), 'a duration')
    expect_eq(d._us, a - b, 'the duration between the starts')
    f.check()
    cover('interval')


def check_bad_operand():
    x = a_time(instant('a'))
    y = choose((1, 0, None, '1', 1.5, x, Anything()), 'operand')
    for op in ('+', '-'):
        if op == '-' and y is x:
            continue
        try:
            x + y if op == '+' else x - y
            raised = False
        except TypeError:
            raised = True
        expect(raised, 'only durations can be added, only durations and times subtracted')
    cover('bad operand')
