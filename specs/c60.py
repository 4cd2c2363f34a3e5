"""C60: a template expands to the files it describes."""
import os
import sys
import datetime
from verif import sym_str, choose, expect, expect_eq, cover, fresh
from epsilon import asplode

COVER = ('expanded', 'nested', 'replaced', 'existing directory', 'empty file', 'same file', 'main', 'no date', 'long')
PLAIN = ('_', '#', '\n', '\r', '/', ' ')
MARK = '###file:'


def today():
    """one day, everywhere"""
    us = fresh('now', 'int', lo=730120 * 86400000000, hi=800000 * 86400000000)
    now = datetime.datetime(1, 1, 1) + datetime.timedelta(microseconds=us)
    datetime.datetime.utcnow = classmethod(lambda cls: now)
    local = datetime.datetime.now()
    return local.date().isoformat()


def files():
    return dict([(p, e[1]) for p, e in os.fs.items() if e[0] == 'file'])


def expanded(want, order, before):
    got = files()
    expect_eq(sorted(got), sorted(set(list(want) + list(before))), 'the files described are there, and no others')
    for p in want:
        expect_eq(got[p], want[p].encode('utf-8'), 'contents of ' + p)
    for p in before:
        if p not in want:
            expect(got[p] == before[p], 'other files are left alone')
    opened = [e for e in os.events if e[0] == 'open']
    closed = [e for e in os.events if e[0] == 'file closed']
    expect(len(opened) == len(closed), 'every file is complete')
    told = ''.join(sys.stderr.written)
    expect_eq(told, ''.join(['Created: ' + n + '\n' for n in order]), 'each file is named, in order')
    cover('expanded')


def check_contents():
    """lines with marks at all places, and text which is no mark"""
    day = today()
    proj, cap = sym_str('proj', excl=PLAIN), sym_str('cap', excl=PLAIN)
    x = sym_str('x', excl=PLAIN)
    lines, want = [], ''
    for i in range(2):
        t, w = choose(((x + '\n', x + '\n'),
                       ('_project_\n', proj + '\n'),
                       ('class _Project_s(_project_._Project_):\n', 'class ' + cap + 's(' + proj + '.' + cap + '):\n'),
                       (x + '_date_ _date_\n', x + day + ' ' + day + '\n'),
                       ('__project__dates__PROJECT_ # file:a ##file:b _Date_\n', '_' + proj + '_dates__PROJECT_ # file:a ##file:b _Date_\n'),
                       ('\n', '\n')), 'line %d' % i)
        lines.append(t)
        want += w
    before = {}
    if choose(2, 'existing'):
        os.fs['/work/a'] = ('file', b'something longer than what replaces it' * 9)
        cover('replaced')
    os.fs['/work/other'] = ('file', b'precious')
    before = files()
    asplode.splode(iter([MARK + 'a\n'] + lines), proj, cap)
    expanded({'/work/a': want}, ['a'], before)


def check_several():
    """files in several directories, some of them there before"""
    day = today()
    proj, cap = 'pr', 'Pr'
    have = choose(((), ('/work/d',), ('/work/d', '/work/d/pr')), 'directories')
    for d in have:
        os.fs[d] = ('dir',)
        cover('existing directory')
    lines, order, want = [], [], {}
    for i in range(3):
        n, m, w = choose((('a', 'a', '/work/a'), ('d/_project_/__init__.py', 'd/pr/__init__.py', '/work/d/pr/__init__.py'),
                          ('  d/_Project_ file ', 'd/Pr file', '/work/d/Pr file'), ('/abs/_date_', '/abs/' + day, '/abs/' + day)), 'file %d' % i)
        if w in want:
            cover('same file')
        if '/d/' in w:
            cover('nested')
        lines.append(('', 'some text ', '')[i] + MARK + n + '\n')
        order.append(m)
        t = ''
        for j in range(choose((0, 2), 'lines of %d' % i) if i else 1):
            t += 'line %d of %d\n' % (j, i)
            lines.append('line %d of %d\n' % (j, i))
        if not t:
            cover('empty file')
        want[w] = t
    asplode.splode(lines, proj, cap)
    expanded(want, order, {})


def check_no_newline():
    """the last line of a template need not be ended"""
    asplode.splode([MARK + 'a\n', 'one\n', 'two'], 'p', 'P')
    expanded({'/work/a': 'one\ntwo'}, ['a'], {})
    cover('no date')


class In(object):
    """standard input"""

    def __init__(self, lines):
        self.lines = lines

    def __iter__(self):
        while self.lines:
            yield self.lines.pop(0)

    def readlines(self):
        return list(self)

    def readline(self):
        return self.lines.pop(0) if self.lines else ''

    def read(self):
        return ''.join(list(self))


def check_main():
    sys.stdin = In([MARK + '_project_/x\n', '_Project_ _project_\n'])
    asplode.main(['asplode'])
    expanded({'/work/zoop/x': 'Zoop zoop\n'}, ['zoop/x'], {})
    cover('main')


def check_long():
    """a template of many files with many lines"""
    today()
    lines, want, order = [], {}, []
    for i in range(30):
        lines.append(MARK + 'f%d\n' % i)
        order.append('f%d' % i)
        want['/work/f%d' % i] = ''
        for j in range(10):
            lines.append('%d\n' % (i * j))
            want['/work/f%d' % i] += '%d\n' % (i * j)
    asplode.splode(iter(lines), 'pr', 'Pr')
    expanded(want, order, {})
    cover('long')
