"""C52: traced calls are shown with all their arguments at their nesting depth."""
import sys
import threading
from verif import choose, expect, expect_eq, cover, sym_str
from epsilon.spewer import Spewer, extractArgs, formatArgs
from anyval import Any

COVER = ('call', 'method', 'return', 'nothing returned', 'exception', 'extra positional', 'extra keywords', 'keyword only', 'unset', 'deep',
         'outer return')


class Code(object):
    def __init__(self, name, pos, kwonly, star, stars, other=()):
        self.co_name = name
        self.co_argcount = len(pos)
        self.co_posonlyargcount = 0
        self.co_kwonlyargcount = len(kwonly)
        self.co_flags = 0x43 | (4 if star else 0) | (8 if stars else 0)
        self.co_varnames = tuple(pos) + tuple(kwonly) + ((star,) if star else ()) + ((stars,) if stars else ()) + tuple(other)
        self.co_nlocals = len(self.co_varnames)
        self.co_filename = 'x.py'
        self.co_firstlineno = 1


class Frame(object):
    f_back = None
    f_lineno = 1

    def __init__(self, code, local):
        self.f_code, self.f_locals, self.f_globals = code, local, {'__name__': 'm'}


class Thing(Any):
    def __repr__(self):
        return '<thing>'


def code():
    """every kind of signature, with a local that is no argument"""
    pos = choose(((), ('a',), ('a', 'b')), 'positional')
    kwonly = choose(((), ('k',), ('k', 'l')), 'keyword only')
    star = choose((None, 'args'), 'star')
    stars = choose((None, 'kw'), 'double star')
    if kwonly:
        cover('keyword only')
    if star:
        cover('extra positional')
    if stars:
        cover('extra keywords')
    names = list(pos) + list(kwonly) + [n for n in (star, stars) if n]
    return Code('work', pos, kwonly, star, stars, ('other',)), names


def check_arguments():
    """exactly the arguments of the call, with their values"""
    co, names = code()
    values = {}
    for i, n in enumerate(names):
        values[n] = choose((0, None, '', 'text', (1, 2)), 'value') if i == 0 else i
    local = dict(values, other='not an argument')
    if names and choose(2, 'unset'):
        del local[names[-1]]
        values[names[-1]] = '*** undefined ***'
        cover('unset')
    got = extractArgs(Frame(co, local))
    expect_eq(sorted(got), sorted(names), 'every argument, and nothing else')
    for n in names:
        if n in local:
            expect(got[n] is local[n] or got[n] == local[n], 'with its value')
    parts = ['%s=%r' % (n, got[n]) for n in got]
    expect_eq(formatArgs(got), ', '.join(parts), 'shown with its value')


def lines():
    out = ''.join(sys.stdout.written)
    del sys.stdout.written[:]
    return out


def head(depth):
    return '%X ' % (id(threading.current_thread()),) + ' ' * depth


NONE = Code('idle', (), (), None, None)


def check_shown():
    """one call"""
    s = Spewer()
    co, names = code()
    local = dict([(n, i) for i, n in enumerate(names)])
    expect(s.trace(Frame(co, local), 'call', None) == s.trace, 'tracing goes on')
    text = ', '.join(['%s=%r' % (n, local[n]) for n in extractArgs(Frame(co, local))])
    expect_eq(lines(), head(1) + 'work(' + text + ')\n', 'the function and its arguments')
    cover('call')


def check_method():
    s = Spewer()
    s.trace(Frame(Code('m', ('self', 'x'), (), None, None), {'self': Thing(), 'x': 3}), 'call', None)
    expect_eq(lines(), head(1) + Thing.__module__ + '.Thing.m(self=<thing>, x=3)\n', 'the class of the method')
    cover('method')


def check_depth():
    """any sequence of events as the interpreter reports them: an exception is always followed by a return of its frame"""
    s = Spewer()
    depth = 0
    for i in range(choose((3, 4), 'length')):
        e = choose(('call', 'return', 'raise', 'line'), 'event %d' % i)
        f = Frame(NONE, {})
        if e == 'call':
            depth += 1
            s.trace(f, 'call', None)
            expect_eq(lines(), head(depth) + 'idle()\n', 'indented by the number of calls in progress')
            if depth > 2:
                cover('deep')
        elif e == 'line':
            expect(s.trace(f, 'line', None) == s.trace, 'tracing goes on')
            expect_eq(lines(), '', 'lines are not shown')
        else:
            if e == 'raise':
                err = ValueError('x')
                s.trace(f, 'exception', (ValueError, err, None))
                expect_eq(lines(), head(depth) + '^- ' + repr((ValueError, err, None)) + '\n', 'the exception, at the depth of its call')
                cover('exception')
                if choose(2, 'caught'):
                    continue
                value = None
            else:
                value = choose((None, 0, '', 'text'), 'value')
            s.trace(f, 'return', value)
            if value is None:
                expect_eq(lines(), '', 'nothing returned, nothing shown')
                cover('nothing returned')
            else:
                expect_eq(lines(), head(depth) + '<= ' + repr(value) + '\n', 'the value returned, at the depth of its call')
                cover('return')
            if depth == 0:
                cover('outer return')
            depth = max(0, depth - 1)
