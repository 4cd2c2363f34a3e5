"""os.path (POSIX), over the abstract file system of the os model."""
import os
curdir, pardir, sep, pathsep, extsep, altsep = '.', '..', '/', ':', '.', None


def isabs(p):
    return p[:1] == '/'


def join(a, *ps):
    a = os.fspath(a)
    for b in ps:
        b = os.fspath(b)
        if b[:1] == '/':
            a = b
        elif not a or a[-1:] == '/':
            a = a + b
        else:
            a = a + '/' + b
    return a


def split(p):
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if head and head != '/' * len(head):
        head = head.rstrip('/')
    return head, tail


def dirname(p):
    return split(p)[0]


def basename(p):
    return p[p.rfind('/') + 1:]


def splitext(p):
    i = p.rfind('.')
    j = p.rfind('/')
    if i > j + 1:
        return p[:i], p[i:]
    return p, ''


def normpath(p):
    if p == '':
        return '.'
    root = '/' if p[:1] == '/' else ''
    out = []
    for c in p.split('/'):
        if c in ('', '.'):
            continue
        if c != '..' or (not root and not out) or (out and out[-1] == '..'):
            out.append(c)
        elif out:
            out.pop()
    return (root + '/'.join(out)) or '.'


def abspath(p):
    p = os.fspath(p)
    if p[:1] != '/':
        p = join(os.getcwd(), p)
    return normpath(p)


def realpath(p):
    return abspath(p)


def expanduser(p):
    return p


def commonprefix(ps):
    if not ps:
        return ''
    a, b = min(ps), max(ps)
    for i in range(len(a)):
        if a[i] != b[i]:
            return a[:i]
    return a


def commonpath(ps):
    out = None
    for p in ps:
        c = [x for x in p.split('/') if x and x != '.']
        if out is None:
            out = c
        else:
            n = 0
            while n < len(c) and n < len(out) and c[n] == out[n]:
                n += 1
            out = out[:n]
    return ('/' if ps[0][:1] == '/' else '') + '/'.join(out)


def relpath(p, start='.'):
    a = [x for x in abspath(start).split('/') if x]
    b = [x for x in abspath(p).split('/') if x]
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return '/'.join(['..'] * (len(a) - n) + b[n:]) or '.'


def _kind(p, follow):
    try:
        return os._entry(p, follow)[0]
    except OSError:
        return None


def exists(p):
    return _kind(p, True) is not None


def lexists(p):
    return _kind(p, False) is not None


def isdir(p):
    return _kind(p, True) == 'dir'


def isfile(p):
    return _kind(p, True) == 'file'


def islink(p):
    return _kind(p, False) == 'link'


def ismount(p):
    return abspath(p) == '/'


def getsize(p):
    return os.stat(p).st_size
