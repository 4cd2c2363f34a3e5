"""os: an abstract file system and recorded system calls.

`fs` maps absolute paths to ('file', bytes), ('link', target) or ('dir',); `errors` maps a path to the OSError its use raises;
`events` lists what was done, in order."""
import errno as _errno
from os import path
curdir, pardir, sep, pathsep, linesep, extsep, altsep, devnull, name = '.', '..', '/', ':', '\n', '.', None, '/dev/null', 'posix'
environ = {'HOME': '/home/user', 'PATH': '/usr/bin'}
fs = {'/': ('dir',), '/work': ('dir',)}
errors = {}
events = []
cwd = ['/work']
pipes = {}
F_OK, R_OK, W_OK, X_OK = 0, 4, 2, 1
O_RDONLY, O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 0, 1, 2, 64, 128, 512, 1024


def strerror(n):
    return _errno.errorcode.get(n, 'Unknown error')


def _fail(n, p):
    raise OSError(n, strerror(n), p)


def fspath(p):
    if isinstance(p, (str, bytes)):
        return p
    return p.__fspath__()


def fsencode(p):
    return p.encode('utf-8') if isinstance(p, str) else p


def fsdecode(p):
    return p.decode('utf-8') if isinstance(p, bytes) else p


def getcwd():
    return cwd[0]


def chdir(p):
    cwd[0] = path.abspath(p)


def getenv(k, default=None):
    return environ.get(k, default)


def getpid():
    return 4242


def getuid():
    return 1000


geteuid = getgid = getegid = getuid


class stat_result(object):
    def __init__(self, kind, size):
        self.st_mode = {'file': 0o100644, 'dir': 0o040755, 'link': 0o120777}[kind]
        self.st_size = size
        self.st_mtime = self.st_atime = self.st_ctime = 0
        self.st_uid = self.st_gid = 1000
        self.st_nlink, self.st_dev = 1, 1


def _entry(p, follow):
    p = path.abspath(p)
    n = 0
    while True:
        if p in errors:
            raise errors[p]
        e = fs.get(p)
        if e is None:
            _fail(_errno.ENOENT, p)
        if e[0] != 'link' or not follow:
            return e
        n += 1
        if n > 8:
            _fail(_errno.ELOOP, p)
        p = path.abspath(path.join(path.dirname(p), e[1]))


def _size(e):
    return 4096 if e[0] == 'dir' else len(e[1])


def stat(p):
    e = _entry(p, True)
    events.append(('stat', p))
    return stat_result(e[0], _size(e))


def lstat(p):
    e = _entry(p, False)
    events.append(('lstat', p))
    return stat_result(e[0], _size(e))


def readlink(p):
    e = _entry(p, False)
    if e[0] != 'link':
        _fail(_errno.EINVAL, p)
    return e[1]


def listdir(p='.'):
    if p == '' or p == b'':
        _fail(_errno.ENOENT, p)
    p = path.abspath(p)
    e = _entry(p, True)
    if e[0] != 'dir':
        _fail(_errno.ENOTDIR, p)
    events.append(('listdir', p))
    return [path.basename(q) for q in fs if q != p and path.dirname(q) == p]


def walk(top, topdown=True, onerror=None, followlinks=False):
    dirs, others = [], []
    for n in listdir(top):
        e = fs[path.abspath(path.join(top, n))]
        (dirs if path.isdir(path.join(top, n)) else others).append(n)
    if topdown:
        yield top, dirs, others
    for d in dirs:
        q = path.join(top, d)
        if followlinks or not path.islink(q):
            for x in walk(q, topdown, onerror, followlinks):
                yield x
    if not topdown:
        yield top, dirs, others


class statvfs_result(object):
    f_bsize = 4096
    f_frsize = 512


def statvfs(p):
    return statvfs_result()


def mkdir(p, mode=0o777):
    p = path.abspath(p)
    if p in fs:
        _fail(_errno.EEXIST, p)
    if fs.get(path.dirname(p), ('x',))[0] != 'dir':
        _fail(_errno.ENOENT, p)
    fs[p] = ('dir',)


def makedirs(p, mode=0o777, exist_ok=False):
    if p == '' or p == b'':
        _fail(_errno.ENOENT, p)
    p = path.abspath(p)
    if p in fs:
        if exist_ok and fs[p][0] == 'dir':
            return
        _fail(_errno.EEXIST, p)
    makedirs(path.dirname(p), mode, True)
    fs[p] = ('dir',)


def remove(p):
    p = path.abspath(p)
    e = _entry(p, False)
    if e[0] == 'dir':
        _fail(_errno.EISDIR, p)
    del fs[p]


unlink = remove


def rmdir(p):
    p = path.abspath(p)
    if listdir(p):
        _fail(_errno.ENOTEMPTY, p)
    del fs[p]


def rename(a, b):
    a, b = path.abspath(a), path.abspath(b)
    fs[b] = _entry(a, False)
    del fs[a]


replace = rename


def symlink(target, p):
    fs[path.abspath(p)] = ('link', target)


def access(p, mode):
    return path.exists(p)


def write(fd, data):
    if not isinstance(data, bytes):
        raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
    events.append(('write', fd, data))
    return len(data)


def read(fd, n):
    events.append(('read', fd, n))
    r = pipes[fd].pop(0)
    if isinstance(r, Exception):
        raise r
    return r


def close(fd):
    events.append(('close', fd))


class File(object):
    """an open file of the abstract file system"""

    def __init__(self, p, mode, encoding=None):
        self.name = p
        self.mode = mode
        self._text = 'b' not in mode
        self._p = path.abspath(p)
        self.closed = False
        self._pos = 0
        if self._p in errors:
            raise errors[self._p]
        self._w = 'w' in mode or 'a' in mode or '+' in mode or 'x' in mode
        events.append(('open', p, mode))
        if 'x' in mode and self._p in fs:
            _fail(_errno.EEXIST, p)
        if 'w' in mode or 'x' in mode:
            if fs.get(path.dirname(self._p), ('x',))[0] != 'dir':
                _fail(_errno.ENOENT, p)
            fs[self._p] = ('file', b'')
        elif 'a' in mode:
            if self._p not in fs:
                fs[self._p] = ('file', b'')
            self._pos = len(fs[self._p][1])
        else:
            e = _entry(self._p, True)
            if e[0] == 'dir':
                _fail(_errno.EISDIR, p)

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def _data(self):
        self._check()
        d = _entry(self._p, True)[1]
        return d

    def read(self, n=-1):
        d = self._data()[self._pos:]
        if n is not None and n >= 0:
            d = d[:n]
        self._pos += len(d)
        return d.decode('utf-8') if self._text and isinstance(d, bytes) else d

    def readlines(self):
        return list(self)

    def readline(self):
        for l in self:
            return l
        return '' if self._text else b''

    def __iter__(self):
        e = fs.get(self._p)
        if e is not None and e[0] == 'lines':
            self._check()
            for l in e[1]:
                yield l
            return
        d = self.read()
        for l in d.splitlines(True):
            yield l

    def write(self, data):
        self._check()
        if not self._w:
            raise OSError('not writable')
        if self._text:
            if not isinstance(data, str):
                raise TypeError('write() argument must be str, not ' + type(data).__name__)
            data = data.encode('utf-8')
        elif not isinstance(data, bytes):
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        fs[self._p] = ('file', fs[self._p][1] + data)
        self._pos += len(data)
        events.append(('file write', self._p, data))
        return len(data)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            events.append(('file closed', self._p))
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
