class _Base(object):
    def __init__(self, initial=None):
        self._v = self._empty if initial is None else initial
        self._p = 0
        self.closed = False

    def read(self, n=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if n is None or n < 0:
            r = self._v[self._p:]
            self._p = len(self._v)
        else:
            r = self._v[self._p:self._p + n]
            self._p += len(r)
        return r

    def getvalue(self):
        return self._v

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self._v = self._v[:self._p] + s + self._v[self._p + len(s):]
        self._p += len(s)
        return len(s)

    def seek(self, p, whence=0):
        self._p = p if whence == 0 else (self._p + p if whence == 1 else len(self._v) + p)
        return self._p

    def tell(self):
        return self._p

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def flush(self):
        pass


class BytesIO(_Base):
    _empty = b''


class StringIO(_Base):
    _empty = ''


def open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    import os
    return os.File(file, mode, encoding)
