"""Digests: uninterpreted, collision-free functions of their input."""
from verif import term


class _Hash(object):
    def __init__(self, op, size, data=b''):
        self.op = op
        self.digest_size = size
        self.data = b''
        self.update(data)

    def update(self, data):
        if not isinstance(data, (bytes, bytearray)):
            raise TypeError('Strings must be encoded before hashing')
        self.data = self.data + bytes(data)

    def digest(self):
        return term(self.op, 'bytes', self.data, len=self.digest_size)

    def hexdigest(self):
        return term(self.op + 'hex', 'str', self.data, len=2 * self.digest_size, ascii=True, lower=True)

    def copy(self):
        return _Hash(self.op, self.digest_size, self.data)


def sha1(data=b'', usedforsecurity=True):
    return _Hash('sha1', 20, data)


def md5(data=b'', usedforsecurity=True):
    return _Hash('md5', 16, data)


def sha256(data=b'', usedforsecurity=True):
    return _Hash('sha256', 32, data)


def sha512(data=b'', usedforsecurity=True):
    return _Hash('sha512', 64, data)


def new(name, data=b'', usedforsecurity=True):
    return {'sha1': sha1, 'md5': md5, 'sha256': sha256, 'sha512': sha512}[name.lower()](data)
