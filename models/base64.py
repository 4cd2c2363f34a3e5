"""base64: encoding is one to one, decoding its inverse."""
from verif import term, match_term, is_sym, choose


def _bytes(s):
    if isinstance(s, str):
        return s.encode('ascii')
    return s


def b64encode(s, altchars=None):
    if not isinstance(s, bytes):
        raise TypeError("a bytes-like object is required, not '%s'" % type(s).__name__)
    if not is_sym(s):
        return _concrete(s)
    if not s:
        return b''
    return term('b64', 'bytes', s, ascii=True, nonempty=True, excl=(b'\r', b'\n', b' ', b':', b',', b'-', b'_'))


_ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def _concrete(s):
    out = b''
    for i in range(0, len(s), 3):
        c = s[i:i + 3]
        n = 0
        for k in range(3):
            n = n * 256 + (c[k] if k < len(c) else 0)
        q = bytes((_ALPHA[n // 262144], _ALPHA[n // 4096 % 64], _ALPHA[n // 64 % 64], _ALPHA[n % 64]))
        out += q[:len(c) + 1] + b'=' * (3 - len(c))
    return out


class _Error(ValueError):
    pass


def b64decode(s, altchars=None, validate=False):
    s = _bytes(s)
    if not isinstance(s, bytes):
        raise TypeError("argument should be a bytes-like object or ASCII string, not '%s'" % type(s).__name__)
    if not is_sym(s) and s == b'':
        return b''
    m = match_term(s, 'b64')
    if m is not None:
        return m[0]
    if choose(2, 'valid base64'):
        return term('unb64', 'bytes', s)
    raise _Error('Incorrect padding')


def urlsafe_b64encode(s):
    s = b64encode(s)
    if not is_sym(s):
        return s.replace(b'+', b'-').replace(b'/', b'_')
    return term('urlb64', 'bytes', s, ascii=True, nonempty=True, excl=(b'\r', b'\n', b' ', b':', b',', b'+', b'/'))


def urlsafe_b64decode(s):
    s = _bytes(s)
    m = match_term(s, 'urlb64')
    if m is not None:
        return b64decode(m[0])
    if is_sym(s):
        if choose(2, 'valid base64'):
            return term('unurlb64', 'bytes', s)
        raise _Error('Incorrect padding')
    return b64decode(s.replace(b'-', b'+').replace(b'_', b'/'))


encodestring = encodebytes = lambda s: b64encode(s) + b'\n'
decodestring = decodebytes = b64decode
standard_b64encode = b64encode
standard_b64decode = b64decode
