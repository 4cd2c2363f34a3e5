from twisted.python.randbytes import secureRandom


def token_bytes(nbytes=32):
    return secureRandom(nbytes)


def compare_digest(a, b):
    return a == b
