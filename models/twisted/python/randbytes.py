from verif import fresh
draws = []


def secureRandom(nbytes, fallback=False):
    v = fresh('secureRandom', 'bytes', len=nbytes)
    draws.append((v, nbytes))
    return v


def insecureRandom(nbytes):
    return fresh('insecureRandom', 'bytes', len=nbytes)


class SecureRandomNotAvailable(RuntimeError):
    pass


class RandomFactory(object):
    def secureRandom(self, nbytes, fallback=False):
        return secureRandom(nbytes)

    def insecureRandom(self, nbytes):
        return insecureRandom(nbytes)
