class Certificate(object):
    @classmethod
    def peerFromTransport(cls, transport):
        return cls()


class DN(dict):
    pass


class ContextFactory(object):
    pass


_names = {'CN': 'commonName', 'O': 'organizationName', 'OU': 'organizationalUnitName', 'L': 'localityName',
          'ST': 'stateOrProvinceName', 'C': 'countryName', 'emailAddress': 'emailAddress'}
for _k in list(_names.values()):
    _names[_k] = _k
generated = []


class DistinguishedName(dict):
    def __init__(self, **kw):
        dict.__init__(self)
        for k, v in kw.items():
            if k not in _names:
                raise AttributeError('%s is not a valid OpenSSL X509 name field' % (k,))
            if not isinstance(v, (str, bytes)):
                raise TypeError('not a text')
            self[_names[k]] = v


DN = DistinguishedName


class KeyPair(object):
    def __init__(self, n):
        self.n = n

    @classmethod
    def generate(cls, kind=6, size=2048):
        k = cls(len(generated))
        generated.append(k)
        return k

    def selfSignedCert(self, serialNumber, **kw):
        if not isinstance(serialNumber, int):
            raise TypeError('serial number must be an integer')
        return PrivateCertificate(self, serialNumber, DistinguishedName(**kw))

    def inspect(self):
        return 'Private key %d' % self.n


class PrivateCertificate(Certificate):
    def __init__(self, privateKey, serial, subject):
        self.privateKey, self.serial, self.subject = privateKey, serial, subject

    def getSubject(self):
        return self.subject

    def serialNumber(self):
        return self.serial

    def inspect(self):
        return 'Certificate of key %d' % self.privateKey.n

    def dump(self, format=None):
        return b'CERTIFICATE %d' % self.privateKey.n

    def dumpPEM(self):
        return b'PEM CERTIFICATE AND KEY %d' % self.privateKey.n
