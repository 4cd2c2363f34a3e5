"""C63: the version of the package is the one its version string states."""
from verif import sym_int, sym_str, choose, expect, expect_eq, cover
from twisted.python import versions
import epsilon
from epsilon import asTwistedVersion

COVER = ('plain', 'suffix', 'own')


def check_version():
    package = sym_str('package')
    n = []
    for i in range(3):
        lo, hi = choose(((0, 9), (10, 99), (1000, 9999)), 'width %d' % i)
        n.append(sym_int('number%d up to %d' % (i, hi), lo, hi))
    text = '%d.%d.%d' % tuple(n)
    suffix = choose(('', '+3.gabcdef', 'rc1', '.dev4', '.9', '.9.8', '-5', '+9.9.9', ' (final)', 'a1.2'), 'suffix')
    v = asTwistedVersion(package, text + suffix)
    cover('suffix' if suffix else 'plain')
    expect(isinstance(v, versions.Version), 'a version')
    expect_eq(v.package, package, 'of the package')
    expect_eq((v.major, v.minor, v.micro), tuple(n), 'the first three numbers')
    expect(v.release_candidate is None and v.post is None and v.dev is None, 'and nothing else')
    for x in (v.major, v.minor, v.micro):
        expect(type(x) is int, 'as numbers')


def check_own():
    expect(epsilon.version.package == 'epsilon', 'the version of this package')
    expect_eq(epsilon.version.short(), '.'.join(epsilon.__version__.split('.')[:3]), 'is the one of its version string')
    cover('own')
