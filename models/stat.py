def S_ISLNK(m):
    return m & 0o170000 == 0o120000


def S_ISDIR(m):
    return m & 0o170000 == 0o040000


def S_ISREG(m):
    return m & 0o170000 == 0o100000


def S_IMODE(m):
    return m & 0o7777


S_IFLNK, S_IFDIR, S_IFREG = 0o120000, 0o040000, 0o100000
