def gethostname():
    return 'testhost'


class error(OSError):
    pass


class timeout(OSError):
    pass


AF_INET, SOCK_STREAM = 2, 1
