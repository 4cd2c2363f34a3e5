"""signal: a table of handlers; `default` are those found at first."""
SIG_DFL, SIG_IGN = 0, 1
SIGHUP, SIGINT, SIGQUIT, SIGKILL, SIGUSR1, SIGUSR2, SIGTERM, SIGCHLD = 1, 2, 3, 9, 10, 12, 15, 17
handlers = {}
calls = []


def default_int_handler(signum, frame):
    raise KeyboardInterrupt()


def getsignal(n):
    return handlers.get(n, default_int_handler if n == SIGINT else SIG_DFL)


def signal(n, h):
    if not (callable(h) or h in (SIG_DFL, SIG_IGN)):
        raise TypeError('signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object')
    old = getsignal(n)
    handlers[n] = h
    calls.append((n, h))
    return old
