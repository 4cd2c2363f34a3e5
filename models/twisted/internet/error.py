class ConnectError(Exception):
    def __init__(self, osError=None, string=''):
        self.osError = osError
        Exception.__init__(self, string)


class ConnectionRefusedError(ConnectError):
    pass


class ConnectionClosed(Exception):
    pass


class ConnectionLost(ConnectionClosed):
    pass


class ConnectionAborted(ConnectionLost):
    pass


class ConnectionDone(ConnectionClosed):
    pass


class UserError(Exception):
    pass


class TimeoutError(UserError):
    pass


class AlreadyCancelled(ValueError):
    pass


class AlreadyCalled(ValueError):
    pass


class PotentialZombieWarning(Warning):
    pass


class ReactorNotRunning(RuntimeError):
    pass


class ReactorNotRestartable(RuntimeError):
    pass


class ReactorAlreadyRunning(RuntimeError):
    pass


class ProcessExitedAlready(Exception):
    pass


class ProcessDone(ConnectionDone):
    def __init__(self, status):
        Exception.__init__(self, 'process finished with exit code 0')
        self.exitCode = 0
        self.signal = None
        self.status = status


class ProcessTerminated(ConnectionLost):
    def __init__(self, exitCode=None, signal=None, status=None):
        self.exitCode = exitCode
        self.signal = signal
        self.status = status
        s = 'process ended'
        Exception.__init__(self, s)
