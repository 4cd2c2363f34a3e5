from twisted.internet import error


class DelayedCall(object):
    def __init__(self, time, func, args, kw, cancel, reset, seconds=None):
        self.time, self.func, self.args, self.kw, self.canceller, self.resetter, self.seconds = (
            time, func, args, kw, cancel, reset, seconds)
        self.called = self.cancelled = 0

    def getTime(self):
        return self.time

    def cancel(self):
        if self.cancelled:
            raise error.AlreadyCancelled()
        if self.called:
            raise error.AlreadyCalled()
        self.canceller(self)
        self.cancelled = 1
