from twisted.internet import error


class TimeoutMixin(object):
    timeOut = None
    __timeoutCall = None

    def callLater(self, period, func):
        from twisted.internet import reactor
        return reactor.callLater(period, func)

    def resetTimeout(self):
        if self.__timeoutCall is not None and self.timeOut is not None:
            self.__timeoutCall.reset(self.timeOut)

    def setTimeout(self, period):
        prev = self.timeOut
        self.timeOut = period
        if self.__timeoutCall is not None:
            if period is None:
                try:
                    self.__timeoutCall.cancel()
                except (error.AlreadyCancelled, error.AlreadyCalled):
                    pass
                self.__timeoutCall = None
            else:
                self.__timeoutCall.reset(period)
        elif period is not None:
            self.__timeoutCall = self.callLater(period, self.__timedOut)
        return prev

    def __timedOut(self):
        self.__timeoutCall = None
        self.timeoutConnection()

    def timeoutConnection(self):
        self.transport.loseConnection()
