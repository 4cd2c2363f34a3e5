from verif import current_exception, term


class NoCurrentExceptionError(Exception):
    pass


def _qual(cls):
    if isinstance(cls, str):
        return cls
    m = getattr(cls, '__module__', 'builtins')
    return m + '.' + cls.__qualname__


class Failure(BaseException):
    def __init__(self, exc_value=None, exc_type=None, exc_tb=None, captureVars=False):
        if exc_value is None:
            exc_value = current_exception()
            if exc_value is None:
                raise NoCurrentExceptionError()
        if isinstance(exc_value, Failure):
            self.__dict__.update(exc_value.__dict__)
            return
        if isinstance(exc_value, type) and isinstance(exc_value, type) and issubclass(exc_value, BaseException):
            exc_value = exc_value()
        self.value = exc_value
        self.type = type(exc_value) if exc_type is None else exc_type
        self.tb = exc_tb
        self.frames = []
        self.stack = []

    @property
    def parents(self):
        return [_qual(k) for k in self.type.__mro__]

    def trap(self, *errorTypes):
        e = self.check(*errorTypes)
        if not e:
            self.raiseException()
        return e

    def check(self, *errorTypes):
        for error in errorTypes:
            if isinstance(error, str):
                if error in self.parents:
                    return error
            elif issubclass(self.type, error):
                return error
        return None

    def raiseException(self):
        raise self.value

    def getErrorMessage(self):
        if isinstance(self.value, Failure):
            return self.value.getErrorMessage()
        return str(self.value)

    def getTraceback(self, elideFrameworkCode=0, detail='default'):
        return term('traceback', 'str', id(self.value)) + str(self.value)

    getBriefTraceback = getTraceback

    def getTracebackObject(self):
        return self.tb

    def printTraceback(self, file=None, elideFrameworkCode=False, detail='default'):
        if file is None:
            import sys
            file = sys.stderr
        file.write(self.getTraceback())

    def printBriefTraceback(self, file=None, elideFrameworkCode=0):
        self.printTraceback(file)

    def printDetailedTraceback(self, file=None, elideFrameworkCode=0):
        self.printTraceback(file)

    def cleanFailure(self):
        self.tb = None

    def __str__(self):
        return '[Failure instance: Traceback: %s: %s]' % (_qual(self.type), self.getErrorMessage())

    __repr__ = __str__
