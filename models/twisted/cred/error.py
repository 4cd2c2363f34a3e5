class Unauthorized(Exception):
    pass


class LoginFailed(Exception):
    pass


class UnauthorizedLogin(LoginFailed, Unauthorized):
    pass


class UnhandledCredentials(LoginFailed):
    pass


class LoginDenied(LoginFailed):
    pass
