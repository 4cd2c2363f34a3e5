"""distutils.core.setup: records its arguments; the commands come from the command line."""
calls = []
commands = []
command_obj = {}


class Distribution(object):
    def __init__(self, kw):
        self.kw = kw
        self.commands = list(commands)
        self.command_obj = dict(command_obj)


def setup(**kw):
    calls.append(kw)
    return Distribution(kw)
