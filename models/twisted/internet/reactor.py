"""The global reactor: a clock, and a record of what was asked of it."""
from twisted.internet import error
from twisted.internet.task import Clock
clock = Clock()
callLater, seconds, getDelayedCalls = clock.callLater, clock.seconds, clock.getDelayedCalls
events = []
spawned = []
running = False
whenRunning = []
triggers = []
script = []


def callWhenRunning(f, *a, **k):
    if running:
        f(*a, **k)
    else:
        whenRunning.append((f, a, k))


def addSystemEventTrigger(phase, event, f, *a, **k):
    triggers.append((phase, event, f, a, k))


def spawnProcess(processProtocol, executable, args=(), env={}, path=None, uid=None, gid=None, usePTY=0, childFDs=None):
    spawned.append((processProtocol, executable, args, env, path, uid, gid, usePTY, childFDs))
    return spawned[-1]


def run(installSignalHandlers=True):
    global running
    if running:
        raise error.ReactorAlreadyRunning()
    events.append('run')
    running = True
    for f, a, k in whenRunning:
        f(*a, **k)
    while running and script:
        script.pop(0)()


def stop():
    global running
    if not running:
        raise error.ReactorNotRunning()
    events.append('stop')
    running = False
