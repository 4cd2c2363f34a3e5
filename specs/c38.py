"""C38: a benchmarked process reports its end exactly once."""
from verif import sym_bytes, sym_str, sym_int, choose, expect, expect_eq, cover
from twisted.internet import reactor, error
from twisted.python.failure import Failure
from epsilon.scripts.benchmark import BasicProcess, BenchmarkProcess, ProcessDied
import c39

COVER = ('clean', 'died', 'timed out', 'other end', 'extended', 'cleanly after the timeout', 'spawned', 'two children',
         'fires while completing', 'request')


class Transport(object):
    def __init__(self):
        self.signals = []

    def signalProcess(self, s):
        expect(s in ('KILL', 'TERM', 'INT', 'HUP', 'QUIT', 'STOP', 9, 15, 2, 1, 3), 'a signal that exists')
        self.signals.append(s)

    def writeToChild(self, fd, data):
        pass


class Spawner(object):
    def __init__(self, dies=False):
        self.calls = []

    def __call__(self, proto, executable, args=(), env={}, path=None, uid=None, gid=None, usePTY=0, childFDs=None):
        self.calls.append((proto, executable, args, env, path, uid, gid, usePTY, childFDs))
        self.proto = proto
        self.transport = Transport()
        proto.makeConnection(self.transport)
        return self.transport


class Outcome(object):
    def __init__(self, d):
        self.got = []
        d.addCallbacks(self.ok, self.bad)

    def ok(self, r):
        self.got.append(('ok', r))

    def bad(self, f):
        self.got.append(('bad', f.value))


def spawn(name='x'):
    s = Spawner()
    d = BasicProcess.spawn('/bin/' + name, [], '/work', {}, s)
    return s, Outcome(d)


def period():
    calls = reactor.getDelayedCalls()
    expect(len(calls) == 1, 'the inactivity timer runs')
    return calls[0].getTime() - reactor.seconds()


def event(s, i, out):
    if choose(('data', 'closed'), 'event %d' % i) == 'data':
        fd, data = choose((1, 2, 3), 'descriptor %d' % i), sym_bytes('data %d' % i)
        s.proto.childDataReceived(fd, data)
        out.append((fd, data))
    else:
        fd = choose((0, 1, 4), 'descriptor %d' % i)
        s.proto.childConnectionLost(fd)
        out.append((fd, None))


def end(s, o, out, killed=False):
    how = choose(('done', 'terminated', 'other'), 'end')
    expect_eq(o.got, [], 'nothing is reported before the end')
    if how == 'done':
        status = choose((0, None, 7), 'status')
        s.proto.processEnded(Failure(error.ProcessDone(status)))
        expect(len(o.got) == 1 and o.got[0][0] == 'ok', 'a clean exit is reported once')
        proto, got, output = o.got[0][1]
        expect(proto is s.proto, 'with the process')
        expect(got is status, 'with the exit status')
        expect_eq(list(output), out, 'with all output in order')
        cover('cleanly after the timeout' if killed else 'clean')
    elif how == 'terminated':
        code, sig, status = choose((None, 1, 0), 'code'), choose((None, 9), 'signal'), sym_int('status')
        s.proto.processEnded(Failure(error.ProcessTerminated(code, sig, status)))
        expect(len(o.got) == 1 and o.got[0][0] == 'bad', 'an abnormal end is reported once, as an error')
        e = o.got[0][1]
        if killed:
            expect(isinstance(e, error.TimeoutError), 'killed for inactivity')
            cover('timed out')
        else:
            expect(isinstance(e, ProcessDied), 'died')
            expect(e.exitCode is code and e.signal is sig, 'with exit code and signal')
            expect_eq(e.status, status, 'with the status')
            expect_eq(list(e.output), out, 'with all output in order')
            cover('died')
    else:
        reason = error.ConnectionLost()
        s.proto.processEnded(Failure(reason))
        expect(len(o.got) == 1 and o.got[0][0] == 'bad', 'any other end is reported once, as an error')
        if not killed:
            expect(o.got[0][1] is reason, 'as it was given')
        cover('other end')
    expect(len(reactor.getDelayedCalls()) == 0, 'the timer is cancelled')
    n = len(s.transport.signals)
    reactor.clock.advance(100000)
    expect(len(s.transport.signals) == n and len(o.got) == 1, 'nothing happens after the end')


def check_history():
    """any output, then any end"""
    s, o = spawn()
    out = []
    for i in range(choose(3, 'events')):
        event(s, i, out)
    expect_eq(s.transport.signals, [], 'nobody kills an active child')
    end(s, o, out)


def check_timer():
    """every event restarts the timer; it expires after a silent period"""
    s, o = spawn()
    p = period()
    out = []
    for i in range(choose(3, 'events')):
        reactor.clock.advance(p - 1)
        expect_eq(s.transport.signals, [], 'not killed while active')
        event(s, i, out)
        expect_eq(period(), p, 'restarted')
        cover('extended')
    if choose(2, 'ends in time'):
        reactor.clock.advance(p - 1)
        end(s, o, out)
        return
    reactor.clock.advance(p)
    expect_eq(s.transport.signals, ['KILL'], 'killed when the timer expires')
    for i in range(choose(2, 'last words')):
        event(s, 10 + i, out)
    end(s, o, out, True)


def check_timing_requests():
    """what the child sends on the back channel restarts the timer as well"""
    c39.prepare()
    c39.stats('before')
    s = Spawner()
    o = Outcome(BenchmarkProcess.spawn('/bin/x', [], c39.BOX, {}, s))
    p = period()
    for r in choose(((b'\0',), (b'\0', b'\1'), (b'\1',), (b'\0\1',), (b'',), ('x',), ('x', b'\0'), ('closed',), (b'\0', 'closed')), 'requests'):
        reactor.clock.advance(p - 1)
        expect_eq(s.transport.signals, [], 'not killed while active')
        if r == 'x':
            s.proto.childDataReceived(1, b'x')
        elif r == 'closed':
            s.proto.childConnectionLost(s.proto.BACKCHANNEL_OUT)
        else:
            s.proto.childDataReceived(s.proto.BACKCHANNEL_OUT, r)
        expect_eq(period(), p, 'restarted by a request')
    cover('request')
    if choose(2, 'silent'):
        reactor.clock.advance(p)
        expect_eq(s.transport.signals, ['KILL'], 'killed when the timer expires')
        s.proto.processEnded(Failure(error.ProcessTerminated(None, 9, 9)))
        expect(len(o.got) == 1 and o.got[0][0] == 'bad' and isinstance(o.got[0][1], error.TimeoutError), 'reported as a timeout')
    else:
        s.proto.processEnded(Failure(error.ProcessDone(0)))
        expect(len(o.got) == 1 and o.got[0][0] == 'ok', 'reported once')
    expect(len(reactor.getDelayedCalls()) == 0, 'the timer is cancelled')


def check_two():
    """children do not influence each other"""
    s1, o1 = spawn('a')
    p = period()
    reactor.clock.advance(p - 10)
    s2, o2 = spawn('b')
    d2 = sym_bytes('data')
    s2.proto.childDataReceived(1, d2)
    if choose(2, 'first ends'):
        s1.proto.processEnded(Failure(error.ProcessDone(0)))
        expect(len(o1.got) == 1 and o2.got == [], 'only the first ended')
        reactor.clock.advance(20)
        expect_eq(s1.transport.signals + s2.transport.signals, [], 'nobody killed')
        s2.proto.processEnded(Failure(error.ProcessDone(0)))
        expect(o1.got[0][1][2] == [] and o2.got[0][1][2] == [(1, d2)], 'each with its own output')
    else:
        reactor.clock.advance(20)
        expect(s1.transport.signals == ['KILL'] and s2.transport.signals == [], 'only the silent one is killed')
        s2.proto.processEnded(Failure(error.ProcessTerminated(1, None, 256)))
        expect(isinstance(o2.got[0][1], ProcessDied), 'the other one died by itself')
        s1.proto.processEnded(Failure(error.ProcessTerminated(None, 9, 9)))
        expect(isinstance(o1.got[0][1], error.TimeoutError), 'the first timed out')
    cover('two children')


def check_spawn():
    exe, a, path, env = sym_str('executable'), sym_str('argument'), '/work/dir', {'K': sym_str('value')}
    if choose(2, 'reactor'):
        d = BasicProcess.spawn(exe, [a], path, env)
        expect(len(reactor.spawned) == 1, 'spawned once by the reactor')
        call = reactor.spawned[0]
    else:
        s = Spawner()
        d = BasicProcess.spawn(exe, [a], path, env, spawnProcess=s)
        expect(len(s.calls) == 1 and reactor.spawned == [], 'spawned once by the given function')
        call = s.calls[0]
    proto, gotexe, args, gotenv, gotpath, uid, gid, pty, fds = call
    expect(isinstance(proto, BasicProcess), 'with a process protocol')
    expect_eq(gotexe, exe, 'executable')
    expect_eq(list(args), [exe, a], 'arguments')
    expect_eq(gotenv, env, 'environment')
    expect_eq(gotpath, path, 'working directory')
    expect_eq(fds, {0: 'w', 1: 'r', 2: 'r', 3: 'r', 4: 'w'}, 'descriptors')
    expect(d.called == 0, 'not finished yet')
    cover('spawned')


def check_completion():
    """whoever is notified may look at the process, or fail"""
    s = Spawner()
    d = BasicProcess.spawn('/bin/x', [], '/work', {}, s)
    got = []
    fails = choose(2, 'fails')

    def done(r):
        got.append(r)
        if fails:
            raise ValueError('broken')
    d.addCallback(done)
    d.addErrback(lambda f: None)
    s.proto.processEnded(Failure(error.ProcessDone(0)))
    expect(len(got) == 1, 'told once')
    expect(len(reactor.getDelayedCalls()) == 0, 'the timer is cancelled whatever the callback does')
    cover('fires while completing')
