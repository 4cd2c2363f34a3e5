"""C53: a benchmark run reports both measurements, ends, and cleans up."""
import os
import sys
from verif import sym_bytes, sym_int, choose, expect, expect_eq, cover
from twisted.internet import reactor, error
from twisted.python import log
from twisted.python.failure import Failure
from epsilon import juice
from epsilon.scripts import benchmark
import c39

COVER = ('clean', 'bad status', 'error output', 'died', 'timed out', 'other end', 'never timed', 'ends while running', 'spawn fails')


class Boom(Exception):
    pass


class Transport(object):
    def __init__(self):
        self.signals = []

    def signalProcess(self, s):
        self.signals.append(s)

    def writeToChild(self, fd, data):
        pass


def prepare():
    c39.prepare()
    c39.stats('at start')
    os.environ.clear()
    os.environ['HOME'] = '/home/me'
    sys.argv[:] = choose((['benchmark', 'script.py'], ['benchmark', 'script.py', 'x', 'y']), 'arguments')


def existing():
    return sorted([p for p in os.fs if p.startswith('/work/') and p != '/work/output'])


def play(end, timed=True):
    """what the child does, once the reactor runs"""
    expect(len(reactor.spawned) == 1, 'one child is started')
    proto = reactor.spawned[0][0]
    proto.makeConnection(Transport())
    if timed:
        proto.childDataReceived(proto.BACKCHANNEL_OUT, proto.START)
        proto.childDataReceived(proto.BACKCHANNEL_OUT, proto.STOP)
    status = end()
    proto.childConnectionLost(1)
    return proto, status


def run(end, timed=True):
    """the whole program; returns the results appended to the output file"""
    before = existing()
    def child():
        where = reactor.spawned[0][4]
        expect(where not in before and where in os.fs, 'the child runs in a new directory')
        os.fs[where + '/left over'] = ('file', b'junk')
        proto, (f, tail) = play(lambda: end(), timed)
        for fd, data in tail:
            proto.childDataReceived(fd, data)
        proto.childConnectionLost(2)
        proto.processEnded(f)
    reactor.script.append(child)
    benchmark.main()
    expect_eq(existing(), before, 'the scratch directory is removed, and nothing else')
    expect_eq(reactor.events, ['run', 'stop'], 'the reactor runs and is stopped once')
    expect(len(reactor.getDelayedCalls()) == 0, 'no timer is left')
    out = os.fs.get('/work/output')
    return juice.parseString(out[1]) if out else []


def spawned_right():
    proto, executable, args, env, path, uid, gid, pty, fds = reactor.spawned[0]
    expect_eq(executable, sys.executable, 'the interpreter runs the benchmark')
    expect_eq(list(args), [sys.executable, '-Wignore'] + sys.argv[1:], 'with its arguments')
    expect(env['HOME'] == '/home/me', 'with the environment')


def reported(results, err, timeout='False'):
    name = sys.argv[1]
    expect_eq([m['name'] for m in results], [name + '-overall', name + '-benchmark'], 'both measurements, once each')
    for m in results:
        expect_eq(m['_command'], 'Result', 'a result')
        expect_eq(m['error'], 'True' if err else 'False', 'marked as bogus exactly if the benchmark failed')
        expect_eq(m['timeout'], timeout, 'not marked as timed out')


def check_finished():
    """it ran to its end"""
    prepare()
    how = choose(('clean', 'bad status', 'error output', 'output'), 'how')
    status = 3 if how == 'bad status' else 0
    tail = {'error output': [(2, b'oops')], 'output': [(1, b'hello')]}.get(how, [])
    results = run(lambda: (Failure(error.ProcessDone(status)), tail))
    spawned_right()
    reported(results, how in ('bad status', 'error output'))
    cover(how if how != 'output' else 'clean')


def check_measured():
    """each result is about its own measurement"""
    prepare()
    proto = []
    results = run(lambda: (Failure(error.ProcessDone(0)), []))
    p = reactor.spawned[0][0]
    for m, c in zip(results, (p.overallChange, p.benchmarkChange)):
        for k, n in (('read_count', 'readCount'), ('write_sectors', 'writeSectorCount')):
            expect_eq(m[k], '%d' % (getattr(c.after.partition, n) - getattr(c.before.partition, n)), 'the measurement named')
        expect_eq(m['sector_size'], '%d' % (os.statvfs('/').f_bsize,), 'the block size')


def check_died():
    """it died, was killed for inactivity, or ended in any other way: nothing is reported, everything ends"""
    prepare()
    how = choose(('died', 'timed out', 'other end'), 'how')
    if how == 'died':
        f = Failure(error.ProcessTerminated(1, None, 256))
    elif how == 'timed out':
        f = Failure(error.ProcessTerminated(None, 9, 9))
    else:
        f = Failure(error.ConnectionLost())

    def end():
        if how == 'timed out':
            c = reactor.getDelayedCalls()[0]
            reactor.clock.advance(c.getTime() - reactor.seconds())
        return f, []
    del log.events[:]
    expect_eq(run(end), [], 'nothing is reported')
    if how == 'other end':
        logged = [e[1] for e in log.events if e[0] == 'err']
        expect(len(logged) == 1 and logged[0].value is f.value, 'an end nobody foresaw is logged as an error')
    cover(how)


def check_untimed():
    """a script that never starts or stops timing does not keep the program from ending"""
    prepare()
    run(lambda: (Failure(error.ProcessDone(0)), []), False)
    cover('never timed')


def check_spawn_fails():
    """the scratch directory is removed even if the child cannot be started"""
    prepare()
    before = existing()
    boom = Boom()

    def spawn(*a, **k):
        raise boom
    reactor.spawnProcess = spawn
    try:
        benchmark.main()
    except Boom as e:
        expect(e is boom, 'the error is passed on')
        cover('spawn fails')
    expect_eq(existing(), before, 'the scratch directory is removed')


def check_interrupted():
    """the reactor ends by itself before the child does"""
    prepare()
    before = existing()
    how = choose(('raises', 'stopped'), 'how')

    def child():
        if how == 'raises':
            raise Boom()
        reactor.stop()
    reactor.script.append(child)
    try:
        benchmark.main()
    except Boom:
        pass
    expect_eq(existing(), before, 'the scratch directory is removed')
    cover('ends while running')
