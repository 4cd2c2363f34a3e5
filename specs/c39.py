"""C39: benchmark measurements bracket exactly the measured work."""
import os
import time
from verif import sym_int, choose, expect, expect_eq, cover
from twisted.internet import reactor
from twisted.internet.defer import Deferred
from twisted.python.filepath import FilePath
from epsilon.scripts import benchmark
from epsilon.scripts.benchmark import Change, BenchmarkProcess

COVER = ('started', 'stopped', 'no such device', 'overall', 'asked to start', 'asked to stop', 'killed', 'other descriptor',
         'several requests', 'child acknowledged', 'child refused', 'interrupted', 'device found', 'no device')
NAMES = ('readCount mergedReadCount readSectorCount readMilliseconds writeCount mergedWriteCount writeSectorCount '
         'writeMilliseconds outstandingIOCount ioMilliseconds weightedIOMilliseconds').split()
BOX = '/work/dir'


def stats(tag):
    """the disk statistics of a moment: fresh counters for every device"""
    r = {}
    lines = []
    for minor, dev in enumerate(('sda', 'sda1', 'sdb', 'sdb1')):
        v = [sym_int('%s %s %d' % (tag, dev, i), 0) for i in range(11)]
        r[dev] = v
        lines.append(b'   8   %d %s ' % (minor, dev.encode('ascii')) + b' '.join([b'%d' % x for x in v]) + b'\n')
    os.fs['/proc/diskstats'] = ('lines', lines)
    return r


def prepare():
    os.fs.update({BOX: ('dir',), BOX + '/a': ('file', b'x' * 7), BOX + '/sub': ('dir',), BOX + '/sub/b': ('file', b''),
                  BOX + '/sub/l': ('link', 'nowhere'), '/work/other': ('file', b'y' * 1000),
                  '/proc/self/mounts': ('file', b'/dev/sda1 / ext4 rw 0 0\n/dev/sdb1 /home ext4 rw 0 0\n')})
    return 4096 + 7 + 4096 + 0 + 7


def same_stat(got, v, what):
    if v is None:
        expect(got is None, 'no statistics of a device that is not there: ' + what)
        cover('no such device')
        return
    for n, x in zip(NAMES, v):
        expect_eq(getattr(got, n), x, '%s of the %s asked for' % (n, what))


def is_clock(e):
    return e[0] == 'clock'


def gathering(e):
    return e[0] in ('open', 'stat', 'lstat', 'listdir')


def snapshot(s, v, disk, partition, size, readings):
    expect(len(readings) == 1, 'the clock is read once')
    expect(s.time is readings[0][1] or s.time == readings[0][1], 'the time is the clock reading')
    same_stat(s.disk, v.get(disk), 'disk')
    same_stat(s.partition, v.get(partition), 'partition')
    expect_eq(s.size, size, 'the size of the directory asked for')


def last_clock(events):
    events = [e for e in events if is_clock(e) or gathering(e)]
    expect(is_clock(events[-1]), 'the clock is read last')
    expect(len([e for e in events if gathering(e)]) > 0, 'after gathering statistics')


def first_clock(events):
    events = [e for e in events if is_clock(e) or gathering(e)]
    expect(is_clock(events[0]), 'the clock is read first')


def check_change():
    size = prepare()
    disk, partition = choose((('sda', 'sda1'), ('sdb', 'sdb1'), ('sdb', 'sda1'), ('md0', 'sda1'), ('sda', 'md0p1'), ('', '')), 'asked')
    c = Change()
    v = stats('before')
    del os.events[:]
    c.start(FilePath(BOX), disk, partition)
    last_clock(os.events)
    snapshot(c.before, v, disk, partition, size, [e for e in os.events if is_clock(e)])
    cover('started')
    w = stats('after')
    more = choose((0, 5), 'growth')
    if more:
        os.fs[BOX + '/new'] = ('file', b'z' * more)
    del os.events[:]
    c.stop(FilePath(BOX), disk, partition)
    first_clock(os.events)
    snapshot(c.after, w, disk, partition, size + more, [e for e in os.events if is_clock(e)])
    snapshot(c.before, v, disk, partition, size, [('clock', c.before.time)])
    cover('stopped')


class Transport(object):
    def signalProcess(self, s):
        expect(s in ('KILL', 'TERM', 'INT', 'HUP', 'QUIT', 9, 15, 2, 1, 3), 'a signal that ends the child')
        os.events.append(('signal', s))

    def writeToChild(self, fd, data):
        os.events.append(('ack', fd, data))


def process():
    size = prepare()
    v = stats('at start')
    del os.events[:]
    p = BenchmarkProcess(Deferred(), FilePath(BOX))
    p.makeConnection(Transport())
    return p, v, size


def check_overall():
    p, v, size = process()
    last_clock([e for e in os.events if is_clock(e) or gathering(e)])
    snapshot(p.overallChange.before, v, 'sda', 'sda1', size, [e for e in os.events if is_clock(e)])
    w = stats('at end')
    del os.events[:]
    from twisted.internet import error
    from twisted.python.failure import Failure
    got = []
    p.whenFinished.addCallback(lambda r: got.append((r, list(os.events))))
    p.processEnded(Failure(error.ProcessDone(0)))
    first_clock(os.events)
    snapshot(p.overallChange.after, w, 'sda', 'sda1', size, [e for e in os.events if is_clock(e)])
    expect(len(got) == 1 and len([e for e in got[0][1] if is_clock(e)]) == 1, 'measured before the end is reported')
    cover('overall')


def request(p, kind, i, size):
    """one request of the child, with fresh statistics; returns the snapshot checks"""
    v = stats('request %d' % i)
    del os.events[:]
    p.childDataReceived(p.BACKCHANNEL_OUT, kind)
    acks = [e for e in os.events if e[0] == 'ack']
    signals = [e for e in os.events if e[0] == 'signal']
    if kind == b'\0':
        expect_eq(acks, [('ack', 4, b'\0')], 'acknowledged on the back channel')
        expect(os.events[-1][0] == 'ack', 'after the measurement')
        last_clock(os.events[:-1])
        snapshot(p.benchmarkChange.before, v, 'sda', 'sda1', size, [e for e in os.events if is_clock(e)])
        expect(signals == [], 'not killed')
        cover('asked to start')
    elif kind == b'\1':
        expect_eq(acks, [('ack', 4, b'\1')], 'acknowledged on the back channel')
        expect(os.events[-1][0] == 'ack', 'after the measurement')
        first_clock(os.events)
        snapshot(p.benchmarkChange.after, v, 'sda', 'sda1', size, [e for e in os.events if is_clock(e)])
        expect(signals == [], 'not killed')
        cover('asked to stop')
    else:
        expect(len(signals) == 1 and acks == [], 'any other request kills the child and is not acknowledged')
        expect(len([e for e in os.events if is_clock(e)]) == 0, 'and measures nothing')
        cover('killed')


def check_requests():
    p, v, size = process()
    if choose(2, 'killed'):
        request(p, choose((b'\2', b'0', b'1', b'\x80', b'\xff', b'\n'), 'request'), 0, size)
        return
    kinds = choose(((b'\0', b'\1'), (b'\0', b'\1', b'\0', b'\1'), (b'\0', b'\0', b'\1'), (b'\1',)), 'requests')
    for i, k in enumerate(kinds):
        request(p, k, i, size)
    snapshot(p.overallChange.before, v, 'sda', 'sda1', size, [('clock', p.overallChange.before.time)])


def check_several():
    """requests that arrive together are handled in order; other output is only recorded"""
    p, v, size = process()
    del os.events[:]
    p.childDataReceived(p.BACKCHANNEL_OUT, b'\0\1')
    expect_eq([e for e in os.events if e[0] in ('ack', 'signal')], [('ack', 4, b'\0'), ('ack', 4, b'\1')], 'both, in order')
    expect_eq([e[0] for e in os.events if e[0] in ('ack', 'clock')], ['clock', 'ack', 'clock', 'ack'], 'each after its measurement')
    cover('several requests')
    del os.events[:]
    fd = choose((1, 2), 'descriptor')
    p.childDataReceived(fd, choose((b'\0', b'\1', b'x', b''), 'output'))
    expect_eq(os.events, [], 'output is no request')
    expect(len(p.output) == 1 and p.output[0][0] == fd, 'it is kept')
    cover('other descriptor')


def check_child():
    """the benchmark's side: asks, and goes on only when acknowledged"""
    f, code, wrong = choose(((benchmark.start, b'\0', b'\1'), (benchmark.stop, b'\1', b'\0')), 'function')
    answer = choose((code, wrong, b'', b'?'), 'answer')
    intr = choose(2, 'interrupted')
    os.pipes[4] = ([OSError(4, 'EINTR')] if intr else []) + [answer]
    del os.events[:]
    try:
        f()
    except RuntimeError:
        expect(answer != code, 'an acknowledgement is accepted')
        cover('child refused')
    else:
        expect(answer == code, 'anything but the acknowledgement is refused')
        cover('child acknowledged')
    if intr:
        cover('interrupted')
    expect_eq(os.events[0], ('write', 3, code), 'asked on the back channel first')
    expect(os.events[1:] == [('read', 4, 1)] * (1 + intr), 'then waited for the answer')


MOUNTS = (('/', '/dev/root'), ('/home', '/dev/home'), ('/home2', '/dev/home2'), ('/home/me', 'tmpfs'), ('/home', '/dev/a'))


def permutations(xs, n):
    if n == 0:
        return [()]
    return [(x,) + rest for i, x in enumerate(xs) for rest in permutations(xs[:i] + xs[i + 1:], n - 1)]


def check_device():
    """the device mounted nearest above the working directory; of several, the last"""
    names = choose(tuple(permutations(MOUNTS, 2)) + tuple(permutations(MOUNTS, 3)) + ((),) + tuple((m,) for m in MOUNTS), 'mounts')
    where = choose(('/', '/home', '/home/me', '/home/me/x', '/home/mechanic', '/home2/y', '/homeless'), 'directory')
    os.cwd[0] = where
    os.fs['/m'] = ('file', ''.join(['%s %s ext4 rw 0 0\n' % (d, m) for (m, d) in names]).encode('ascii'))
    best = None
    for m, d in names:
        if where == m or m == '/' or where[:len(m) + 1] == m + '/':
            if best is None or len(m) >= len(best[0]):
                best = (m, d)
    got = benchmark.discoverCurrentWorkingDevice('/m')
    if best is None:
        expect_eq(got, '<unknown>', 'no device is known')
        cover('no device')
    else:
        expect_eq(got, best[1], 'the device of the directory')
        cover('device found')
