"""C43: benchmark statistics are read and reported without loss."""
import errno
import os
import sys
from verif import sym_int, sym_str, choose, expect, expect_eq, cover
from twisted.python.filepath import FilePath
from epsilon import juice
from epsilon.scripts import benchmark

COVER = ('disk', 'partition', 'file', 'captured', 'reported', 'no disk', 'no partition', 'appeared', 'size', 'dangling', 'error',
         'vanished', 'appended')
DISK = ('readCount mergedReadCount readSectorCount readMilliseconds writeCount mergedWriteCount writeSectorCount '
        'writeMilliseconds outstandingIOCount ioMilliseconds weightedIOMilliseconds').split()
PART = 'readCount readSectorCount writeCount writeSectorCount'.split()


def line(dev, vals, tag):
    gap = choose((b' ', b'   '), 'blanks ' + tag)
    end = choose((b'\n', b'', b' \n'), 'end ' + tag)
    return b'   8' + gap + b'12' + gap + dev + b' ' + b' '.join([b'%d' % v for v in vals]) + end


def same(rec, names, vals):
    for n, v in zip(names, vals):
        expect_eq(getattr(rec, n), v, n)
    expect(set(vars(rec)) == set(names), 'nothing else')


def check_line():
    n, names = choose(((4, PART), (11, DISK), (15, DISK), (17, DISK)), 'fields')
    vals = [sym_int('v%d' % i, 0) for i in range(n)]
    dev = choose((b'sda', b'hda1', b'dm-0', b'cciss/c0d0p1'), 'device')
    l = line(dev, vals, '')
    if choose(2, 'as text'):
        l = l.decode('ascii')
    d, rec = benchmark.parseDiskStatLine(l)
    expect_eq(d, dev.decode('ascii'), 'the device named')
    same(rec, names, vals)
    cover('partition' if names is PART else 'disk')


def check_file():
    a = [sym_int('a%d' % i, 0) for i in range(11)]
    b = [sym_int('b%d' % i, 0) for i in range(4)]
    ls = [line(b'sda', a, 'a'), line(b'sda1', b, 'b')]
    r = list(benchmark.parseDiskStats(ls))
    expect_eq([x[0] for x in r], ['sda', 'sda1'], 'every line in order')
    same(r[0][1], DISK, a)
    same(r[1][1], PART, b)
    expect_eq(list(benchmark.parseDiskStats([])), [], 'no line')
    cover('file')


def check_capture():
    a = [sym_int('a%d' % i, 0) for i in range(11)]
    b = [sym_int('b%d' % i, 0) for i in range(4)]
    ls = [b'  8  0 sda ' + b' '.join([b'%d' % v for v in a]) + b'\n', b'  8  1 sda1 ' + b' '.join([b'%d' % v for v in b]) + b'\n']
    os.fs['/proc/diskstats'] = ('lines', ls)
    r = benchmark.captureStats()
    expect_eq(sorted(r), ['sda', 'sda1'], 'every device')
    same(r['sda'], DISK, a)
    same(r['sda1'], PART, b)
    cover('captured')


def snap(tag, disk, part):
    return benchmark.ResourceSnapshot(
        time=sym_int('time ' + tag), size=sym_int('size ' + tag),
        disk=benchmark.diskstat(*[sym_int('%s disk %s' % (tag, n), 0) for n in DISK]) if disk else None,
        partition=(benchmark.diskstat(*[sym_int('%s part %s' % (tag, n), 0) for n in DISK]) if part == 'disk' else
                   benchmark.partitionstat(*[sym_int('%s part %s' % (tag, n), 0) for n in PART]) if part else None))


def check_report():
    part = choose(('partition', 'disk', None), 'partition')
    disk = choose(2, 'disk')
    gone = choose(('', 'before', 'after'), 'not available')
    b = snap('before', disk and gone != 'before', part if gone != 'before' else None)
    a = snap('after', disk and gone != 'after', part if gone != 'after' else None)
    if gone:
        part = disk = None
        cover('appeared')
    name, size = sym_str('name', excl=('\r', '\n')), sym_int('sector', 1)
    err, timeout = choose(2, 'error') == 1, choose(2, 'timeout') == 1
    msgs = juice.parseString(benchmark.formatResults(name, size, b, a, err, timeout))
    expect(len(msgs) == 1, 'one result')
    m = msgs[0]
    want = {'_command': 'Result', 'version': '0', 'error': 'True' if err else 'False', 'timeout': 'True' if timeout else 'False',
            'name': name, 'host': 'testhost', 'sector_size': '%d' % size, 'elapsed': '%d' % (a.time - b.time),
            'filesystem_growth': '%d' % (a.size - b.size), 'python_version': str(sys.hexversion)}
    if part:
        x, y = a.partition, b.partition
        want.update({'read_count': '%d' % (x.readCount - y.readCount), 'read_sectors': '%d' % (x.readSectorCount - y.readSectorCount),
                     'write_count': '%d' % (x.writeCount - y.writeCount),
                     'write_sectors': '%d' % (x.writeSectorCount - y.writeSectorCount)})
    else:
        cover('no partition')
    if disk:
        x, y = a.disk, b.disk
        want.update({'read_ms': '%d' % (x.readMilliseconds - y.readMilliseconds),
                     'write_ms': '%d' % (x.writeMilliseconds - y.writeMilliseconds)})
    else:
        cover('no disk')
    for k in want:
        expect(k in m, 'reported: ' + k)
        expect_eq(m[k], want[k], k)
    expect_eq(sorted(m), sorted(list(want) + ['twisted_version', 'divmod_version']), 'only what is available')
    cover('reported')


def check_size():
    n = [choose((0, 3), 'size %d' % i) for i in range(2)]
    os.fs.update({'/b': ('dir',), '/b/f': ('file', b'x' * n[0]), '/b/d': ('dir',), '/b/d/g': ('file', b'y' * n[1]),
                  '/outside': ('file', b'z' * 50)})
    total = 4096 * 2 + sum(n)
    kind = choose(('plain', 'dangling', 'error'), 'kind')
    where = choose(('/b/l', '/b/d/l'), 'where')
    if kind == 'dangling':
        target = choose(('nowhere', 'x', '/b/none'), 'target')
        os.fs[where] = ('link', target)
        total += len(target)
        cover('dangling')
    elif kind == 'error':
        e = choose((errno.EACCES, errno.EIO, errno.ELOOP, errno.ENOTDIR), 'error')
        os.fs[where] = ('file', b'')
        os.errors[where] = OSError(e, 'broken')
        try:
            benchmark.getSize(FilePath('/b'))
        except OSError as x:
            expect(x.errno == e, 'the error of the file system')
        else:
            expect(False, 'a file system error is passed on')
        cover('error')
        return
    expect_eq(benchmark.getSize(FilePath('/b')), total, 'every file below the directory')
    expect_eq(benchmark.getSize(FilePath('/b/f')), n[0], 'of a file')
    cover('size')


class Gone(FilePath):
    """a file removed after it was listed"""

    def getsize(self):
        raise OSError(errno.ENOENT, 'gone', self.path)


def check_vanished():
    try:
        benchmark.getOneSize(Gone('/work/gone'))
    except OSError as e:
        expect(e.errno == errno.ENOENT, 'passed on')
        cover('vanished')
    else:
        expect(False, 'a file that vanished has no size')


def check_append():
    """results are added to the output file"""
    old = choose((None, b'old'), 'existing')
    if old is not None:
        os.fs['/work/output'] = ('file', old)
    benchmark.reportResults(b'one')
    benchmark.reportResults(b'two')
    expect_eq(os.fs['/work/output'][1], (old or b'') + b'onetwo', 'all results are kept')
    cover('appended')
