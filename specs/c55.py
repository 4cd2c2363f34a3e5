"""C55: scheduled work runs while its service runs, and its end is reported once."""
from verif import choose, expect, expect_eq, cover
from twisted.internet import reactor
from twisted.internet.defer import Deferred
from epsilon import cooperator
from epsilon.cooperator import SchedulingService, SchedulerStopped, iterateInReactor

COVER = ('before start', 'done', 'stopped', 'after stop', 'restarted', 'failed', 'two services', 'global', 'two iterators', 'waits')


class Work(object):
    """an iterator of n steps"""

    def __init__(self, n, error=None, wait=None):
        self.n, self.error, self.wait = n, error, wait
        self.steps = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.steps == self.n:
            if self.error is not None:
                raise self.error
            raise StopIteration()
        self.steps += 1
        return self.wait

    next = __next__


class Outcome(object):
    def __init__(self, d):
        self.got = []
        d.addCallbacks(lambda r: self.got.append(('ok', r)), lambda f: self.got.append(('bad', f.value)))


def pump(n=8):
    for i in range(n):
        reactor.clock.advance(1)


def check_life():
    """any history of adding, starting and stopping"""
    s = SchedulingService()
    expect(not s.running, 'not running yet')
    running = stopped = False
    work = []
    for i in range(choose((2, 3, 4), 'length')):
        what = choose(('add', 'toggle', 'pump'), 'event %d' % i)
        if what == 'add':
            w = Work(choose((0, 2), 'steps'), choose((None, ValueError('x')), 'error'))
            o = Outcome(s.addIterator(w))
            work.append((w, o))
            if stopped:
                expect(len(o.got) == 1 and isinstance(o.got[0][1], SchedulerStopped) and w.steps == 0, 'refused at once')
                cover('after stop')
            else:
                expect(w.steps == 0 and o.got == [], 'worked on later')
        elif what == 'toggle':
            before = [(w.steps, len(o.got)) for w, o in work]
            if running:
                s.stopService()
                for (w, o), (steps, n) in zip(work, before):
                    expect(len(o.got) == 1 and w.steps == steps, 'unfinished work ends without another step')
                    if n == 0:
                        expect(isinstance(o.got[0][1], SchedulerStopped), 'as stopped')
                        cover('stopped')
                stopped = True
            else:
                if stopped:
                    cover('restarted')
                s.startService()
                stopped = False
            running = not running
        else:
            before = [(w.steps, len(o.got)) for w, o in work]
            pump()
            for (w, o), (steps, n) in zip(work, before):
                if not running:
                    expect(w.steps == steps and len(o.got) == n, 'no work while the service does not run')
                    cover('before start')
                else:
                    expect(len(o.got) == 1, 'its end is reported once')
                    if n == 0:
                        expect(w.steps == w.n, 'all its work is done')
                        if w.error is None:
                            expect(o.got[0] == ('ok', w), 'with the iterator')
                            cover('done')
                        else:
                            expect(o.got[0] == ('bad', w.error), 'with its error')
                            cover('failed')
        expect(bool(s.running) is running, 'the service says whether it runs')


def check_two():
    """iterators and services do not disturb each other"""
    a, b = SchedulingService(), SchedulingService()
    a.startService()
    x, y, z = Work(2), Work(1, choose((None, ValueError()), 'error')), Work(1)
    ox, oy, oz = Outcome(a.addIterator(x)), Outcome(a.addIterator(y)), Outcome(b.addIterator(z))
    pump()
    expect(len(ox.got) == 1 and ox.got[0] == ('ok', x) and len(oy.got) == 1, 'both are done')
    cover('two iterators')
    expect(z.steps == 0 and oz.got == [], 'the other service has not been started')
    a.stopService()
    expect(oz.got == [], 'nor stopped')
    b.startService()
    pump()
    expect(oz.got == [('ok', z)], 'its own work is done')
    cover('two services')


def check_waiting():
    """work that waits for a result goes on when it has come"""
    s = SchedulingService()
    s.startService()
    d = Deferred()
    w = Work(1, None, d)
    o = Outcome(s.addIterator(w))
    pump()
    expect(w.steps == 1 and o.got == [], 'it waits')
    d.callback(None)
    pump()
    expect(o.got == [('ok', w)], 'it goes on')
    cover('waits')


def check_global():
    """iterating in the reactor needs no service"""
    w = Work(choose((0, 1, 3), 'steps'), choose((None, ValueError('x')), 'error'))
    d = iterateInReactor(w, choose((None, 3), 'delay')) if choose(2, 'delay given') else iterateInReactor(w)
    o = Outcome(d)
    s = SchedulingService()
    s.startService()
    s.stopService()
    pump()
    expect(len(o.got) == 1 and w.steps == w.n, 'all its work is done, its end reported once')
    expect(o.got[0] == (('ok', w) if w.error is None else ('bad', w.error)), 'with the iterator or its error')
    cover('global')
