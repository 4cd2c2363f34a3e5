"""C42: tracing and signal handlers are fully undone."""
import signal
import sys
import threading
from verif import choose, expect, expect_eq, cover
from epsilon.spewer import SignalService, Spewer, Tracer

from anyval import Any

COVER = ('restored', 'restarted', 'default restored', 'two services', 'installed', 'uninstalled', 'toggled', 'two tracers',
         'empty map', 'skipped', 'handlers called')


def h1(signum, frame):
    pass


def h2(signum, frame):
    pass


def h3(signum, frame):
    pass


SIGS = (signal.SIGINT, signal.SIGHUP, signal.SIGUSR1)


def table():
    return [signal.getsignal(s) for s in SIGS + (signal.SIGTERM,)]


def same(a, b):
    return len(a) == len(b) and all([x is y for x, y in zip(a, b)])


def some_map(tag, handlers=(h1, h2)):
    m = {}
    for s in SIGS:
        h = choose((None,) + handlers, '%s %d' % (tag, s))
        if h is not None:
            m[s] = h
    return m


def check_service():
    """any handlers before, any map, started and stopped one or more times"""
    for s in SIGS:
        h = choose(('default', signal.SIG_IGN, h1), 'before %d' % s)
        if h != 'default':
            signal.signal(s, h)
        else:
            cover('default restored')
    before = table()
    m = some_map('map')
    if not m:
        cover('empty map')
    given = dict(m)
    svc = SignalService(m)
    expect(same(before, table()), 'nothing is handled before the start')
    for i in range(choose((1, 2), 'times')):
        svc.startService()
        expect(svc.running, 'running')
        want = [m.get(s, b) for s, b in zip(SIGS + (signal.SIGTERM,), before)]
        expect(same(want, table()), 'exactly the signals of the map are handled, as it says')
        svc.stopService()
        expect(not svc.running, 'stopped')
        expect(same(before, table()), 'every handler is as it was before the start')
        cover('restored' if i == 0 else 'restarted')
    expect(m == given, 'the map is left alone')
    expect(sys.gettrace() is None and threading.gettrace() is None, 'nothing else changed')


def check_changed_between():
    """what is in place before the second start is what the second stop restores"""
    svc = SignalService({signal.SIGHUP: h1})
    svc.startService()
    svc.stopService()
    other = choose((h2, signal.SIG_IGN, signal.SIG_DFL), 'changed to')
    signal.signal(signal.SIGHUP, other)
    svc.startService()
    expect(signal.getsignal(signal.SIGHUP) is h1, 'handled')
    svc.stopService()
    expect(signal.getsignal(signal.SIGHUP) is other, 'restored to what was there')


def check_map_changed():
    """whatever becomes of the map while the service runs, what it changed is undone"""
    before = table()
    m = {signal.SIGHUP: h1}
    svc = SignalService(m)
    svc.startService()
    what = choose(('removed', 'added', 'replaced', 'other map'), 'change')
    if what == 'removed':
        del m[signal.SIGHUP]
    elif what == 'added':
        m[signal.SIGTERM] = h2
    elif what == 'replaced':
        m[signal.SIGHUP] = h2
    else:
        svc.sigmap = {signal.SIGTERM: h2}
    svc.stopService()
    expect(same(before, table()), 'every handler is as it was before the start')


def check_two_services():
    """nested services undo each their own"""
    before = table()
    a, b = SignalService(some_map('a', (h1,))), SignalService(some_map('b', (h2,)))
    a.startService()
    between = table()
    b.startService()
    b.stopService()
    expect(same(between, table()), 'the inner one is undone')
    a.stopService()
    expect(same(before, table()), 'the outer one is undone')
    cover('two services')


def traced(t):
    return sys.gettrace() is not None and threading.gettrace() is not None


def untraced():
    return sys.gettrace() is None and threading.gettrace() is None


class Frame(object):
    def __init__(self, n):
        self.f_locals = {}
        self.n = n


class Recorder(Tracer):
    def __init__(self, answer=None):
        self.seen = []
        self.answer = answer

    def trace_CALL(self, frame, arg):
        self.seen.append(('call', frame, arg))
        return self.answer

    def trace_RETURN(self, frame, arg):
        self.seen.append(('return', frame, arg))


def check_tracer():
    """any sequence of install, uninstall and toggle"""
    t = choose((Tracer, Spewer, Recorder), 'class')()
    before = table()
    on = False
    for i in range(4):
        op = choose(('install', 'uninstall', 'toggle', 'end'), 'step %d' % i)
        if op == 'end':
            break
        getattr(t, op)()
        if op == 'toggle':
            cover('toggled')
        on = op == 'install' or (op == 'toggle' and not on)
        if on:
            expect(traced(t), 'traced here and in later threads')
            expect(sys.gettrace() == t.trace and threading.gettrace() == t.trace, 'by this tracer')
            cover('installed')
        else:
            expect(untraced(), 'removed here and from later threads')
            cover('uninstalled')
        expect(bool(t.installed) == on, 'it knows')
    expect(same(before, table()), 'no signal handler changed')


def check_two_tracers():
    """one tracer knows nothing of the state of another"""
    a, b = Recorder(), Recorder()
    a.toggle()
    expect(sys.gettrace() == a.trace, 'a is on')
    b.toggle()
    expect(sys.gettrace() == b.trace and threading.gettrace() == b.trace, 'b is on')
    b.toggle()
    expect(untraced(), 'b is off')
    a.toggle()
    expect(untraced(), 'a is off')
    cover('two tracers')


class Chatty(Recorder):
    """answers every event"""

    def trace_LINE(self, frame, arg):
        self.seen.append(('line', frame, arg))
        return self.answer

    def trace_RETURN(self, frame, arg):
        self.seen.append(('return', frame, arg))
        return self.answer

    def trace_EXCEPTION(self, frame, arg):
        self.seen.append(('exception', frame, arg))
        return self.answer


def check_every_event():
    t = Chatty()
    other = Local()
    event = choose(('call', 'line', 'return', 'exception'), 'event')
    answer = choose((None, 'skip', other), 'answer')
    t.answer = Tracer.skip if answer == 'skip' else answer
    f, arg = Frame(1), object()
    r = t.trace(f, event, arg)
    expect(len(t.seen) == 1 and t.seen[0] == (event, f, arg), 'the method of the event is called')
    if answer is None:
        expect(r == t.trace, 'tracing goes on')
    elif answer is other:
        expect(r is other, 'as the method says')
    else:
        expect(r is None, 'the frame is not traced further')


def check_lost():
    """installing means tracing, even if something else stopped it meanwhile"""
    t = Recorder()
    t.install()
    if choose(2, 'replaced'):
        Recorder().install()
    else:
        sys.settrace(None)
        threading.settrace(None)
    t.install()
    expect(sys.gettrace() == t.trace and threading.gettrace() == t.trace, 'installed')
    t.uninstall()
    expect(untraced(), 'removed')


class Local(Any):
    def __call__(self, frame, event, arg):
        return None


def check_events():
    """events reach the method of their kind; skip ends tracing of the frame"""
    t = Recorder()
    other = Local()
    t.answer = choose((None, 'skip', other), 'answer')
    if t.answer == 'skip':
        t.answer = Tracer.skip
    f, arg = Frame(1), choose((None, 0, 'x'), 'argument')
    r = t.trace(f, 'call', arg)
    expect(len(t.seen) == 1 and t.seen[0][0] == 'call' and t.seen[0][1] is f and t.seen[0][2] is arg, 'the method of calls is called')
    if t.answer is None:
        expect(r == t.trace, 'tracing goes on')
    elif t.answer is other:
        expect(r is other, 'as the method says')
    else:
        expect(r is None, 'the frame is not traced further')
        cover('skipped')
    t.trace(f, 'return', 5)
    expect(t.seen[1:] == [('return', f, 5)], 'the method of returns is called')
    expect(t.trace(f, 'line', None) == t.trace and t.trace(f, 'exception', None) == t.trace, 'others are ignored by default')
    cover('handlers called')
