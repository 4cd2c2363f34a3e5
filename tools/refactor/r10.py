CO='cooperator.py';RE='react.py';PR='process.py';SH='setuphelper.py';SP='spewer.py';CC='scripts/certcreate.py';B='scripts/benchmark.py';H='hotfix.py'
R=[
('co-prop',[(CO,"    def addIterator(self, iterator):\n        return self.coop.coiterate(iterator)","    def addIterator(self, iterator):\n        coop = self.coop\n        done = coop.coiterate(iterator)\n        return done"),(CO,"        self.coop.stop()\n        return Service.stopService(self)","        try:\n            self.coop.stop()\n        finally:\n            result = Service.stopService(self)\n        return result")]),
('co-super',[(CO,"        Service.startService(self)\n","        super(SchedulingService, self).startService()\n")]),
('re-class',[(RE,"""    stopping = []
    reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
    finished = main(reactor, *argv)
    finished.addErrback(err, "main function encountered error")
    def cbFinish(ignored):
        if not stopping:
            reactor.callWhenRunning(reactor.stop)
    finished.addCallback(cbFinish)
    reactor.run()""","""    runner = _Runner(reactor)
    finished = main(reactor, *argv)
    finished.addErrback(err, "main function encountered error")
    finished.addCallback(runner.finish)
    reactor.run()"""),(RE,"def react(reactor","""class _Runner(object):
    stopping = False

    def __init__(self, reactor):
        self.reactor = reactor
        reactor.addSystemEventTrigger('before', 'shutdown', self.shutdown)

    def shutdown(self):
        self.stopping = True

    def finish(self, ignored):
        if self.stopping:
            return
        self.reactor.callWhenRunning(self.reactor.stop)


def react(reactor""")]),
('re-nonlocal',[(RE,"""    stopping = []
    reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
""","""    stopping = False
    def shutdown():
        nonlocal stopping
        stopping = True
    reactor.addSystemEventTrigger('before', 'shutdown', shutdown)
""")]),
('re-both',[(RE,"""    finished.addErrback(err, "main function encountered error")
    def cbFinish(ignored):
        if not stopping:
            reactor.callWhenRunning(reactor.stop)
    finished.addCallback(cbFinish)
""","""    def cbFinish(result):
        if isinstance(result, Failure):
            err(result, "main function encountered error")
        if not stopping:
            reactor.callWhenRunning(reactor.stop)
    finished.addBoth(cbFinish)
"""),(RE,"from twisted.python.log import err\n","from twisted.python.log import err\nfrom twisted.python.failure import Failure\n")]),
('pr-helper',[(PR,"""    env = env.copy()

    pythonpath = []
    for pkg in packages:
        p = os.path.split(_findModule(pkg))[0]
        if p.startswith(os.path.join(sys.prefix, 'lib')):
            continue
        pythonpath.append(p)
    pythonpath = list(set(pythonpath))
    pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
    env['PYTHONPATH'] = os.pathsep.join(pythonpath)
""","""    env = dict(env)
    env['PYTHONPATH'] = os.pathsep.join(
        sorted(_packagePaths(packages))
        + env.get('PYTHONPATH', '').split(os.pathsep))
"""),(PR,"def spawnProcess(","""def _packagePaths(packages):
    lib = os.path.join(sys.prefix, 'lib')
    return {p for p in (os.path.dirname(_findModule(pkg)) for pkg in packages)
            if not p.startswith(lib)}


def spawnProcess(""")]),
('pr-kw',[(PR,"""    return spawnProcess(processProtocol, sys.executable,
                        args, env, path, uid, gid, usePTY,
                        packages)""","""    return spawnProcess(processProtocol, sys.executable, args=args, env=env,
                        path=path, uid=uid, gid=gid, usePTY=usePTY,
                        packages=packages)""")]),
('sh-gen',[(SH,"""        for (dirpath, dirnames, filenames) in os.walk(package):
            dirnames[:] = [p for p in dirnames if not p.startswith('.')]
            for filename in filenames:
                if filename == 'dropin.cache':
                    continue
                if (os.path.splitext(filename)[1] not in ('.py', '.pyc', '.pyo')
                    or '__init__.py' not in filenames):
                    D.append(os.path.join(dirpath[len(package)+1:], filename))
""","""        D.extend(_dataFiles(package))
"""),(SH,"def autosetup(**kw):","""def _visibleWalk(top):
    for (dirpath, dirnames, filenames) in os.walk(top):
        dirnames[:] = [p for p in dirnames if p[:1] != '.']
        yield dirpath, dirnames, filenames


def _dataFiles(package):
    prefix = len(package) + 1
    for (dirpath, dirnames, filenames) in _visibleWalk(package):
        isPackage = '__init__.py' in filenames
        for filename in filenames:
            if filename == 'dropin.cache':
                continue
            if isPackage and filename.endswith(('.py', '.pyc', '.pyo')) \\
                    and os.path.splitext(filename)[1]:
                continue
            yield os.path.join(dirpath[prefix:], filename)


def autosetup(**kw):""")]),
('sh-fwd',[(SH,"""        pkgName = dirpath[2:].replace('/', '.')
        if '__init__.py' in filenames:
            # The current directory is a Python package
            packages.append(pkgName)
        elif 'plugins' in dirnames:
            # The current directory is for the Twisted plugin system
            pluginPackages.append(pkgName)
            packages.append(pkgName)
""","""        pkgName = '.'.join(dirpath[2:].split('/'))
        isPackage = '__init__.py' in filenames
        isPluginDirectory = not isPackage and 'plugins' in dirnames
        if isPluginDirectory:
            pluginPackages.append(pkgName)
        if isPackage or isPluginDirectory:
            packages.append(pkgName)
""")]),
('sp-dict',[(SP,"""    n = co.co_argcount + getattr(co, 'co_kwonlyargcount', 0)
    if co.co_flags & 4: n = n+1
    if co.co_flags & 8: n = n+1
    result = {}
    for i in range(n):
        name = co.co_varnames[i]
        result[name] = dict.get(name, "*** undefined ***")
    return result""","""    n = co.co_argcount + getattr(co, 'co_kwonlyargcount', 0)
    n += bool(co.co_flags & 0x4) + bool(co.co_flags & 0x8)
    return {name: dict.get(name, "*** undefined ***")
            for name in co.co_varnames[:n]}""")]),
('sp-disp',[(SP,"""        r = getattr(self, 'trace_' + event.upper())(frame, arg)
        if r is self.skip:
            return None
        elif r is None:
            return self.trace
        else:
            return r""","""        handler = getattr(self, 'trace_%s' % (event.upper(),))
        r = handler(frame, arg)
        if r is None:
            return self.trace
        return None if r is self.skip else r""")]),
('sp-print',[(SP,"""        print ("%X %s<= %s" % (
                id(threading.currentThread()),
                self.callDepth * ' ',
                reflect.safe_repr(arg),))""","""        self._show('<= ' + reflect.safe_repr(arg))"""),(SP,"""        print ("%X %s^- %s" % (
            id(threading.currentThread()),
            self.callDepth * ' ',
            reflect.safe_repr(arg),))""","""        self._show('^- ' + reflect.safe_repr(arg))"""),(SP,"    callDepth = 0\n","""    callDepth = 0

    def _show(self, text):
        print("%X %s%s" % (
            id(threading.current_thread()), ' ' * self.callDepth, text))

""")]),
('sp-sig',[(SP,"""        self.oldsigmap = {}
        for sig, handler in self.sigmap.items():
            self.oldsigmap[sig] = signal.signal(sig, handler)
""","""        self.oldsigmap = dict([
            (sig, signal.signal(sig, handler))
            for sig, handler in self.sigmap.items()])
"""),(SP,"""        for sig, handler in self.oldsigmap.items():
            signal.signal(sig, handler)
        del self.oldsigmap
""","""        previous = self.__dict__.pop('oldsigmap')
        for sig in previous:
            signal.signal(sig, previous[sig])
""")]),
('cc-comp',[(CC,"""    sslopt = {}
    for x, y in (('country','C'),
                 ('state', 'ST'),
                 ('city', 'L'),
                 ('organization', 'O'),
                 ('unit', 'OU'),
                 ('hostname', 'CN'),
                 ('email','emailAddress')):
        sslopt[y] = opts[x]
""","""    sslopt = {field: opts[option] for option, field in _FIELDS.items()}
"""),(CC,"def createSSLCertificate(opts):","""_FIELDS = {
    'country': 'C',
    'state': 'ST',
    'city': 'L',
    'organization': 'O',
    'unit': 'OU',
    'hostname': 'CN',
    'email': 'emailAddress',
}


def createSSLCertificate(opts):"""),(CC,"    with open(opts['filename'], 'wb') as f:\n        f.write(ssc.dumpPEM())\n","    pem = ssc.dumpPEM()\n    f = open(opts['filename'], 'wb')\n    try:\n        f.write(pem)\n    finally:\n        f.close()\n")]),
('b-fmt',[(B,"""        if before.partition is not None and after.partition is not None:
            read_count = after.partition.readCount - before.partition.readCount
            read_sectors = after.partition.readSectorCount - before.partition.readSectorCount
            write_count = after.partition.writeCount - before.partition.writeCount
            write_sectors = after.partition.writeSectorCount - before.partition.writeSectorCount
        else:
            read_count = None
            read_sectors = None
            write_count = None
            write_sectors = None
        if before.disk is not None and after.disk is not None:
            read_ms = after.disk.readMilliseconds - before.disk.readMilliseconds
            write_ms = after.disk.writeMilliseconds - before.disk.writeMilliseconds
        else:
            read_ms = None
            write_ms = None
""","""        read_count, read_sectors, write_count, write_sectors = _differences(
            before.partition, after.partition,
            ['readCount', 'readSectorCount', 'writeCount', 'writeSectorCount'])
        read_ms, write_ms = _differences(
            before.disk, after.disk, ['readMilliseconds', 'writeMilliseconds'])
"""),(B,"def formatResults(","""def _differences(before, after, names):
    if before is None or after is None:
        return [None] * len(names)
    return [getattr(after, name) - getattr(before, name) for name in names]


def formatResults(""")]),
('b-ended',[(B,"""        if reason.check(error.ProcessDone):
            d.callback((self, reason.value.status, o))
        elif self.timedOut:
            d.errback(error.TimeoutError())
        elif reason.check(error.ProcessTerminated):
            d.errback(failure.Failure(ProcessDied(
                reason.value.exitCode,
                reason.value.signal,
                reason.value.status, o)))
        else:
            d.errback(reason.value)
        self.setTimeout(None)
""","""        self.setTimeout(None)
        value = reason.value
        if isinstance(value, error.ProcessDone):
            d.callback((self, value.status, o))
            return
        if self.timedOut:
            problem = error.TimeoutError()
        elif isinstance(value, error.ProcessTerminated):
            problem = ProcessDied(value.exitCode, value.signal, value.status, o)
        else:
            problem = value
        d.errback(failure.Failure(problem))
""")]),
('b-child',[(B,"""        if childFD == self.BACKCHANNEL_OUT:
            self.resetTimeout()
            for byte in six.iterbytes(data):
                byte = six.int2byte(byte)
                if byte == self.START:
                    self.startTiming()
                elif byte == self.STOP:
                    self.stopTiming()
                else:
                    self.transport.signalProcess('QUIT')
        else:
            return BasicProcess.childDataReceived(self, childFD, data)
""","""        if childFD != self.BACKCHANNEL_OUT:
            return BasicProcess.childDataReceived(self, childFD, data)
        self.resetTimeout()
        actions = {self.START: self.startTiming, self.STOP: self.stopTiming}
        for i in range(len(data)):
            actions.get(data[i:i + 1], self._confused)()

    def _confused(self):
        self.transport.signalProcess('QUIT')
""")]),
('b-change',[(B,"""        endTime = time.time()
        afterDiskStats = captureStats()
        endSize = getSize(path)
        self.after = ResourceSnapshot(
            time=endTime,
            disk=afterDiskStats.get(disk, None),
            partition=afterDiskStats.get(partition, None),
            size=endSize)
""","""        endTime = time.time()
        self.after = self._snapshot(
            endTime, captureStats(), getSize(path), disk, partition)
"""),(B,"""        startSize = getSize(path)
        beforeDiskStats = captureStats()
        startTime = time.time()
        self.before = ResourceSnapshot(
            time=startTime,
            disk=beforeDiskStats.get(disk, None),
            partition=beforeDiskStats.get(partition, None),
            size=startSize)
""","""        size = getSize(path)
        stats = captureStats()
        self.before = self._snapshot(time.time(), stats, size, disk, partition)

    @staticmethod
    def _snapshot(when, stats, size, disk, partition):
        return ResourceSnapshot(when, stats.get(disk), stats.get(partition), size)
""")]),
('b-parse',[(B,"""    parts = L.split()
    device = parts[2]
    if len(parts) == 7:
        factory = partitionstat
    else:
        factory = diskstat
    return six.ensure_str(device), factory(*map(int, parts[3:14]))
""","""    fields = L.split()
    device, numbers = fields[2], fields[3:]
    if len(numbers) == 4:
        stat = partitionstat
    else:
        stat = diskstat
        numbers = numbers[:11]
    return six.ensure_str(device), stat(*[int(n) for n in numbers])
""")]),
('h-table',[(H,"""_alreadyInstalled = set()
""","""_alreadyInstalled = set()


def _lacksCallLater():
    from twisted.protocols import policies
    return not hasattr(policies.TimeoutMixin, 'callLater')

"""),(H,"""        from twisted.protocols import policies
        if not hasattr(policies.TimeoutMixin, 'callLater'):
            from epsilon.hotfixes""","""        if _lacksCallLater():
            from epsilon.hotfixes""")]),
('h-key',[(H,"""    if (packageName, fixName) in _alreadyInstalled:
        return
""","""    wanted = packageName, fixName
    if wanted in _alreadyInstalled:
        return None
"""),(H,"    _alreadyInstalled.add((packageName, fixName))","    _alreadyInstalled.add(wanted)")]),
]
