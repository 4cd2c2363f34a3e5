SP='spewer.py'; PR='process.py'; SH='setuphelper.py'; CC='scripts/certcreate.py'; B='scripts/benchmark.py'; CO='cooperator.py'; AS='asplode.py'
R=[
('sp-trace',[(SP,"""        if r is self.skip:
            return None
        elif r is None:
            return self.trace
        else:
            return r
""","""        if r is None:
            return self.trace
        return None if r is self.skip else r
""")]),
('sp-toggle',[(SP,"""        if self.installed:
            self.uninstall()
        else:
            self.install()
""","""        change = self.uninstall if self.installed else self.install
        change()
""")]),
('sp-inst',[(SP,"""        self.installed = True
        sys.settrace(self.trace)
        threading.settrace(self.trace)
""","""        self._use(self.trace)
"""),(SP,"""        self.installed = False
        sys.settrace(None)
        threading.settrace(None)
""","""        self._use(None)

    def _use(self, function):
        self.installed = function is not None
        for settrace in (sys.settrace, threading.settrace):
            settrace(function)
""")]),
('sp-args',[(SP,"""    if co.co_flags & 4: n = n+1
    if co.co_flags & 8: n = n+1
    result = {}
    for i in range(n):
        name = co.co_varnames[i]
        result[name] = dict.get(name, "*** undefined ***")
    return result
""","""    n += bool(co.co_flags & inspect.CO_VARARGS)
    n += bool(co.co_flags & inspect.CO_VARKEYWORDS)
    return {
        name: dict.get(name, "*** undefined ***")
        for name in co.co_varnames[:n]}
"""),(SP,"import sys\n","import inspect\nimport sys\n")]),
('sp-fmt',[(SP,"""    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.items()])
""","""    formatted = []
    for k in args:
        formatted.append('%s=%s' % (k, reflect.safe_repr(args[k])))
    return ', '.join(formatted)
""")]),
('sp-call',[(SP,"""        if frameSelf is not None:
            if hasattr(frameSelf, '__class__'):
                k = reflect.qual(frameSelf.__class__)
            else:
                k = reflect.qual(type(frameSelf))
            k = k + '.'
        else:
            k = ''
""","""        k = ''
        if frameSelf is not None:
            cls = getattr(frameSelf, '__class__', type(frameSelf))
            k = reflect.qual(cls) + '.'
""")]),
('sp-depth',[(SP,"""        self.callDepth = max(0, self.callDepth - 1)
""","""        if self.callDepth > 0:
            self.callDepth -= 1
""")]),
('sp-sig',[(SP,"""        self.oldsigmap = {}
        for sig, handler in self.sigmap.items():
            self.oldsigmap[sig] = signal.signal(sig, handler)
""","""        self.oldsigmap = old = {}
        for sig in list(self.sigmap):
            old[sig] = signal.signal(sig, self.sigmap[sig])
"""),(SP,"""        for sig, handler in self.oldsigmap.items():
            signal.signal(sig, handler)
        del self.oldsigmap
""","""        old = self.oldsigmap
        for sig in old:
            signal.signal(sig, old[sig])
        del self.oldsigmap
""")]),
('pr-comp',[(PR,"""    pythonpath = []
    for pkg in packages:
        p = os.path.split(_findModule(pkg))[0]
        if p.startswith(os.path.join(sys.prefix, 'lib')):
            continue
        pythonpath.append(p)
    pythonpath = list(set(pythonpath))
    pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
    env['PYTHONPATH'] = os.pathsep.join(pythonpath)
""","""    standard = os.path.join(sys.prefix, 'lib')
    directories = [os.path.dirname(_findModule(pkg)) for pkg in packages]
    pythonpath = set(p for p in directories if not p.startswith(standard))
    env['PYTHONPATH'] = os.pathsep.join(
        list(pythonpath) + [env.get('PYTHONPATH', '')])
""")]),
('pr-dedup',[(PR,"""        pythonpath.append(p)
    pythonpath = list(set(pythonpath))
""","""        if p not in pythonpath:
            pythonpath.append(p)
""")]),
('pr-env',[(PR,"""    env = env.copy()
""","""    env = dict(env)
""")]),
('pr-kw',[(PR,"""    return reactor.spawnProcess(processProtocol, executable, args,
                                env, path, uid, gid, usePTY)
""","""    return reactor.spawnProcess(
        processProtocol, executable, args, env=env, path=path, uid=uid,
        gid=gid, usePTY=usePTY)
"""),(PR,"""    return spawnProcess(processProtocol, sys.executable,
                        args, env, path, uid, gid, usePTY,
                        packages)
""","""    return spawnProcess(
        processProtocol, executable=sys.executable, args=args, env=env,
        path=path, uid=uid, gid=gid, usePTY=usePTY, packages=packages)
""")]),
('pr-find',[(PR,"""    if spec.submodule_search_locations:
        return list(spec.submodule_search_locations)[0]
    return spec.origin
""","""    for location in spec.submodule_search_locations or ():
        return location
    return spec.origin
""")]),
('sh-plug',[(SH,"""        try:
            yield namedAny(moduleName)
        except ImportError:
            pass
        except ValueError as ve:
            if ve.args[0] != 'Empty module name':
                traceback.print_exc()
        except:
            traceback.print_exc()
""","""        try:
            module = namedAny(moduleName)
        except ImportError:
            continue
        except ValueError as ve:
            if ve.args[0] != 'Empty module name':
                traceback.print_exc()
            continue
        except:
            traceback.print_exc()
            continue
        yield module
""")]),
('sh-walk',[(SH,"""        dirnames[:] = [p for p in dirnames if not p.startswith('.')]
        if dirpath == os.curdir:
            # Only directories below it can be packages
            continue
        pkgName = dirpath[2:].replace('/', '.')
        if '__init__.py' in filenames:
            # The current directory is a Python package
            packages.append(pkgName)
        elif 'plugins' in dirnames:
            # The current directory is for the Twisted plugin system
            pluginPackages.append(pkgName)
            packages.append(pkgName)
""","""        for hidden in [p for p in dirnames if p.startswith('.')]:
            dirnames.remove(hidden)
        if dirpath == os.curdir:
            # Only directories below it can be packages
            continue
        pkgName = '.'.join(dirpath.split('/')[1:])
        isPackage = '__init__.py' in filenames
        isPluginPackage = not isPackage and 'plugins' in dirnames
        if isPluginPackage:
            # The current directory is for the Twisted plugin system
            pluginPackages.append(pkgName)
        if isPackage or isPluginPackage:
            packages.append(pkgName)
""")]),
('sh-data',[(SH,"""            for filename in filenames:
                if filename == 'dropin.cache':
                    continue
                if (os.path.splitext(filename)[1] not in ('.py', '.pyc', '.pyo')
                    or '__init__.py' not in filenames):
                    D.append(os.path.join(dirpath[len(package)+1:], filename))
""","""            python = ()
            if '__init__.py' in filenames:
                python = ('.py', '.pyc', '.pyo')
            relative = dirpath[len(package)+1:]
            D.extend([
                os.path.join(relative, filename) for filename in filenames
                if filename != 'dropin.cache'
                and os.path.splitext(filename)[1] not in python])
""")]),
('sh-data-ends',[(SH,"""                if (os.path.splitext(filename)[1] not in ('.py', '.pyc', '.pyo')
                    or '__init__.py' not in filenames):
                    D.append(os.path.join(dirpath[len(package)+1:], filename))
""","""                base, extension = os.path.splitext(filename)
                if '__init__.py' in filenames and extension in ('.py', '.pyc', '.pyo'):
                    continue
                path = os.path.join(dirpath, filename)
                D.append(path[len(package)+1:])
""")]),
('sh-data-rel',[(SH,"os.path.join(dirpath[len(package)+1:], filename)","os.path.relpath(os.path.join(dirpath, filename), package)")]),
('sh-top',[(SH,"""    for package in packages:
        if '.' in package:
            continue
        D = datafiles[package] = []
""","""    topLevel = [package for package in packages if '.' not in package]
    for package in topLevel:
        D = []
        datafiles[package] = D
""")]),
('cc-dict',[(CC,"""    sslopt = {}
    for x, y in (('country','C'),
                 ('state', 'ST'),
                 ('city', 'L'),
                 ('organization', 'O'),
                 ('unit', 'OU'),
                 ('hostname', 'CN'),
                 ('email','emailAddress')):
        sslopt[y] = opts[x]
    serialNumber = int(opts['serial-number'])
    ssc = KeyPair.generate().selfSignedCert(serialNumber, **sslopt)
""","""    key = KeyPair.generate()
    ssc = key.selfSignedCert(
        int(opts['serial-number']),
        C=opts['country'],
        ST=opts['state'],
        L=opts['city'],
        O=opts['organization'],
        OU=opts['unit'],
        CN=opts['hostname'],
        emailAddress=opts['email'])
""")]),
('cc-write',[(CC,"""    with open(opts['filename'], 'wb') as f:
        f.write(ssc.dumpPEM())
""","""    pem = ssc.dumpPEM()
    f = open(opts['filename'], 'wb')
    try:
        f.write(pem)
    finally:
        f.close()
""")]),
('cc-main',[(CC,"""    o = Options()
    try:
        o.parseOptions(args)
    except usage.UsageError as e:
        raise SystemExit(str(e))
    else:
        return createSSLCertificate(o)
""","""    opts = Options()
    try:
        opts.parseOptions(args)
    except usage.UsageError as e:
        sys.exit(str(e))
    return createSSLCertificate(opts)
""")]),
('cc-main2',[(CC,"""    if args is None:
        args = sys.argv[1:]

    o = Options()
    try:
        o.parseOptions(args)
""","""    o = Options()
    try:
        o.parseOptions(sys.argv[1:] if args is None else args)
""")]),
('bm-disk',[(B,"""    if len(parts) == 7:
        factory = partitionstat
    else:
        factory = diskstat
    return six.ensure_str(device), factory(*map(int, parts[3:14]))
""","""    factory = {7: partitionstat}.get(len(parts), diskstat)
    numbers = [int(part) for part in parts[3:14]]
    return six.ensure_str(device), factory(*numbers)
""")]),
('bm-disk-star',[(B,"""    for L in fObj:
        yield parseDiskStatLine(L)
""","""    return (parseDiskStatLine(L) for L in fObj)
""")]),
('bm-stats',[(B,"""    with io.open('/proc/diskstats', 'rb') as f:
        return dict(parseDiskStats(f))
""","""    stats = {}
    with io.open('/proc/diskstats', 'rb') as f:
        for device, stat in parseDiskStats(f):
            stats[device] = stat
    return stats
""")]),
('bm-ended',[(B,"""        d, self.whenFinished = self.whenFinished, None
        o, self.output = self.output, None
        if reason""","""        self.setTimeout(None)
        d = self.whenFinished
        o = self.output
        self.whenFinished = self.output = None
        if reason"""),(B,"""            d.errback(reason.value)
        self.setTimeout(None)
""","""            d.errback(reason.value)
""")]),
('bm-ended2',[(B,"""        if reason.check(error.ProcessDone):
            d.callback((self, reason.value.status, o))
        elif self.timedOut:
            d.errback(error.TimeoutError())
        elif reason.check(error.ProcessTerminated):
            d.errback(failure.Failure(ProcessDied(
                reason.value.exitCode,
                reason.value.signal,
                reason.value.status, o)))
        else:
            d.errback(reason.value)
        self""","""        value = reason.value
        if isinstance(value, error.ProcessDone):
            d.callback((self, value.status, o))
        else:
            if self.timedOut:
                value = error.TimeoutError()
            elif isinstance(value, error.ProcessTerminated):
                value = ProcessDied(
                    value.exitCode, value.signal, value.status, o)
            d.errback(value)
        self""")]),
('bm-spawn',[(B,"""        if spawnProcess is None:
            spawnProcess = reactor.spawnProcess
        spawnProcess(
            proto,
            executable,
            [executable] + args,
            path=path,
            env=env,
            childFDs={0: 'w', 1: 'r', 2: 'r',
                      cls.BACKCHANNEL_OUT: 'r',
                      cls.BACKCHANNEL_IN: 'w'})
        return d
""","""        childFDs = {0: 'w', 1: 'r', 2: 'r'}
        childFDs[cls.BACKCHANNEL_OUT] = 'r'
        childFDs[cls.BACKCHANNEL_IN] = 'w'
        (spawnProcess or reactor.spawnProcess)(
            proto, executable, [executable] + args, path=path, env=env,
            childFDs=childFDs)
        return d
""")]),
('bm-change',[(B,"""        startSize = getSize(path)
        beforeDiskStats = captureStats()
        startTime = time.time()
        self.before = ResourceSnapshot(
            time=startTime,
            disk=beforeDiskStats.get(disk, None),
            partition=beforeDiskStats.get(partition, None),
            size=startSize)
""","""        size = getSize(path)
        stats = captureStats()
        self.before = ResourceSnapshot(
            time.time(), stats.get(disk), stats.get(partition), size)
""")]),
('bm-byte',[(B,"""            for byte in six.iterbytes(data):
                byte = six.int2byte(byte)
                if byte == self.START:
                    self.startTiming()
                elif byte == self.STOP:
                    self.stopTiming()
                else:
                    self.transport.signalProcess('QUIT')
""","""            for i in range(len(data)):
                byte = data[i:i + 1]
                if byte == self.START:
                    self.startTiming()
                    continue
                if byte == self.STOP:
                    self.stopTiming()
                    continue
                self.transport.signalProcess('QUIT')
""")]),
('bm-early',[(B,"""        if childFD == self.BACKCHANNEL_OUT:
            self.resetTimeout()
            for""","""        if childFD != self.BACKCHANNEL_OUT:
            return super(BenchmarkProcess, self).childDataReceived(childFD, data)
        else:
            self.resetTimeout()
            for"""),(B,"""                    self.transport.signalProcess('QUIT')
        else:
            return BasicProcess.childDataReceived(self, childFD, data)
""","""                    self.transport.signalProcess('QUIT')
""")]),
('bm-fmt',[(B,"""        if before.partition is not None and after.partition is not None:
            read_count = after.partition.readCount - before.partition.readCount
            read_sectors = after.partition.readSectorCount - before.partition.readSectorCount
            write_count = after.partition.writeCount - before.partition.writeCount
            write_sectors = after.partition.writeSectorCount - before.partition.writeSectorCount
        else:
            read_count = None
            read_sectors = None
            write_count = None
            write_sectors = None

        if before.disk is not None and after.disk is not None:
            read_ms = after.disk.readMilliseconds - before.disk.readMilliseconds
            write_ms = after.disk.writeMilliseconds - before.disk.writeMilliseconds
        else:
            read_ms = None
            write_ms = None
""","""        def difference(a, b, name):
            if a is None or b is None:
                return None
            return getattr(a, name) - getattr(b, name)

        read_count, read_sectors, write_count, write_sectors = [
            difference(after.partition, before.partition, name)
            for name in ('readCount', 'readSectorCount',
                         'writeCount', 'writeSectorCount')]
        read_ms = difference(after.disk, before.disk, 'readMilliseconds')
        write_ms = difference(after.disk, before.disk, 'writeMilliseconds')
""")]),
('bm-mount',[(B,"""    possibilities = []
    cwd = os.getcwd()
    with io.open(procMounts, 'r') as f:
        for L in f:
            parts = L.split()
            mountPoint = parts[1].rstrip('/') + '/'
            if (cwd.rstrip('/') + '/').startswith(mountPoint):
                possibilities.append((len(parts[1]), parts[0]))
    # The most specific mount point wins, and of several filesystems mounted
    # there the last one, which hides the others.
    possibilities.sort(key=lambda possibility: possibility[0])
    try:
        return possibilities[-1][-1]
    except IndexError:
        return '<unknown>'
""","""    best, found = -1, '<unknown>'
    cwd = os.getcwd().rstrip('/') + '/'
    with io.open(procMounts, 'r') as f:
        for L in f:
            device, mountPoint = L.split()[:2]
            if not cwd.startswith(mountPoint.rstrip('/') + '/'):
                continue
            # The most specific mount point wins, and of several filesystems
            # mounted there the last one, which hides the others.
            if len(mountPoint) >= best:
                best, found = len(mountPoint), device
    return found
""")]),
('bm-size',[(B,"""    return sum(getOneSize(ch) for ch in p.walk())
""","""    total = 0
    for ch in p.walk():
        total += getOneSize(ch)
    return total
""")]),
('bm-size1',[(B,"""        if e.errno == errno.ENOENT:
            # XXX FilePath is broken
            if os.path.islink(ch.path):
                return len(os.readlink(ch.path))
            else:
                raise
        else:
            raise
""","""        # XXX FilePath is broken
        if e.errno != errno.ENOENT or not os.path.islink(ch.path):
            raise
        return len(os.readlink(ch.path))
""")]),
('bm-later',[(B,"""    def later(result):
        err = timeout = False
        if isinstance(result, failure.Failure):
            err = True
            if result.check(error.TimeoutError):
                log.msg("Failing because timeout!")
                timeout = True
            elif result.check(ProcessDied):
                log.msg("Failing because Failure!")
                pprint.pprint(result.value.output)
                print(result.value.exitCode, result.value.signal)
            else:
                log.err(result)
        else:
            proto, status, output = result
            stderr = [bytes for (fd, bytes) in output if fd == 2]
            if status or stderr != [None]:
                err = True
                log.msg("Failing because stderr or bad status")
                pprint.pprint(result)

            for n, change in [(name + '-overall', proto.overallChange),
                              (name + '-benchmark', proto.benchmarkChange)]:
                reportResults(formatResults(
                    n,
                    getSectorSize(workingPath),
                    change.before,
                    change.after,
                    err,
                    timeout))

    return d.addBoth(later)
""","""    def failed(reason):
        if reason.check(error.TimeoutError):
            log.msg("Failing because timeout!")
        elif reason.check(ProcessDied):
            log.msg("Failing because Failure!")
            pprint.pprint(reason.value.output)
            print(reason.value.exitCode, reason.value.signal)
        else:
            log.err(reason)

    def finished(result):
        proto, status, output = result
        stderr = [data for (fd, data) in output if fd == 2]
        err = bool(status) or stderr != [None]
        if err:
            log.msg("Failing because stderr or bad status")
            pprint.pprint(result)

        changes = {'overall': proto.overallChange,
                   'benchmark': proto.benchmarkChange}
        for kind in ('overall', 'benchmark'):
            change = changes[kind]
            reportResults(formatResults(
                '%s-%s' % (name, kind), getSectorSize(workingPath),
                change.before, change.after, err, False))

    return d.addCallbacks(finished, failed)
""")]),
('bm-start',[(B,"""    os.write(BenchmarkProcess.BACKCHANNEL_OUT, BenchmarkProcess.START)
    response = util.untilConcludes(os.read, BenchmarkProcess.BACKCHANNEL_IN, 1)
    if response != BenchmarkProcess.START:
        raise RuntimeError(
            "Parent process responded with %r instead of START " % (response,))
""","""    _signalParent(BenchmarkProcess.START, 'START')
"""),(B,"""    os.write(BenchmarkProcess.BACKCHANNEL_OUT, BenchmarkProcess.STOP)
    response = util.untilConcludes(os.read, BenchmarkProcess.BACKCHANNEL_IN, 1)
    if response != BenchmarkProcess.STOP:
        raise RuntimeError(
            "Parent process responded with %r instead of STOP" % (response,))
""","""    _signalParent(BenchmarkProcess.STOP, 'STOP')
"""),(B,"""def start():
    \"\"\"
    Start rec""","""def _signalParent(message, label):
    \"\"\"
    Send a message to the parent process and wait for it to be acknowledged.
    \"\"\"
    os.write(BenchmarkProcess.BACKCHANNEL_OUT, message)
    response = util.untilConcludes(os.read, BenchmarkProcess.BACKCHANNEL_IN, 1)
    if response != message:
        raise RuntimeError(
            "Parent process responded with %r instead of %s" % (
                response, label))



def start():
    \"\"\"
    Start rec""")]),
('bm-main',[(B,"""    name = sys.argv[1]
    path = filepath.FilePath('.stat').temporarySibling()
    path.makedirs()
    func = makeBenchmarkRunner(path, sys.argv[1:])
    try:
        bench(name, path, func)
    finally:
        path.remove()
""","""    args = sys.argv[1:]
    path = filepath.FilePath('.stat').temporarySibling()
    path.makedirs()
    try:
        bench(args[0], path, makeBenchmarkRunner(path, args))
    finally:
        path.remove()
""")]),
('co-star',[(CO,"""        self.coop.stop()
        return Service.stopService(self)
""","""        self.coop.stop()
        return super(SchedulingService, self).stopService()
"""),(CO,"""        Service.startService(self)
        self.coop.start()
""","""        super(SchedulingService, self).startService()
        self.coop.start()
""")]),
('co-cooperate',[(CO,"""        return self.coop.coiterate(iterator)
""","""        return self.coop.cooperate(iterator).whenDone()
""")]),
]
