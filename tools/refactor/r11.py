A='asplode.py';P='hotfixes/plugin_package_paths.py';T='hotfixes/timeoutmixin_calllater.py';L='hotfixes/loopbackasync_reentrancy.py';W='hotfixes/trial_assertwarns.py';K='hotfixes/internet_task_clock.py'
BODY=open('/repo/epsilon/asplode.py').read(); i=BODY.index('    current = None'); j=BODY.index('def main'); BODY=BODY[i:j]
R=[
('as-help',[(A,"def splode(","""def _expand(line, marks):
    for mark, value in marks:
        line = line.replace(mark, value)
    return line

def _create(fname):
    directory = os.path.dirname(fname)
    if directory and not os.path.isdir(directory):
        os.makedirs(directory)
    out = open(fname, 'w')
    status('Created: %s' % (fname,))
    return out

def splode("""),(A,BODY,"""    marks = [('_project_', proj), ('_Project_', capproj), ('_date_', date.today().isoformat())]
    current = None
    for line in linerator:
        line = _expand(line, marks)
        before, marker, rest = line.partition("###file:")
        if not marker:
            current.write(line)
            continue
        if current is not None:
            current.close()
        current = _create(rest.strip())
    current.close()

""")]),
('as-with',[(A,BODY,"""    def expand(line):
        line = line.replace('_project_', proj).replace('_Project_', capproj)
        return line.replace('_date_', str(date.today()))
    files = []
    for line in map(expand, linerator):
        if "###file:" in line:
            files.append((line.split("###file:")[1].strip(), []))
        else:
            files[-1][1].append(line)
    for fname, lines in files:
        os.makedirs(os.path.dirname(os.path.abspath(fname)), exist_ok=True)
        with open(fname, 'w') as f:
            status('Created: ' + fname)
            f.writelines(lines)

""")]),
('as-status',[(A,"    sys.stderr.write(x+'\\n')\n    sys.stderr.flush()","    print(x, file=sys.stderr)"),(A,"splode(sys.stdin.readlines(), ","splode(sys.stdin, "),(A,"            except:\n                pass","            except OSError:\n                pass")]),
('as-finally',[(A,BODY,"""    current = None
    try:
        for line in linerator:
            for mark, value in (('_project_', proj), ('_Project_', capproj),
                                ('_date_', '%s' % (date.today(),))):
                line = line.replace(mark, value)
            position = line.find("###file:")
            if position >= 0:
                fname = line[position + len("###file:"):].strip()
                if current is not None:
                    current.close()
                try:
                    os.makedirs(os.path.dirname(fname))
                except OSError:
                    pass
                current = open(fname, 'w')
                status('Created: {}'.format(fname))
            else:
                current.write(line)
    finally:
        if current is not None:
            current.close()

""")]),
('hf',[(P,"""    return [
        os.path.abspath(os.path.join(x, *package))
        for x
        in sys.path
        if
        not os.path.exists(os.path.join(x, *package + ['__init__.py']))]""","""    paths = []
    for entry in sys.path:
        directory = os.path.join(entry, *package)
        if os.path.exists(os.path.join(directory, '__init__.py')):
            continue
        paths.append(os.path.abspath(directory))
    return paths"""),
(T,"""        if self.__timeoutCall is not None:
            if period is None:
                self.__timeoutCall.cancel()
                self.__timeoutCall = None
            else:
                self.__timeoutCall.reset(period)
        elif period is not None:
            self.__timeoutCall = self.callLater(period, self.__timedOut)
""","""        if period is None:
            call, self.__timeoutCall = self.__timeoutCall, None
            if call is not None:
                call.cancel()
        elif self.__timeoutCall is None:
            self.__timeoutCall = self.callLater(period, self.__timedOut)
        else:
            self.__timeoutCall.reset(period)
"""),
(L,"    clientToServer._notificationDeferred = serverToClient._notificationDeferred = None","    for queue in (clientToServer, serverToClient):\n        queue._notificationDeferred = None"),
(L,"""    return deferLater(
        reactor, 0,   
        _loopbackAsyncBody, server, serverToClient, client, clientToServer)""","""    return deferLater(
        reactor, 0,
        lambda: _loopbackAsyncBody(server, serverToClient, client, clientToServer))"""),
(W,"""        self.fail("No warnings emitted")
    first = warningsShown[0]
    for other in warningsShown[1:]:
        if other[:2] != first[:2]:
            self.fail("Can't handle different warnings")
""","""        self.fail("No warnings emitted")
    first = warningsShown[0]
    if any(other[:2] != first[:2] for other in warningsShown[1:]):
        self.fail("Can't handle different warnings")
"""),
(K,"    if dc1 is dc2:\n        return True\n    else:\n        return False","    return dc1 is dc2")]),
('hf2',[(T,"""        prev = self.timeOut
        self.timeOut = period
""","""        prev, self.timeOut = self.timeOut, period
"""),(T,"""        if self.__timeoutCall is not None and self.timeOut is not None:
            self.__timeoutCall.reset(self.timeOut)""","""        call = self.__timeoutCall
        if call is None or self.timeOut is None:
            return
        call.reset(self.timeOut)"""),
(L,"""    return deferLater(
        reactor, 0,   
        _loopbackAsyncBody, server, serverToClient, client, clientToServer)""","""    d = Deferred()
    reactor.callLater(0, d.callback, None)
    d.addCallback(lambda ignored: _loopbackAsyncBody(
        server, serverToClient, client, clientToServer))
    return d"""),(L,"from twisted.internet.task import deferLater","from twisted.internet.defer import Deferred"),
(W,"        warningsShown.append(args)","        warningsShown.append(tuple(args))"),
(P,"    package = name.split('.')","    package = name.split('.')\n    initName = ['__init__.py']\n"),(P,"*package + ['__init__.py']","*(package + initName)"),
]),
]
