J='juice.py'; A='amprouter.py'; AU='ampauth.py'; LI='liner.py'
R=[
('j-do2',[(J,"""        if namespace is not None:
            cmd = namespace + ":" + self.commandName
        else:
            cmd = self.commandName
        def _massageError(error):
            error.trap(RemoteJuiceError)
            rje = error.value
            return Failure(self.reverseErrors.get(rje.errorCode, UnhandledRemoteJuiceError)(rje.description))

        d = proto.sendBoxCommand(
            cmd, objectsToStrings(self.structured, self.arguments, self.commandType(),
                                  proto),
            requiresAnswer)

        if requiresAnswer:
            d.addCallback(stringsToObjects, self.response, proto)
            d.addCallback(self.addExtra, proto.transport)
            d.addErrback(_massageError)

        return d
""","""        box = objectsToStrings(
            self.structured, self.arguments, self.commandType(), proto)
        d = proto.sendBoxCommand(
            self._qualifiedName(namespace), box, requiresAnswer)
        if not requiresAnswer:
            return d
        d.addCallback(self._parseResponse, proto)
        d.addErrback(self._massageError)
        return d

    def _qualifiedName(self, namespace):
        name = self.commandName
        if namespace is None:
            return name
        return ':'.join((namespace, name))

    def _parseResponse(self, answer, proto):
        objects = stringsToObjects(answer, self.response, proto)
        return self.addExtra(objects, proto.transport)

    def _massageError(self, error):
        error.trap(RemoteJuiceError)
        remote = error.value
        try:
            exceptionType = self.reverseErrors[remote.errorCode]
        except KeyError:
            exceptionType = UnhandledRemoteJuiceError
        return Failure(exceptionType(remote.description))
""")]),
('j-cmdinit',[(J,"""        givenArgs = [normalizeKey(k) for k in kw.keys()]
        forgotten = []
        for name, arg in self.arguments:
            if normalizeKey(name) not in givenArgs and not arg.optional:
                forgotten.append(normalizeKey(name))
""","""        given = frozenset(map(normalizeKey, kw))
        required = (normalizeKey(name) for (name, arg) in self.arguments
                    if not arg.optional)
        forgotten = [name for name in required if name not in given]
"""),(J,"""            if len(forgotten) == 1:
                plural = 'an argument'
            else:
                plural = 'some arguments'
            raise RuntimeError("You forgot %s to %r: %s" % (
                    plural, self.commandName, ', '.join(forgotten)))
        forgotten = []
""","""            plural = 'an argument' if len(forgotten) == 1 else 'some arguments'
            raise RuntimeError("You forgot {} to {!r}: {}".format(
                plural, self.commandName, ', '.join(forgotten)))
""")]),
('j-meta',[(J,"""            re = newtype.reverseErrors = {}
            er = newtype.allErrors = {}
            # Errors declared by a base class are declared by this one too.
            for v, k in six.viewitems(newtype.errors):
                re[k] = v
                er[v] = k
            for v, k in six.viewitems(newtype.fatalErrors):
                re[k] = v
                er[v] = k
            return newtype
""","""            allErrors = dict(newtype.errors)
            allErrors.update(newtype.fatalErrors)
            newtype.allErrors = allErrors
            newtype.reverseErrors = reverse = {}
            for declared in (newtype.errors, newtype.fatalErrors):
                reverse.update((code, exc) for (exc, code) in declared.items())
            return newtype
""")]),
('j-meta2',[(J,"""            re = newtype.reverseErrors = {}
            er = newtype.allErrors = {}
            # Errors declared by a base class are declared by this one too.
            for v, k in six.viewitems(newtype.errors):
                re[k] = v
                er[v] = k
            for v, k in six.viewitems(newtype.fatalErrors):
                re[k] = v
                er[v] = k
            return newtype
""","""            newtype.allErrors = {**newtype.errors, **newtype.fatalErrors}
            newtype.reverseErrors = dict(
                (code, exc) for mapping in (newtype.errors, newtype.fatalErrors)
                for (exc, code) in six.iteritems(mapping))
            return newtype
""")]),
('j-retrieve',[(J,"""        if self.optional:
            value = d.get(name)
            if value is not None:
                del d[name]
        else:
            value = d.pop(name)
        return value
""","""        if not self.optional:
            return d.pop(name)
        value = d.get(name)
        if value is None:
            return None
        return d.pop(name)
""")]),
('j-tobox',[(J,"""        obj = self.retrieve(objects, name)
        if self.optional and obj is None:
            # strings[name] = None
            return
        else:
            strings[name] = self.toStringProto(obj, proto)
""","""        value = self.retrieve(objects, name)
        if value is not None or not self.optional:
            strings[name] = self.toStringProto(value, proto)
"""),(J,"""        st = self.retrieve(strings, name)
        if self.optional and st is None:
            objects[name] = None
        else:
            objects[name] = self.fromStringProto(st, proto)
""","""        raw = self.retrieve(strings, name)
        missing = self.optional and raw is None
        objects[name] = None if missing else self.fromStringProto(raw, proto)
""")]),
('j-listof',[(J,"""        if not inString:
            return []
        strings = inString.split(self.delimiter)
        L = [self.subarg.fromStringProto(string, proto)
             for string in strings]
        return L
""","""        if inString:
            return list(map(lambda item: self.subarg.fromStringProto(item, proto),
                            inString.split(self.delimiter)))
        return []
"""),(J,"""        L = []
        for inSingle in inObject:
            outString = self.subarg.toStringProto(inSingle, proto)
            assert self.delimiter not in outString
            L.append(outString)
        assert L != [''], "indistinguishable from an empty list"
        joined = self.delimiter.join(L)
        assert not L or joined.split(self.delimiter) == L, "ambiguous list"
        return joined
""","""        items = [self.subarg.toStringProto(each, proto) for each in inObject]
        for item in items:
            assert self.delimiter not in item
        joined = self.delimiter.join(items)
        if items:
            assert joined, "indistinguishable from an empty list" \\
                if len(items) == 1 else "ambiguous list"
            assert joined.split(self.delimiter) == items, "ambiguous list"
        return joined
""")]),
('j-bool',[(J,"""        if inString == 'True':
            return True
        elif inString == 'False':
            return False
        else:
            raise RuntimeError("Bad boolean value: %r" % (inString,))
""","""        try:
            return {'True': True, 'False': False}[inString]
        except KeyError:
            raise RuntimeError("Bad boolean value: %r" % (inString,))
"""),(J,"""        if inObject:
            return 'True'
        else:
            return 'False'
""","""        return str(bool(inObject))
""")]),
('j-bool2',[(J,"""        if inString == 'True':
            return True
        elif inString == 'False':
            return False
        else:
            raise RuntimeError("Bad boolean value: %r" % (inString,))
""","""        if inString not in ('True', 'False'):
            raise RuntimeError("Bad boolean value: %r" % (inString,))
        return inString == 'True'
"""),(J,"""        if inObject:
            return 'True'
        else:
            return 'False'
""","""        return 'True' if inObject else 'False'
""")]),
('j-jlist',[(J,"""        boxes = parseString(six.ensure_binary(inString))
        values = [stringsToObjects(box, self.subargs, proto)
                  for box in boxes]
        return values
""","""        values = []
        for box in parseString(six.ensure_binary(inString)):
            values.append(stringsToObjects(box, self.subargs, proto))
        return values
"""),(J,"""        return b''.join([
            objectsToStrings(objects, self.subargs, Box(), proto).serialize()
            for objects in inObject
        ])
""","""        out = io.BytesIO()
        for objects in inObject:
            box = objectsToStrings(objects, self.subargs, Box(), proto)
            out.write(box.serialize())
        return out.getvalue()
""")]),
('j-failall',[(J,"""        OR = self._outstandingRequests.items()
        self._outstandingRequests = None # we can never send another request
        for key, value in OR:
            value.errback(reason)
""","""        requests, self._outstandingRequests = self._outstandingRequests, None
        for deferred in list(requests.values()):
            deferred.errback(reason)
""")]),
('j-failall2',[(J,"""        OR = self._outstandingRequests.items()
        self._outstandingRequests = None # we can never send another request
        for key, value in OR:
            value.errback(reason)
""","""        pending = self._outstandingRequests
        self._outstandingRequests = None
        for tag in pending:
            pending[tag].errback(reason)
""")]),
('j-recv-split',[(J,"""        if ANSWER in box:
            question = self._outstandingRequests.pop(box[ANSWER])
            question.addErrback(self._puke)
            self._wrap(question.callback)(box)
        elif ERROR in box:
            question = self._outstandingRequests.pop(box[ERROR])
            question.addErrback(self._puke)
            self._wrap(question.errback)(
                Failure(RemoteJuiceError(box[ERROR_CODE],
                                         box[ERROR_DESCRIPTION])))
        elif COMMAND in box:
""","""        if ANSWER in box:
            question = self._takeQuestion(box[ANSWER])
            self._wrap(question.callback)(box)
        elif ERROR in box:
            question = self._takeQuestion(box[ERROR])
            remote = RemoteJuiceError(box[ERROR_CODE], box[ERROR_DESCRIPTION])
            self._wrap(question.errback)(Failure(remote))
        elif COMMAND in box:
"""),(J,"""    def juiceBoxReceived(self, box):
        if debug:
""","""    def _takeQuestion(self, tag):
        question = self._outstandingRequests.pop(tag)
        return question.addErrback(self._puke)

    def juiceBoxReceived(self, box):
        if debug:
""")]),
('j-send-err',[(J,"""                if error.check(RemoteJuiceError):
                    code = error.value.errorCode
                    desc = error.value.description
                    if error.value.fatal:
                        errorBox = QuitBox()
                    else:
                        errorBox = JuiceBox()
                else:
                    errorBox = QuitBox()
                    log.err(error) # here is where server-side logging happens
                                   # if the error isn't handled
                    code = 'UNHANDLED'
                    desc = "Unhandled Remote System Exception "
                errorBox[ERROR] = box[ASK]
                errorBox[ERROR_DESCRIPTION] = desc
                errorBox[ERROR_CODE] = code
                if self._canReply():
                    errorBox.sendTo(self)
""","""                if isinstance(error.value, RemoteJuiceError):
                    code, desc = error.value.errorCode, error.value.description
                    boxType = QuitBox if error.value.fatal else JuiceBox
                else:
                    log.err(error)
                    code, desc = 'UNHANDLED', "Unhandled Remote System Exception "
                    boxType = QuitBox
                if not self._canReply():
                    return None
                errorBox = boxType(**{
                    ERROR: box[ASK],
                    ERROR_DESCRIPTION: desc,
                    ERROR_CODE: code,
                })
                errorBox.sendTo(self)
""")]),
('j-sendbox',[(J,"""        box[COMMAND] = command
        tag = self._nextTag()
        if requiresAnswer:
            box[ASK] = tag
            result = self._outstandingRequests[tag] = Deferred()
        else:
            result = None
        box.sendTo(self)
        return result
""","""        tag = self._nextTag()
        result = None
        if requiresAnswer:
            result = Deferred()
            self._outstandingRequests[tag] = result
            box[ASK] = tag
        box[COMMAND] = command
        box.sendTo(self)
        return result
""")]),
('j-lookup',[(J,"""        fName = self.autoDispatchPrefix + name
        fObj = getattr(self, fName, None)
        if fObj is not None:
            # pass the namespace along
            return self._auto(fObj, proto, namespace)

        if namespace is not None:
            # Old-style responders do not belong to any namespace.
            return None
        # Fall back to simplistic command dispatching - we probably want to get
        # rid of this eventually, there's no reason to do extra work and write
        # fewer docs all the time.
        fName = self.baseDispatchPrefix + name
        return getattr(self, fName, None)
""","""        responder = getattr(self, self.autoDispatchPrefix + name, None)
        if responder is None:
            if namespace is None:
                return getattr(self, self.baseDispatchPrefix + name, None)
            return None
        return self._auto(responder, proto, namespace)
""")]),
('j-doit',[(J,"""            return maybeDeferred(aCallable, **kw).addCallback(
                command.makeResponse, proto).addErrback(
                checkKnownErrors)
        return doit
""","""            d = maybeDeferred(aCallable, **kw)
            d.addCallback(lambda objects: command.makeResponse(objects, proto))
            d.addErrback(checkKnownErrors)
            return d
        return doit
"""),(J,"""            for name, extraArg in command.extra:
                kw[name] = extraArg.fromTransport(proto.transport)
#""","""            kw.update((name, extra.fromTransport(proto.transport))
                      for (name, extra) in command.extra)
#"""),(J,"""                key = error.trap(*command.allErrors)
                code = command.allErrors[key]
                desc = str(error.value)
                return Failure(RemoteJuiceError(
                        code, desc, key in command.fatalErrors))
""","""                known = error.trap(*list(command.allErrors))
                fatal = known in command.fatalErrors
                return Failure(RemoteJuiceError(
                    command.allErrors[known], str(error.value), fatal=fatal))
""")]),
('j-wrap',[(J,"""        if aCallable is None:
            return None
        wrap = self.wrapper
        if wrap is not None:
            return wrap(aCallable)
        else:
            return aCallable
""","""        if aCallable is None or self.wrapper is None:
            return aCallable
        return self.wrapper(aCallable)
""")]),
('j-normcmd',[(J,"""        return cmd.upper().strip().replace('-', '_')
""","""        return '_'.join(cmd.strip().upper().split('-'))
"""),(J,"""    lkey = six.ensure_str(key).lower().replace('-', '_')
    if keyword.iskeyword(lkey):
        return lkey.title()
    return lkey
""","""    name = six.ensure_str(key).replace('-', '_').lower()
    return name.title() if keyword.iskeyword(name) else name
""")]),
('j-parse',[(J,"""    b = JuiceBox()
    key = None
    for L in lines:
        if L[0:1] == b' ':
            # continuation
            assert key is not None
            b[key] += six.ensure_str(b'\\r\\n' + L[1:])
            continue
        parts = L.split(b': ', 1)
        if len(parts) != 2:
            raise MalformedJuiceBox("Wrong number of parts: %r" % (L,))
        key, value = parts
        key = normalizeKey(key)
        b[key] = six.ensure_str(value)
    length = b.pop(LENGTH, None)
    if length is None:
        return 0, b
    length = int(length)
    if length == 0:
        # There is nothing left to read of the body.
        b[BODY] = ''
    return length, b
""","""    box = JuiceBox()
    current = None
    for line in lines:
        if line.startswith(b' '):
            assert current is not None
            box[current] = box[current] + six.ensure_str(b'\\r\\n' + line[1:])
        else:
            name, separator, value = line.partition(b': ')
            if not separator:
                raise MalformedJuiceBox("Wrong number of parts: %r" % (line,))
            current = normalizeKey(name)
            box[current] = six.ensure_str(value)
    if LENGTH not in box:
        return 0, box
    length = int(box.pop(LENGTH))
    if not length:
        box[BODY] = ''
    return length, box
""")]),
('j-switch',[(J,"""        d = super(ProtocolSwitchCommand, self).do(proto)
        proto._lock()
        def switchNow(ign):
            innerProto = self.protoToSwitchToFactory.buildProtocol(proto.transport.getPeer())
            proto._switchTo(innerProto, self.protoToSwitchToFactory)
            return ign
        def die(ign):
            proto.transport.loseConnection()
            return ign
        def handle(ign):
            self.protoToSwitchToFactory.clientConnectionFailed(None, Failure(CONNECTION_LOST))
            return ign
        return d.addCallbacks(switchNow, handle).addErrback(die)
""","""        factory = self.protoToSwitchToFactory
        def switchNow(result):
            peer = proto.transport.getPeer()
            proto._switchTo(factory.buildProtocol(peer), factory)
            return result
        def handle(failure):
            factory.clientConnectionFailed(None, Failure(CONNECTION_LOST))
            return failure
        def die(failure):
            proto.transport.loseConnection()
            return failure
        d = super(ProtocolSwitchCommand, self).do(proto)
        proto._lock()
        d.addCallbacks(switchNow, handle)
        d.addErrback(die)
        return d
""")]),
('j-starttls',[(J,"""        if self.hostCertificate is None:
            self.hostCertificate = certificate
            self._justStartedTLS = True
            self.transport.startTLS(certificate.options(*verifyAuthorities))
            stlsb = self._startingTLSBuffer
            if stlsb is not None:
                self._startingTLSBuffer = None
                for box in stlsb:
                    self.sendPacket(box)
        else:
            raise RuntimeError(
                "Previously authenticated connection between %s and %s "
                "is trying to re-establish as %s" % (
                    self.hostCertificate,
                    Certificate.peerFromTransport(self.transport),
                    (certificate, verifyAuthorities)))
""","""        if self.hostCertificate is not None:
            raise RuntimeError(
                "Previously authenticated connection between %s and %s "
                "is trying to re-establish as %s" % (
                    self.hostCertificate,
                    Certificate.peerFromTransport(self.transport),
                    (certificate, verifyAuthorities)))
        self.hostCertificate = certificate
        self._justStartedTLS = True
        options = certificate.options(*verifyAuthorities)
        self.transport.startTLS(options)
        buffered, self._startingTLSBuffer = self._startingTLSBuffer, None
        for box in buffered or ():
            self.sendPacket(box)
"""),(J,"""        if self._justStartedTLS:
            self._justStartedTLS = False
        return LineReceiver""","""        self._justStartedTLS = False
        return LineReceiver""")]),
('j-sendpacket',[(J,"""        if self._startingTLSBuffer is not None:
            self._startingTLSBuffer.append(completeBox)
        else:
            if debug:
                log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
            result = completeBox.serialize()
            self.transport.write(result)
""","""        if self._startingTLSBuffer is not None:
            self._startingTLSBuffer.append(completeBox)
            return
        if debug:
            log.msg("Juice send: %s" % pprint.pformat(dict(completeBox)))
        self.transport.write(completeBox.serialize())
"""),(J,"""        if self.__locked and COMMAND in box and ASK in box:
            # This is a command which will trigger an answer, and we can no
            # longer answer anything, so don't bother delivering it.
            return
        return super(Juice, self).juiceBoxReceived(box)
""","""        unanswerable = self.__locked and {COMMAND, ASK} <= set(box)
        if not unanswerable:
            return super(Juice, self).juiceBoxReceived(box)
""")]),
('j-boxinit',[(J,"""        self.update(kw)
        if __body:
            assert isinstance(__body, str), "body must be a string: %r" % ( repr(__body),)
            self['body'] = __body
""","""        super(JuiceBox, self).__init__(kw)
        if not __body:
            return
        assert isinstance(__body, str), "body must be a string: %r" % ( repr(__body),)
        self[BODY] = __body
"""),(J,"""        newBox = self.__class__()
        newBox.update(self)
        return newBox
""","""        duplicate = type(self)()
        for key, value in self.items():
            duplicate[key] = value
        return duplicate
""")]),
('j-tlsbox',[(J,"""        super(TLSBox, self).sendTo(proto)
        if self.verify is None:
            proto.startTLS(self.certificate)
        else:
            proto.startTLS(self.certificate, self.verify)
        if self.sslstarted is not None:
            self.sslstarted()
""","""        super(TLSBox, self).sendTo(proto)
        authorities = () if self.verify is None else (self.verify,)
        proto.startTLS(self.certificate, *authorities)
        started = self.sslstarted
        if started is not None:
            started()
""")]),
('j-enc',[(J,"""        return six.ensure_str(inObject.encode(self.encoding), 'latin-1')
""","""        return inObject.encode(self.encoding).decode('latin-1')
"""),(J,"""        return six.ensure_binary(inString, 'latin-1').decode(self.encoding)
""","""        data = inString.encode('latin-1') if isinstance(inString, six.text_type) else inString
        return data.decode(self.encoding)
""")]),
('j-errinit',[(J,"""        Exception.__init__(self, "Remote[%s]: %s" % (errorCode, description))
        self.errorCode = errorCode
        self.description = description
        self.fatal = fatal
""","""        super(RemoteJuiceError, self).__init__(
            "Remote[%s]: %s" % (errorCode, description))
        self.fatal = fatal
        self.errorCode, self.description = errorCode, description
"""),(J,"""        errorCode = b"UNHANDLED"
        RemoteJuiceError.__init__(self, errorCode, description)
""","""        super(UnhandledRemoteJuiceError, self).__init__(b"UNHANDLED", description)
""")]),
('j-makeresp',[(J,"""        try:
            return objectsToStrings(objects, cls.response, cls.responseType(), proto)
        except:
            log.msg("Exception in %r.makeResponse" % (cls,))
            raise
    makeResponse = classmethod(makeResponse)

    def do(""","""        box = cls.responseType()
        try:
            objectsToStrings(objects, cls.response, box, proto)
        except BaseException:
            log.msg("Exception in %r.makeResponse" % (cls,))
            raise
        else:
            return box
    makeResponse = classmethod(makeResponse)

    def do(""")]),
('j-dispatch-inline',[(J,"""        fObj = self.lookupFunction(proto, self.normalizeCommand(cmd), namespace)
        if fObj is None:
            return fail(UnhandledCommand(cmd))
        return maybeDeferred(self._wrap(fObj), box)
""","""        name = self.normalizeCommand(cmd)
        responder = self.lookupFunction(proto, name, namespace)
        if responder is not None:
            return maybeDeferred(self._wrap(responder), box)
        return fail(UnhandledCommand(cmd))
""")]),
('a-start',[(A,"""        connected = [
            route for route in six.viewvalues(self._unstarted)
            if route.remoteRouteName is not _unspecified]
        self._routes = self._unstarted
        self._unstarted = None
        self._sender = sender
        for route in connected:
            # Starting one receiver may well unbind the route of another.
            if (self._routes is not None and
                self._routes.get(route.localRouteName) is route):
                route.start()
""","""        self._sender = sender
        self._routes, self._unstarted = self._unstarted, None
        for route in tuple(r for r in self._routes.values() if r._isConnected()):
            if self._stillBound(route):
                route.start()


    def _stillBound(self, route):
        routes = self._routes
        if routes is None:
            return False
        return routes.get(route.localRouteName) is route
"""),(A,"""    def unbind(self):
""","""    def _isConnected(self):
        return self.remoteRouteName is not _unspecified


    def unbind(self):
""")]),
('a-ident',[(A,"""        while True:
            routeName = six.text_type(next(self._routeCounter))
            if routeName not in (self._boundRoutes() or ()):
                return routeName
""","""        taken = self._boundRoutes() or {}
        for number in self._routeCounter:
            candidate = u'%d' % (number,)
            if candidate not in taken:
                return candidate
""")]),
('a-ident2',[(A,"""        while True:
            routeName = six.text_type(next(self._routeCounter))
            if routeName not in (self._boundRoutes() or ()):
                return routeName
""","""        routes = self._boundRoutes()
        names = map(six.text_type, self._routeCounter)
        return next(name for name in names if not routes or name not in routes)
""")]),
('a-stop',[(A,"""        for route in list(six.viewvalues(self._routes)):
            route.stop(reason)
        self._routes = None
""","""        routes = [route for (_, route) in sorted(
            enumerate(self._routes.values()), key=lambda pair: pair[0])]
        for route in routes:
            route.stop(reason)
        self._routes = None
""")]),
('a-send',[(A,"""        if self.remoteRouteName is _unspecified:
            raise RouteNotConnected()
        if self.remoteRouteName is not None:
            box[_ROUTE] = self.remoteRouteName
        self.router._sender.sendBox(box)
""","""        remote = self.remoteRouteName
        sender = self.router._sender
        if remote is _unspecified:
            raise RouteNotConnected()
        elif remote is not None:
            box.update({_ROUTE: remote})
        sender.sendBox(box)
"""),(A,"""        route = box.pop(_ROUTE, None)
        self._routes[route].receiver.ampBoxReceived(box)
""","""        if _ROUTE in box:
            name = box.pop(_ROUTE)
        else:
            name = None
        receiver = self._routes[name].receiver
        receiver.ampBoxReceived(box)
""")]),
('a-bind',[(A,"""        if routeName is _unspecified:
            routeName = self.createRouteIdentifier()
        # self._sender may yet be None; if so, this route goes into _unstarted
        # and will have its sender set correctly in startReceivingBoxes below.
        route = Route(self, receiver, routeName)
        self._boundRoutes()[routeName] = route
        return route
""","""        name = self.createRouteIdentifier() if routeName is _unspecified else routeName
        routes = self._boundRoutes()
        routes[name] = route = Route(router=self, receiver=receiver, localRouteName=name)
        return route
""")]),
]
