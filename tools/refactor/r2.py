J='juice.py'
R=[
('j-ser-lines',[(J,"""        L = []
        for (k, v) in six.viewitems(self):
            if k == BODY:
                k = LENGTH
                v = str(len(six.ensure_binary(self[BODY])))
            L.append(six.ensure_binary(k).replace(b'_', b'-').title())
            L.append(b': ')
            L.append(six.ensure_binary(v).replace(delimiter, escaped))
            L.append(delimiter)

        L.append(delimiter)
        if BODY in self:
            L.append(six.ensure_binary(self[BODY]))
        return b''.join(L)
""","""        def header(key, value):
            name = six.ensure_binary(key).replace(b'_', b'-').title()
            return name + b': ' + six.ensure_binary(value).replace(delimiter, escaped)

        body = None
        lines = []
        for key in self:
            value = self[key]
            if key == BODY:
                body = six.ensure_binary(value)
                lines.append(header(LENGTH, '%d' % (len(body),)))
            else:
                lines.append(header(key, value))
        lines.append(b'')
        data = b''.join(line + delimiter for line in lines)
        if body is not None:
            data += body
        return data
""")]),
('j-ser-join',[(J,"""            L.append(six.ensure_binary(k).replace(b'_', b'-').title())
            L.append(b': ')
            L.append(six.ensure_binary(v).replace(delimiter, escaped))
            L.append(delimiter)
""","""            L.extend([
                six.ensure_binary(k).replace(b'_', b'-').title(),
                b': ',
                escaped.join(six.ensure_binary(v).split(delimiter)),
                delimiter])
""")]),
('j-ser-fmt',[(J,"""            L.append(six.ensure_binary(k).replace(b'_', b'-').title())
            L.append(b': ')
            L.append(six.ensure_binary(v).replace(delimiter, escaped))
            L.append(delimiter)
""","""            L.append(b'%s: %s%s' % (
                six.ensure_binary(k).replace(b'_', b'-').title(),
                six.ensure_binary(v).replace(delimiter, escaped),
                delimiter))
""")]),
('j-ser-items',[(J,"        for (k, v) in six.viewitems(self):\n            if k == BODY:\n                k = LENGTH\n                v = str(len(six.ensure_binary(self[BODY])))\n","        body = six.ensure_binary(self.get(BODY, ''))\n        for k, v in list(self.items()):\n            if k == BODY:\n                k, v = LENGTH, repr(len(body))\n"),(J,"        if BODY in self:\n            L.append(six.ensure_binary(self[BODY]))\n        return b''.join(L)","        L.append(body)\n        return b''.join(L)")]),
('j-parse-part',[(J,"""        parts = L.split(b': ', 1)
        if len(parts) != 2:
            raise MalformedJuiceBox("Wrong number of parts: %r" % (L,))
        key, value = parts
        key = normalizeKey(key)
        b[key] = six.ensure_str(value)
""","""        rawKey, separator, value = L.partition(b': ')
        if not separator:
            raise MalformedJuiceBox("Wrong number of parts: %r" % (L,))
        key = normalizeKey(rawKey)
        b[key] = six.ensure_str(value)
""")]),
('j-parse-try',[(J,"""        parts = L.split(b': ', 1)
        if len(parts) != 2:
            raise MalformedJuiceBox("Wrong number of parts: %r" % (L,))
        key, value = parts
        key = normalizeKey(key)
""","""        try:
            key, value = L.split(b': ', 1)
        except ValueError:
            raise MalformedJuiceBox("Wrong number of parts: %r" % (L,))
        key = normalizeKey(key)
""")]),
('j-parse-find',[(J,"""        parts = L.split(b': ', 1)
        if len(parts) != 2:
            raise MalformedJuiceBox("Wrong number of parts: %r" % (L,))
        key, value = parts
        key = normalizeKey(key)
""","""        colon = L.find(b': ')
        if colon == -1:
            raise MalformedJuiceBox("Wrong number of parts: %r" % (L,))
        key, value = L[:colon], L[colon + 2:]
        key = normalizeKey(key)
""")]),
('j-parse-unfold',[(J,"""    b = JuiceBox()
    key = None
    for L in lines:
        if L[0:1] == b' ':
            # continuation
            assert key is not None
            b[key] += six.ensure_str(b'\\r\\n' + L[1:])
            continue
        parts""","""    b = JuiceBox()
    for L in _unfold(lines):
        parts"""),(J,"def parseJuiceHeaders(lines):","""def _unfold(lines):
    \"\"\"
    Join continuation lines to the lines they continue.
    \"\"\"
    whole = []
    for L in lines:
        if L.startswith(b' '):
            # continuation
            assert whole
            whole[-1] += b'\\r\\n' + L[1:]
        else:
            whole.append(L)
    return whole


def parseJuiceHeaders(lines):""")]),
('j-parse-len',[(J,"""    length = b.pop(LENGTH, None)
    if length is None:
        return 0, b
    length = int(length)
    if length == 0:
        # There is nothing left to read of the body.
        b[BODY] = ''
    return length, b""","""    if LENGTH not in b:
        return 0, b
    length = int(b.pop(LENGTH))
    if not length:
        # There is nothing left to read of the body.
        b[BODY] = ''
    return (length, b)""")]),
('j-norm',[(J,"    lkey = six.ensure_str(key).lower().replace('-', '_')\n    if keyword.iskeyword(lkey):\n        return lkey.title()\n    return lkey","    lkey = six.ensure_str(key).replace('-', '_').lower()\n    return lkey.title() if keyword.iskeyword(lkey) else lkey")]),
('j-normcmd',[(J,"        return cmd.upper().strip().replace('-', '_')","        return cmd.strip().replace('-', '_').upper()")]),
('j-received-split',[(J,"""        if ANSWER in box:
            question = self._outstandingRequests.pop(box[ANSWER])
            question.addErrback(self._puke)
            self._wrap(question.callback)(box)
        elif ERROR in box:
            question = self._outstandingRequests.pop(box[ERROR])
            question.addErrback(self._puke)
            self._wrap(question.errback)(
                Failure(RemoteJuiceError(box[ERROR_CODE],
                                         box[ERROR_DESCRIPTION])))
        elif COMMAND in box:""","""        if ANSWER in box:
            self._wrap(self._takeQuestion(box[ANSWER]).callback)(box)
        elif ERROR in box:
            error = RemoteJuiceError(box[ERROR_CODE], box[ERROR_DESCRIPTION])
            question = self._takeQuestion(box[ERROR])
            self._wrap(question.errback)(Failure(error))
        elif COMMAND in box:"""),(J,"    def sendBoxCommand(self, command","""    def _takeQuestion(self, tag):
        question = self._outstandingRequests.pop(tag)
        question.addErrback(self._puke)
        return question

    def sendBoxCommand(self, command""")]),
('j-received-cmd',[(J,"""            cmd = box[COMMAND]
            def sendAnswer(answerBox):
                if ASK not in box:
                    return
                if not self._canReply():
                    return
                answerBox[ANSWER] = box[ASK]
                answerBox.sendTo(self)
""","""            cmd = box[COMMAND]
            asked = box.get(ASK)
            def sendAnswer(answerBox):
                if asked is not None and self._canReply():
                    answerBox[ANSWER] = asked
                    answerBox.sendTo(self)
""")]),
('j-received-err',[(J,"""                if error.check(RemoteJuiceError):
                    code = error.value.errorCode
                    desc = error.value.description
                    if error.value.fatal:
                        errorBox = QuitBox()
                    else:
                        errorBox = JuiceBox()
                else:
                    errorBox = QuitBox()
                    log.err(error) # here is where server-side logging happens
                                   # if the error isn't handled
                    code = 'UNHANDLED'
                    desc = "Unhandled Remote System Exception "
                errorBox[ERROR] = box[ASK]
                errorBox[ERROR_DESCRIPTION] = desc
                errorBox[ERROR_CODE] = code
                if self._canReply():
                    errorBox.sendTo(self)
                return None #""","""                known = error.check(RemoteJuiceError) is not None
                if known:
                    code, desc, fatal = (error.value.errorCode, error.value.description, error.value.fatal)
                else:
                    log.err(error) # here is where server-side logging happens
                                   # if the error isn't handled
                    code, desc, fatal = 'UNHANDLED', "Unhandled Remote System Exception ", True
                boxType = QuitBox if fatal else JuiceBox
                errorBox = boxType(**{ERROR: box[ASK], ERROR_DESCRIPTION: desc,
                                      ERROR_CODE: code})
                if self._canReply():
                    errorBox.sendTo(self)
                return None #""")]),
('j-dispatch-chain',[(J,"""            self.dispatchCommand(self, cmd, box).addCallbacks(sendAnswer, sendError
                                                              ).addErrback(self._puke)
""","""            d = self.dispatchCommand(self, cmd, box)
            d.addCallbacks(callback=sendAnswer, errback=sendError)
            d.addErrback(self._puke)
""")]),
('j-failall',[(J,"""        OR = self._outstandingRequests.items()
        self._outstandingRequests = None # we can never send another request
        for key, value in OR:
            value.errback(reason)""","""        outstanding, self._outstandingRequests = self._outstandingRequests, None
        for question in list(outstanding.values()):
            question.errback(reason)""")]),
('j-tag',[(J,"        self._counter += 1\n        return '%x' % (self._counter,)","        counter = self._counter + 1\n        self._counter = counter\n        return format(counter, 'x')")]),
('j-tag2',[(J,"        self._counter += 1\n        return '%x' % (self._counter,)","        self._counter = self._counter + 1\n        return '{0:x}'.format(self._counter)")]),
('j-tag3',[(J,"        self._counter += 1\n        return '%x' % (self._counter,)","        self._counter += 1\n        return f'{self._counter:x}'")]),
('j-sendbox',[(J,"""        box[COMMAND] = command
        tag = self._nextTag()
        if requiresAnswer:
            box[ASK] = tag
            result = self._outstandingRequests[tag] = Deferred()
        else:
            result = None
        box.sendTo(self)
        return result""","""        tag = self._nextTag()
        box[COMMAND] = command
        if not requiresAnswer:
            box.sendTo(self)
            return None
        box[ASK] = tag
        result = Deferred()
        self._outstandingRequests[tag] = result
        box.sendTo(self)
        return result""")]),
('j-auto',[(J,"""            def checkKnownErrors(error):
                key = error.trap(*command.allErrors)
                code = command.allErrors[key]
                desc = str(error.value)
                return Failure(RemoteJuiceError(
                        code, desc, key in command.fatalErrors))
            return maybeDeferred(aCallable, **kw).addCallback(
                command.makeResponse, proto).addErrback(
                checkKnownErrors)""","""            d = maybeDeferred(aCallable, **kw)
            d.addCallback(command.makeResponse, proto)
            d.addErrback(self._translateError, command)
            return d"""),(J,"    def _wrap(self, aCallable):","""    def _translateError(self, error, command):
        key = error.trap(*command.allErrors.keys())
        fatal = key in command.fatalErrors
        return Failure(RemoteJuiceError(command.allErrors[key], str(error.value), fatal))

    def _wrap(self, aCallable):""")]),
('j-auto-check',[(J,"                key = error.trap(*command.allErrors)\n","                key = error.check(*list(command.allErrors))\n                if key is None:\n                    return error\n")]),
('j-wrap',[(J,"        wrap = self.wrapper\n        if wrap is not None:\n            return wrap(aCallable)\n        else:\n            return aCallable","        if self.wrapper is None:\n            return aCallable\n        return self.wrapper(aCallable)")]),
('j-lookup',[(J,"""        fName = self.autoDispatchPrefix + name
        fObj = getattr(self, fName, None)
        if fObj is not None:
            # pass the namespace along
            return self._auto(fObj, proto, namespace)

        if namespace is not None:""","""        try:
            fObj = getattr(self, '%s%s' % (self.autoDispatchPrefix, name))
        except AttributeError:
            fObj = None
        if fObj is not None:
            # pass the namespace along
            return self._auto(fObj, proto, namespace)

        if namespace is not None:""")]),
('j-retrieve',[(J,"""        if self.optional:
            value = d.get(name)
            if value is not None:
                del d[name]
        else:
            value = d.pop(name)
        return value""","""        if not self.optional:
            return d.pop(name)
        return d.pop(name, None)""")]),
('j-frombox',[(J,"""        if self.optional and st is None:
            objects[name] = None
        else:
            objects[name] = self.fromStringProto(st, proto)""","""        missing = st is None and self.optional
        objects[name] = None if missing else self.fromStringProto(st, proto)"""),(J,"""        if self.optional and obj is None:
            # strings[name] = None
            return
        else:
            strings[name] = self.toStringProto(obj, proto)""","""        if not (self.optional and obj is None):
            strings[name] = self.toStringProto(obj, proto)""")]),
('j-listof',[(J,"""        L = []
        for inSingle in inObject:
            outString = self.subarg.toStringProto(inSingle, proto)
            assert self.delimiter not in outString
            L.append(outString)
""","""        L = [self.subarg.toStringProto(inSingle, proto) for inSingle in inObject]
        for outString in L:
            assert self.delimiter not in outString
"""),(J,"""        if not inString:
            return []
        strings = inString.split(self.delimiter)
        L = [self.subarg.fromStringProto(string, proto)
             for string in strings]
        return L""","""        values = []
        if inString:
            for string in inString.split(self.delimiter):
                values.append(self.subarg.fromStringProto(string, proto))
        return values""")]),
('j-juicelist',[(J,"""        boxes = parseString(six.ensure_binary(inString))
        values = [stringsToObjects(box, self.subargs, proto)
                  for box in boxes]
        return values""","""        return list(map(lambda box: stringsToObjects(box, self.subargs, proto),
                        parseString(six.ensure_binary(inString))))"""),(J,"""        return b''.join([
            objectsToStrings(objects, self.subargs, Box(), proto).serialize()
            for objects in inObject
        ])""","""        data = b''
        for objects in inObject:
            box = objectsToStrings(objects, self.subargs, Box(), proto)
            data += box.serialize()
        return data""")]),
('j-types',[(J,"        return str(int(inObject))","        return '%d' % (int(inObject),)"),(J,"""        if inString == 'True':
            return True
        elif inString == 'False':
            return False
        else:
            raise RuntimeError("Bad boolean value: %r" % (inString,))""","""        try:
            return {'True': True, 'False': False}[inString]
        except KeyError:
            raise RuntimeError("Bad boolean value: %r" % (inString,))"""),(J,"        if inObject:\n            return 'True'\n        else:\n            return 'False'","        return str(bool(inObject))")]),
('j-types2',[(J,"        return str(int(inObject))","        return format(int(inObject), 'd')"),(J,"        return six.ensure_str(base64.b64encode(inObject))","        return base64.b64encode(inObject).decode('ascii')"),(J,"""        if inString == 'True':
            return True
        elif inString == 'False':
            return False
        else:
            raise RuntimeError("Bad boolean value: %r" % (inString,))""","""        if inString not in ('True', 'False'):
            raise RuntimeError("Bad boolean value: %r" % (inString,))
        return inString == 'True'"""),(J,"        return six.ensure_str(inObject.encode(self.encoding), 'latin-1')","        encoded = inObject.encode(self.encoding)\n        return encoded.decode('latin-1')"),(J,"        return six.ensure_binary(inString, 'latin-1').decode(self.encoding)","        raw = inString.encode('latin-1')\n        return raw.decode(self.encoding)")]),
('j-meta',[(J,"""            re = newtype.reverseErrors = {}
            er = newtype.allErrors = {}
            # Errors declared by a base class are declared by this one too.
            for v, k in six.viewitems(newtype.errors):
                re[k] = v
                er[v] = k
            for v, k in six.viewitems(newtype.fatalErrors):
                re[k] = v
                er[v] = k
            return newtype""","""            allErrors = dict(newtype.errors)
            allErrors.update(newtype.fatalErrors)
            reverseErrors = {}
            for declared in (newtype.errors, newtype.fatalErrors):
                reverseErrors.update((code, error) for error, code in declared.items())
            newtype.allErrors = allErrors
            newtype.reverseErrors = reverseErrors
            return newtype""")]),
('j-cmdinit',[(J,"""        givenArgs = [normalizeKey(k) for k in kw.keys()]
        forgotten = []
        for name, arg in self.arguments:
            if normalizeKey(name) not in givenArgs and not arg.optional:
                forgotten.append(normalizeKey(name))
""","""        givenArgs = set(map(normalizeKey, kw))
        forgotten = [normalizeKey(name) for (name, arg) in self.arguments
                     if not arg.optional and normalizeKey(name) not in givenArgs]
"""),(J,"""            if len(forgotten) == 1:
                plural = 'an argument'
            else:
                plural = 'some arguments'
""","""            plural = 'an argument' if len(forgotten) == 1 else 'some arguments'
""")]),
('j-do',[(J,"""        if namespace is not None:
            cmd = namespace + ":" + self.commandName
        else:
            cmd = self.commandName
        def _massageError""","""        cmd = self.commandName
        if namespace is not None:
            cmd = '%s:%s' % (namespace, cmd)
        def _massageError"""),(J,"""        d = proto.sendBoxCommand(
            cmd, objectsToStrings(self.structured, self.arguments, self.commandType(),
                                  proto),
            requiresAnswer)
        if requiresAnswer:
            d.addCallback(stringsToObjects, self.response, proto)
            d.addCallback(self.addExtra, proto.transport)
            d.addErrback(_massageError)
        return d""","""        box = objectsToStrings(
            self.structured, self.arguments, self.commandType(), proto)
        d = proto.sendBoxCommand(cmd, box, requiresAnswer)
        if not requiresAnswer:
            return d
        def decode(response):
            objects = stringsToObjects(response, self.response, proto)
            return objects
        d.addCallback(decode)
        d.addCallback(self.addExtra, proto.transport)
        return d.addErrback(_massageError)""")]),
('j-massage',[(J,"            return Failure(self.reverseErrors.get(rje.errorCode, UnhandledRemoteJuiceError)(rje.description))","            try:\n                errorType = self.reverseErrors[rje.errorCode]\n            except KeyError:\n                errorType = UnhandledRemoteJuiceError\n            return Failure(errorType(rje.description))")]),
('j-massage2',[(J,"            return Failure(self.reverseErrors.get(rje.errorCode, UnhandledRemoteJuiceError)(rje.description))","            errorType = self.reverseErrors.get(rje.errorCode)\n            if errorType is None:\n                errorType = UnhandledRemoteJuiceError\n            raise errorType(rje.description)")]),
('j-switch',[(J,"""        def switchNow(ign):
            innerProto = self.protoToSwitchToFactory.buildProtocol(proto.transport.getPeer())
            proto._switchTo(innerProto, self.protoToSwitchToFactory)
            return ign
        def die(ign):
            proto.transport.loseConnection()
            return ign
        def handle(ign):
            self.protoToSwitchToFactory.clientConnectionFailed(None, Failure(CONNECTION_LOST))
            return ign
        return d.addCallbacks(switchNow, handle).addErrback(die)""","""        factory = self.protoToSwitchToFactory
        transport = proto.transport
        def switchNow(result):
            proto._switchTo(factory.buildProtocol(transport.getPeer()), factory)
            return result
        def handle(failure):
            factory.clientConnectionFailed(None, Failure(CONNECTION_LOST))
            return failure
        def die(failure):
            transport.loseConnection()
            return failure
        d.addCallbacks(switchNow, handle)
        d.addErrback(die)
        return d""")]),
('j-lineraw',[(J,"""        if line:
            self._requestBuffer.append(line)
        else:
            buf = self._requestBuffer
            self._requestBuffer = []
            bodylen, b = parseJuiceHeaders(buf)
            if bodylen:
                self._bodyRemaining = bodylen
                self._bodyBuffer = []
                self._pendingBox = b
                self.setRawMode()
            else:
                self.juiceBoxReceived(b)""","""        if line:
            self._requestBuffer.append(line)
            return
        headers, self._requestBuffer = self._requestBuffer, []
        bodylen, b = parseJuiceHeaders(headers)
        if not bodylen:
            self.juiceBoxReceived(b)
            return
        self.setRawMode()
        self._pendingBox = b
        self._bodyBuffer = []
        self._bodyRemaining = bodylen""")]),
('j-raw',[(J,"""        self._bodyRemaining -= len(data)
        if self._bodyRemaining <= 0:
            if self._bodyRemaining < 0:
                self._bodyBuffer.append(data[:self._bodyRemaining])
                extraData = data[self._bodyRemaining:]
            else:
                self._bodyBuffer.append(data)
                extraData = ''
            self""","""        wanted = self._bodyRemaining
        self._bodyRemaining -= len(data)
        if self._bodyRemaining <= 0:
            self._bodyBuffer.append(data[:wanted])
            extraData = data[wanted:]
            self"""),(J,"""            b, self._pendingBox = self._pendingBox, None
            self.juiceBoxReceived(b)
""","""            box = self._pendingBox
            self._pendingBox = None
            self.juiceBoxReceived(box)
"""),(J,"b''.join(six.ensure_binary(each) for each in self._bodyBuffer)","b''.join(self._bodyBuffer)")]),
('j-raw-early',[(J,"""        self._bodyRemaining -= len(data)
        if self._bodyRemaining <= 0:
            if self._bodyRemaining < 0:
                self._bodyBuffer.append(data[:self._bodyRemaining])
                extraData = data[self._bodyRemaining:]
            else:
                self._bodyBuffer.append(data)
                extraData = ''
            self""","""        missing = self._bodyRemaining
        if len(data) < missing:
            self._bodyRemaining = missing - len(data)
            self._bodyBuffer.append(data)
        else:
            self._bodyRemaining = 0
            extraData = data[missing:]
            self._bodyBuffer.append(data[:missing])
            self"""),(J,"""                self.setLineMode(extraData)
        else:
            self._bodyBuffer.append(data)
""","""                self.setLineMode(extraData)
""")]),
('j-tls',[(J,"""        if self.hostCertificate is None:
            self.hostCertificate = certificate
            self._justStartedTLS = True
            self.transport.startTLS(certificate.options(*verifyAuthorities))
            stlsb = self._startingTLSBuffer
            if stlsb is not None:
                self._startingTLSBuffer = None
                for box in stlsb:
                    self.sendPacket(box)
        else:
            raise RuntimeError(""","""        if self.hostCertificate is None:
            self.hostCertificate = certificate
            self._justStartedTLS = True
            options = certificate.options(*verifyAuthorities)
            self.transport.startTLS(options)
            pending, self._startingTLSBuffer = self._startingTLSBuffer, None
            for box in pending or ():
                self.sendPacket(box)
        else:
            raise RuntimeError("""),(J,"""        if self._startingTLSBuffer is not None:
            self._startingTLSBuffer.append(completeBox)
        else:
            if debug:
                log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
            result = completeBox.serialize()
            self.transport.write(result)""","""        if self._startingTLSBuffer is not None:
            self._startingTLSBuffer.append(completeBox)
            return
        if debug:
            log.msg("Juice send: %s" % (pprint.pformat(dict(completeBox)),))
        self.transport.write(completeBox.serialize())""")]),
('j-lost',[(J,"""        if self.innerProtocol is not None:
            self.innerProtocol.connectionLost(reason)
            if self.innerProtocolClientFactory is not None:
                self.innerProtocolClientFactory.clientConnectionLost(None, reason)""","""        inner = self.innerProtocol
        if inner is None:
            return
        inner.connectionLost(reason)
        factory = self.innerProtocolClientFactory
        if factory is not None:
            factory.clientConnectionLost(None, reason)""")]),
('j-neg',[(J,"""        for version in versions:
            if version in VERSIONS:
                return dict(version=version)
        raise IncompatibleVersions()""","""        common = [version for version in versions if version in VERSIONS]
        if not common:
            raise IncompatibleVersions()
        return {'version': common[0]}""")]),
('j-neg2',[(J,"""        for version in versions:
            if version in VERSIONS:
                return dict(version=version)
        raise IncompatibleVersions()""","""        version = next((v for v in versions if v in VERSIONS), None)
        if version is None:
            raise IncompatibleVersions()
        return {'version': version}"""),(J,"""        v = VERSIONS[:]
        v.remove(newVersion)
        return Negotiate(versions=[newVersion]).do(self).addCallback(
            lambda ver: self._setProtocolVersion(ver['version']))""","""        d = Negotiate(versions=[newVersion]).do(self)
        def negotiated(response):
            return self._setProtocolVersion(response['version'])
        d.addCallback(negotiated)
        return d""")]),
('j-objs',[(J,"""    myObjects = {}
    for (k, v) in objects.items():
        myObjects[normalizeKey(k)] = v
    for argname""","""    myObjects = {normalizeKey(k): v for k, v in six.iteritems(objects)}
    for argname"""),(J,"""    objects = {}
    myStrings = strings.copy()
    for argname""","""    objects = dict()
    myStrings = dict(strings)
    for argname""")]),
('j-pushback',[(J,"    parse = classmethod(parse)\n    def","    parse = classmethod(parse)\n    def") if 0 else (J,"        with io.BytesIO(data) as f:\n            return cls.parse(f)","        parser = cls()\n        parser.makeConnection(parser)\n        parser.dataReceived(data)\n        return parser.boxes")]),
('j-lockname',[(J,"    __locked = False\n","    _sendingLocked = False\n"),(J,"        self.__locked = True","        self._sendingLocked = True"),(J,"        return not self.__locked and super(Juice, self)._canReply()","        if self._sendingLocked:\n            return False\n        return super(Juice, self)._canReply()"),(J,"        if self.__locked and COMMAND in box and ASK in box:","        if self._sendingLocked and all(key in box for key in (COMMAND, ASK)):"),(J,"        assert not self.__locked,","        assert not self._sendingLocked,")]),
('j-assert',[(J,"        assert not self.__locked, \"You cannot send juice packets when a connection is locked\"","        if self.__locked:\n            raise AssertionError(\"You cannot send juice packets when a connection is locked\")")]),
('j-counter',[(J,"    _counter = long(0)\n\n    def _nextTag(self):\n        self._counter += 1\n        return '%x' % (self._counter,)","    def _nextTag(self):\n        return '%x' % (next(self._tags),)"),(J,"    def __init__(self):\n        self._outstandingRequests = {}\n\n    def _puke","    def __init__(self):\n        self._outstandingRequests = {}\n        self._tags = itertools.count(1)\n\n    def _puke"),(J,"import six","import itertools\nimport six")]),
]
