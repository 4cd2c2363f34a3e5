J='juice.py'; A='amprouter.py'; AU='ampauth.py'; LI='liner.py'
R=[
('l-loop',[(LI,"""        buffer = self.buffer
        buffer += data
        delimiter = self.delimiter
        begin = 0
        raw = False
        while self.lineMode:
            end = buffer.find(delimiter, begin)
            if end == -1:
                break
            line = buffer[begin:end]
            self.lineReceived(line)
            if self.isDisconnecting():
                self.buffer = b''
                return
            begin = end + len(delimiter)
        else:
            raw = True
        if begin:
            buffer = buffer[begin:]
        if raw:
            self.buffer = b''
            if self.isDisconnecting():
                return
            if buffer:
                self.rawDataReceived(buffer)
        else:
            self.buffer = buffer
""","""        pending = self.buffer + data
        while self.lineMode:
            if self.delimiter not in pending:
                self.buffer = pending
                return
            line, pending = pending.split(self.delimiter, 1)
            self.lineReceived(line)
            if self.isDisconnecting():
                self.buffer = b''
                return
        self.buffer = b''
        if pending and not self.isDisconnecting():
            self.rawDataReceived(pending)
""")]),
('l-part',[(LI,"""        buffer = self.buffer
        buffer += data
        delimiter = self.delimiter
        begin = 0
        raw = False
        while self.lineMode:
            end = buffer.find(delimiter, begin)
            if end == -1:
                break
            line = buffer[begin:end]
            self.lineReceived(line)
            if self.isDisconnecting():
                self.buffer = b''
                return
            begin = end + len(delimiter)
        else:
            raw = True
        if begin:
            buffer = buffer[begin:]
        if raw:
            self.buffer = b''
            if self.isDisconnecting():
                return
            if buffer:
                self.rawDataReceived(buffer)
        else:
            self.buffer = buffer
""","""        rest = b''.join([self.buffer, data])
        while self.lineMode:
            line, found, remainder = rest.partition(self.delimiter)
            if not found:
                break
            rest = remainder
            self.lineReceived(line)
            if self.isDisconnecting():
                self.buffer = b''
                return
        if self.lineMode:
            self.buffer = rest
            return
        self.buffer = b''
        if self.isDisconnecting() or not rest:
            return
        self.rawDataReceived(rest)
""")]),
('l-disc',[(LI,"""        if self.transport is None:
            # XXX This _ought_ to be horribly broken but in fact it is
            # not. TODO: Investigate further.  -glyph
            return False
        if self.transport.disconnecting:
            return True
        return False
""","""        transport = self.transport
        return transport is not None and bool(transport.disconnecting)
""")]),
('l-index',[(LI,"""            end = buffer.find(delimiter, begin)
            if end == -1:
                break
            line""","""            try:
                end = buffer.index(delimiter, begin)
            except ValueError:
                break
            line""")]),
('l-else',[(LI,"""        raw = False
        while self.lineMode:""","""        while self.lineMode:"""),(LI,"""        else:
            raw = True
        if begin:
            buffer = buffer[begin:]
        if raw:
""","""        buffer = buffer[begin:]
        if not self.lineMode:
""")]),
('j-raw2',[(J,"""        self._bodyRemaining -= len(data)
        if self._bodyRemaining <= 0:
            if self._bodyRemaining < 0:
                self._bodyBuffer.append(data[:self._bodyRemaining])
                extraData = data[self._bodyRemaining:]
            else:
                self._bodyBuffer.append(data)
                extraData = ''
            self._pendingBox['body'] = six.ensure_str(b''.join(six.ensure_binary(each) for each in self._bodyBuffer))
            self._bodyBuffer = None
            b, self._pendingBox = self._pendingBox, None
            self.juiceBoxReceived(b)
            if self.innerProtocol is not None:
                if extraData:
                    self.innerProtocol.dataReceived(extraData)
            else:
                self.setLineMode(extraData)
        else:
            self._bodyBuffer.append(data)
""","""        wanted = self._bodyRemaining
        chunk, extraData = data[:wanted], data[wanted:]
        self._bodyBuffer.append(chunk)
        self._bodyRemaining = wanted - len(chunk)
        if self._bodyRemaining:
            return
        self._finishBox(extraData)

    def _finishBox(self, extraData):
        box = self._pendingBox
        box[BODY] = six.ensure_str(
            b''.join(map(six.ensure_binary, self._bodyBuffer)))
        self._pendingBox = self._bodyBuffer = None
        self.juiceBoxReceived(box)
        inner = self.innerProtocol
        if inner is None:
            self.setLineMode(extraData)
        elif extraData:
            inner.dataReceived(extraData)
""")]),
('j-raw3',[(J,"""        self._bodyRemaining -= len(data)
        if self._bodyRemaining <= 0:
            if self._bodyRemaining < 0:
                self._bodyBuffer.append(data[:self._bodyRemaining])
                extraData = data[self._bodyRemaining:]
            else:
                self._bodyBuffer.append(data)
                extraData = ''
""","""        needed = min(self._bodyRemaining, len(data))
        self._bodyRemaining -= needed
        if self._bodyRemaining == 0:
            self._bodyBuffer.append(data[:needed])
            extraData = data[needed:]
""")]),
('j-raw4',[(J,"""        if self._bodyRemaining <= 0:
            if self._bodyRemaining < 0:
                self._bodyBuffer.append(data[:self._bodyRemaining])
                extraData = data[self._bodyRemaining:]
            else:
                self._bodyBuffer.append(data)
                extraData = ''
            self._pendingBox['body']""","""        if self._bodyRemaining > 0:
            self._bodyBuffer.append(data)
        else:
            excess = -self._bodyRemaining
            split = len(data) - excess
            self._bodyBuffer.append(data[:split])
            extraData = data[split:]
            self._pendingBox['body']"""),(J,"""                self.setLineMode(extraData)
        else:
            self._bodyBuffer.append(data)
""","""                self.setLineMode(extraData)
""")]),
('j-line2',[(J,"""        if line:
            self._requestBuffer.append(line)
        else:
            buf = self._requestBuffer
            self._requestBuffer = []
            bodylen, b = parseJuiceHeaders(buf)
            if bodylen:
                self._bodyRemaining = bodylen
                self._bodyBuffer = []
                self._pendingBox = b
                self.setRawMode()
            else:
                self.juiceBoxReceived(b)
""","""        if line:
            self._requestBuffer.append(line)
            return
        headers = self._requestBuffer[:]
        del self._requestBuffer[:]
        self._headersReceived(*parseJuiceHeaders(headers))

    def _headersReceived(self, bodyLength, box):
        if not bodyLength:
            self.juiceBoxReceived(box)
            return
        self._pendingBox, self._bodyBuffer = box, []
        self._bodyRemaining = bodyLength
        self.setRawMode()
""")]),
('j-lost2',[(J,"""        self.failAllOutgoing(reason)
        if self.innerProtocol is not None:
            self.innerProtocol.connectionLost(reason)
            if self.innerProtocolClientFactory is not None:
                self.innerProtocolClientFactory.clientConnectionLost(None, reason)
""","""        self.failAllOutgoing(reason)
        inner = self.innerProtocol
        if inner is None:
            return
        inner.connectionLost(reason)
        clientFactory = self.innerProtocolClientFactory
        if clientFactory is not None:
            clientFactory.clientConnectionLost(None, reason)
""")]),
('j-neg',[(J,"""        for version in versions:
            if version in VERSIONS:
                return dict(version=version)
        raise IncompatibleVersions()
""","""        acceptable = [each for each in versions if each in VERSIONS]
        if not acceptable:
            raise IncompatibleVersions()
        return {'version': acceptable[0]}
"""),(J,"""        v = VERSIONS[:]
        v.remove(newVersion)
        return Negotiate(versions=[newVersion]).do(self).addCallback(
            lambda ver: self._setProtocolVersion(ver['version']))
""","""        def negotiated(answer):
            return self._setProtocolVersion(answer['version'])
        d = Negotiate(versions=[newVersion]).do(self)
        return d.addCallback(negotiated)
""")]),
('j-neg2',[(J,"""        for version in versions:
            if version in VERSIONS:
                return dict(version=version)
        raise IncompatibleVersions()
""","""        version = next((v for v in versions if v in VERSIONS), None)
        if version is None:
            raise IncompatibleVersions()
        return dict(version=version)
""")]),
('j-objs2',[(J,"""    myObjects = {}
    for (k, v) in objects.items():
        myObjects[normalizeKey(k)] = v

    for argname, argparser in arglist:
        argparser.toBox(argname, strings, myObjects, proto)
    return strings
""","""    remaining = {normalizeKey(name): objects[name] for name in objects}
    for argument in arglist:
        name, converter = argument
        converter.toBox(name, strings, remaining, proto)
    return strings
"""),(J,"""    objects = {}
    myStrings = strings.copy()
    for argname, argparser in arglist:
        argparser.fromBox(argname, myStrings, objects, proto)
    return objects
""","""    objects, remaining = {}, strings.copy()
    for pair in arglist:
        pair[1].fromBox(pair[0], remaining, objects, proto)
    return objects
""")]),
('j-helper2',[(J,"""        p = cls()
        p.makeConnection(p)
        p.dataReceived(fileObj.read())
        return p.boxes
    parse = classmethod(parse)

    def parseString(cls, data):
        with io.BytesIO(data) as f:
            return cls.parse(f)
""","""        return cls._parseBytes(fileObj.read())
    parse = classmethod(parse)

    @classmethod
    def _parseBytes(cls, data):
        helper = cls()
        helper.makeConnection(helper)
        helper.dataReceived(data)
        return helper.boxes

    def parseString(cls, data):
        return cls._parseBytes(data)
""")]),
('j-fact',[(J,"""        prot = self.protocol(True)
        prot.factory = self
        return prot
""","""        return _buildJuice(self, issueGreeting=True)
"""),(J,"""        prot = self.protocol(False)
        prot.factory = self
        return prot
""","""        return _buildJuice(self, issueGreeting=False)
"""),(J,"""class JuiceServerFactory(ServerFactory):""","""def _buildJuice(factory, issueGreeting):
    protocol = factory.protocol(issueGreeting)
    protocol.factory = factory
    return protocol

class JuiceServerFactory(ServerFactory):""")]),
('j-switchto',[(J,"""        assert self.innerProtocol is None, "Protocol can only be safely switched once."
        self.setRawMode()
        self._lock()
        self.innerProtocol = newProto
        self.innerProtocolClientFactory = clientFactory
        newProto.makeConnection(self.transport)
""","""        if self.innerProtocol is not None:
            raise AssertionError("Protocol can only be safely switched once.")
        self.innerProtocolClientFactory = clientFactory
        self.innerProtocol = newProto
        self._lock()
        self.setRawMode()
        newProto.makeConnection(self.transport)
""")]),
('au-inline',[(AU,"""        d = self.portal.login(credentials, None, IBoxReceiver)
        def cbLoggedIn(result):
            interface, avatar, logout = result
            if self._disconnected:
                # There is no one left to use this session.
                logout()
                return {}
            previousLogout = self.logout
            if previousLogout is None:
                self.logout = logout
            else:
                # More than one login attempt was in progress.  Each of the
                # resulting sessions ends when the connection does.
                def logoutAll():
                    previousLogout()
                    logout()
                self.logout = logoutAll
            self.boxReceiver = avatar
            self.boxReceiver.startReceivingBoxes(self.boxSender)
            return {}
        d.addCallback(cbLoggedIn)
        return d
""","""        return self.portal.login(
            credentials, None, IBoxReceiver).addCallback(self._loggedIn)


    def _loggedIn(self, result):
        _, avatar, logout = result
        if self._disconnected:
            logout()
        else:
            self.logout = self._chainLogout(self.logout, logout)
            self.boxReceiver = avatar
            avatar.startReceivingBoxes(self.boxSender)
        return {}


    @staticmethod
    def _chainLogout(first, second):
        if first is None:
            return second
        def both():
            first()
            second()
        return both
""")]),
('au-lost',[(AU,"""        self._disconnected = True
        AMP.connectionLost(self, reason)
        if self.logout is not None:
            self.logout()
            self.boxReceiver = self.logout = None
""","""        self._disconnected = True
        AMP.connectionLost(self, reason)
        logout = self.logout
        if logout is None:
            return
        logout()
        self.logout = None
        self.boxReceiver = None
""")]),
('au-login2',[(AU,"""    if not IUsernamePassword.providedBy(credentials):
        raise UnhandledCredentials()
    d = client.callRemote(
        PasswordLogin, username=credentials.username)
    def cbChallenge(response):
        args = PasswordChallengeResponse.determineFrom(
            response['challenge'], credentials.password)
        d = client.callRemote(PasswordChallengeResponse, **args)
        return d.addCallback(lambda ignored: client)
    d.addCallback(cbChallenge)
    return d
""","""    if IUsernamePassword.providedBy(credentials):
        return _loginWithPassword(
            client, credentials.username, credentials.password)
    raise UnhandledCredentials()



@inlineCallbacks
def _loginWithPassword(client, username, password):
    answer = yield client.callRemote(PasswordLogin, username=username)
    arguments = PasswordChallengeResponse.determineFrom(
        answer['challenge'], password)
    yield client.callRemote(PasswordChallengeResponse, **arguments)
    returnValue(client)
"""),(AU,None,"from twisted.internet.defer import inlineCallbacks, returnValue\n")]),
('au-login3',[(AU,"""    d = client.callRemote(
        PasswordLogin, username=credentials.username)
    def cbChallenge(response):
        args = PasswordChallengeResponse.determineFrom(
            response['challenge'], credentials.password)
        d = client.callRemote(PasswordChallengeResponse, **args)
        return d.addCallback(lambda ignored: client)
    d.addCallback(cbChallenge)
    return d
""","""    def respond(answer):
        return client.callRemote(
            PasswordChallengeResponse,
            **PasswordChallengeResponse.determineFrom(
                answer['challenge'], credentials.password))
    d = client.callRemote(PasswordLogin, username=credentials.username)
    d.addCallback(respond)
    d.addCallback(lambda _: client)
    return d
""")]),
('au-calc',[(AU,"""    return sha1(b'%s %s %s' % (challenge, nonce, password)).digest()
""","""    digest = sha1(challenge)
    digest.update(b' ')
    digest.update(nonce)
    digest.update(b' ' + password)
    return digest.digest()
""")]),
('au-calc2',[(AU,"""    return sha1(b'%s %s %s' % (challenge, nonce, password)).digest()
""","""    message = b' '.join((challenge, nonce, password))
    return sha1(message).digest()
""")]),
('au-check',[(AU,"""        password = six.ensure_binary(password)
        correctResponse = _calcResponse(self.challenge, self.nonce, password)
        return correctResponse == self.response
""","""        expected = _calcResponse(
            self.challenge, self.nonce, six.ensure_binary(password))
        return not (self.response != expected)
""")]),
('au-hmac',[(AU,"""        correctResponse = _calcResponse(self.challenge, self.nonce, password)
        return correctResponse == self.response
""","""        correctResponse = _calcResponse(self.challenge, self.nonce, password)
        return compare_digest(correctResponse, self.response)
"""),(AU,None,"from hmac import compare_digest\n")]),
('au-otp',[(AU,"""        if credentials.padValue in self.pads:
            return self.pads.pop(credentials.padValue)
        raise UnauthorizedLogin('Unknown one-time pad')
""","""        try:
            return self.pads.pop(credentials.padValue)
        except KeyError:
            raise UnauthorizedLogin('Unknown one-time pad')
""")]),
('au-fact',[(AU,"""        proto = ServerFactory.buildProtocol(self, addr)
        proto.portal = self.portal
        return proto
""","""        receiver = super(CredAMPServerFactory, self).buildProtocol(addr)
        setattr(receiver, 'portal', self.portal)
        return receiver
"""),(AU,"""        self.challenge = secureRandom(16)
        self.username = username
        return {'challenge': self.challenge}
""","""        challenge = secureRandom(16)
        self.username, self.challenge = username, challenge
        return dict(challenge=challenge)
"""),(AU,"""        nonce = secureRandom(16)
        password = six.ensure_binary(password)
        response = _calcResponse(challenge, nonce, password)
        return dict(cnonce=nonce, response=response)
""","""        cnonce = secureRandom(16)
        return {
            'cnonce': cnonce,
            'response': _calcResponse(
                challenge, cnonce, six.ensure_binary(password)),
        }
""")]),
]
