A='ampauth.py'; O='amprouter.py'; L='liner.py'
R=[
('login-helper',[(A,"""        d = self.portal.login(credentials, None, IBoxReceiver)
        def cbLoggedIn(result):
            interface, avatar, logout = result
""","""        d = self.portal.login(credentials, None, IBoxReceiver)
        d.addCallback(self._loggedIn)
        return d


    def _loggedIn(self, result):
            (interface, avatar, logout) = result
"""),(A,"""            return {}
        d.addCallback(cbLoggedIn)
        return d
""","""            return {}
""")]),
('login-restructure',[(A,"""            previousLogout = self.logout
            if previousLogout is None:
                self.logout = logout
            else:
                # More than one login attempt was in progress.  Each of the
                # resulting sessions ends when the connection does.
                def logoutAll():
                    previousLogout()
                    logout()
                self.logout = logoutAll
""","""            self.logout = self._combineLogouts(self.logout, logout)
"""),(A,"""    def _login(self, credentials):
""","""    @staticmethod
    def _combineLogouts(*logouts):
        logouts = [each for each in logouts if each is not None]
        if len(logouts) == 1:
            return logouts[0]
        def logoutAll():
            for each in logouts:
                each()
        return logoutAll


    def _login(self, credentials):
""")]),
('login-attrs',[(A,"            interface, avatar, logout = result\n","            avatar = result[1]\n            logout = result[2]\n"),
 (A,"            self.boxReceiver = avatar\n            self.boxReceiver.startReceivingBoxes(self.boxSender)\n            return {}","            self.boxReceiver = avatar\n            avatar.startReceivingBoxes(self.boxSender)\n            return dict()"),
 (A,"        if self.logout is not None:\n            self.logout()\n            self.boxReceiver = self.logout = None","        logout = self.logout\n        if logout is None:\n            return\n        logout()\n        self.boxReceiver = None\n        self.logout = None")]),
('pad-try',[(A,"""        if credentials.padValue in self.pads:
            return self.pads.pop(credentials.padValue)
        raise UnauthorizedLogin('Unknown one-time pad')""","""        pad = credentials.padValue
        try:
            avatarId = self.pads.pop(pad)
        except KeyError:
            raise UnauthorizedLogin('Unknown one-time pad')
        else:
            return avatarId""")]),
('pad-neg',[(A,"""        if credentials.padValue in self.pads:
            return self.pads.pop(credentials.padValue)
        raise UnauthorizedLogin('Unknown one-time pad')""","""        if credentials.padValue not in self.pads:
            raise UnauthorizedLogin('Unknown one-time pad')
        avatarId = self.pads[credentials.padValue]
        del self.pads[credentials.padValue]
        return avatarId""")]),
('pad-sentinel',[(A,"""        if credentials.padValue in self.pads:
            return self.pads.pop(credentials.padValue)
        raise UnauthorizedLogin('Unknown one-time pad')""","""        avatarId = self.pads.pop(credentials.padValue, _missing)
        if avatarId is _missing:
            raise UnauthorizedLogin('Unknown one-time pad')
        return avatarId"""),(A,"class UnhandledCredentials(Exception):","_missing = object()\n\nclass UnhandledCredentials(Exception):")]),
('calc-join',[(A,"    return sha1(b'%s %s %s' % (challenge, nonce, password)).digest()","    message = b' '.join([challenge, nonce, password])\n    return sha1(message).digest()")]),
('calc-update',[(A,"    return sha1(b'%s %s %s' % (challenge, nonce, password)).digest()","    digest = sha1()\n    for n, part in enumerate((challenge, nonce, password)):\n        if n:\n            digest.update(b' ')\n        digest.update(part)\n    return digest.digest()")]),
('calc-plus',[(A,"    return sha1(b'%s %s %s' % (challenge, nonce, password)).digest()","    h = sha1(challenge + b' ' + nonce + b' ')\n    h.update(password)\n    return h.digest()")]),
('check-const',[(A,"        return correctResponse == self.response","        return hmac.compare_digest(correctResponse, self.response)"),(A,"from hashlib import sha1\n","import hmac\nfrom hashlib import sha1\n")]),
('check-if',[(A,"        return correctResponse == self.response","        if correctResponse != self.response:\n            return False\n        return True"),(A,"""        password = six.ensure_binary(password)
        correctResponse""","""        if isinstance(password, six.text_type):
            password = password.encode('utf-8')
        correctResponse""")]),
('determine-lit',[(A,"        return dict(cnonce=nonce, response=response)","        return {'cnonce': nonce, 'response': response}"),(A,"        nonce = secureRandom(16)\n        password = six.ensure_binary(password)\n","        password = six.ensure_binary(password)\n        nonce = secureRandom(_NONCE_LENGTH)\n"),(A,"def _errors():","_NONCE_LENGTH = 16\n\ndef _errors():"),(A,"        self.challenge = secureRandom(16)\n        self.username = username\n        return {'challenge': self.challenge}","        challenge = secureRandom(_NONCE_LENGTH)\n        self.username, self.challenge = username, challenge\n        return dict(challenge=challenge)")]),
('pair-state',[(A,"        self.challenge = secureRandom(16)\n        self.username = username\n        return {'challenge': self.challenge}","        self._attempt = (username, secureRandom(16))\n        return {'challenge': self._attempt[1]}"),(A,"        return self._login(_AMPUsernamePassword(\n            self.username, self.challenge, cnonce, response))","        username, challenge = self._attempt\n        credentials = _AMPUsernamePassword(\n            username=username, challenge=challenge, nonce=cnonce, response=response)\n        return self._login(credentials)")]),
('login-inline',[(A,"""    d = client.callRemote(
        PasswordLogin, username=credentials.username)
    def cbChallenge(response):
        args = PasswordChallengeResponse.determineFrom(
            response['challenge'], credentials.password)
        d = client.callRemote(PasswordChallengeResponse, **args)
        return d.addCallback(lambda ignored: client)
    d.addCallback(cbChallenge)
    return d""","""    def respond(response):
        args = PasswordChallengeResponse.determineFrom(
            response['challenge'], credentials.password)
        return client.callRemote(PasswordChallengeResponse, **args)

    def done(ignored):
        return client

    d = client.callRemote(
        PasswordLogin, username=credentials.username)
    return d.addCallback(respond).addCallback(done)""")]),
('login-inlinecb',[(A,"""    d = client.callRemote(
        PasswordLogin, username=credentials.username)
    def cbChallenge(response):
        args = PasswordChallengeResponse.determineFrom(
            response['challenge'], credentials.password)
        d = client.callRemote(PasswordChallengeResponse, **args)
        return d.addCallback(lambda ignored: client)
    d.addCallback(cbChallenge)
    return d""","""    return _login(client, credentials)


@inlineCallbacks
def _login(client, credentials):
    response = yield client.callRemote(
        PasswordLogin, username=credentials.username)
    args = PasswordChallengeResponse.determineFrom(
        response['challenge'], credentials.password)
    yield client.callRemote(PasswordChallengeResponse, **args)
    return client"""),(A,"from epsilon.iepsilon import IOneTimePad","from twisted.internet.defer import inlineCallbacks\nfrom epsilon.iepsilon import IOneTimePad")]),
('login-partial',[(A,"    d.addCallback(cbChallenge)\n    return d","    d.addCallbacks(cbChallenge, None)\n    return d"),(A,"        return d.addCallback(lambda ignored: client)","        d.addCallback(lambda ignored, result=client: result)\n        return d")]),
('factory-super',[(A,"        proto = ServerFactory.buildProtocol(self, addr)\n        proto.portal = self.portal\n        return proto","        protocol = super().buildProtocol(addr)\n        setattr(protocol, 'portal', self.portal)\n        return protocol")]),
('errors-const',[(A,"""def _errors():
    return {
        # Invalid username or password
        UnauthorizedLogin: b'UNAUTHORIZED_LOGIN',
        # No IBoxReceiver avatar
        NotImplementedError: b'NOT_IMPLEMENTED_ERROR',
    }""","""def _errors():
    errors = {}
    for error, code in [(UnauthorizedLogin, b'UNAUTHORIZED_LOGIN'),
                        (NotImplementedError, b'NOT_IMPLEMENTED_ERROR')]:
        errors[error] = code
    return errors""")]),
# router
('r-loop',[(O,"""        while True:
            routeName = six.text_type(next(self._routeCounter))
            if routeName not in (self._boundRoutes() or ()):
                return routeName""","""        bound = self._boundRoutes() or {}
        for number in self._routeCounter:
            routeName = u'%d' % (number,)
            if routeName in bound:
                continue
            return routeName""")]),
('r-start',[(O,"""        connected = [
            route for route in six.viewvalues(self._unstarted)
            if route.remoteRouteName is not _unspecified]
        self._routes = self._unstarted
        self._unstarted = None
        self._sender = sender
        for route in connected:""","""        self._sender = sender
        self._routes, self._unstarted = self._unstarted, None
        connected = []
        for route in self._routes.values():
            if route.remoteRouteName is _unspecified:
                continue
            connected.append(route)
        for route in connected:""")]),
('r-filter',[(O,"""        connected = [
            route for route in six.viewvalues(self._unstarted)
            if route.remoteRouteName is not _unspecified]
""","""        connected = list(filter(self._isConnected, self._unstarted.values()))
"""),(O,"    def ampBoxReceived(self, box):","""    @staticmethod
    def _isConnected(route):
        return route.remoteRouteName is not _unspecified


    def ampBoxReceived(self, box):""")]),
('r-recv',[(O,"""        route = box.pop(_ROUTE, None)
        self._routes[route].receiver.ampBoxReceived(box)""","""        if _ROUTE in box:
            routeName = box.pop(_ROUTE)
        else:
            routeName = None
        route = self._routes[routeName]
        receiver = route.receiver
        receiver.ampBoxReceived(box)""")]),
('r-stop',[(O,"""        for route in list(six.viewvalues(self._routes)):
            route.stop(reason)
        self._routes = None""","""        routes = tuple(self._routes.values())
        for route in routes:
            route.stop(reason)
        self._routes = None""")]),
('r-send',[(O,"""        if self.remoteRouteName is _unspecified:
            raise RouteNotConnected()
        if self.remoteRouteName is not None:
            box[_ROUTE] = self.remoteRouteName
        self.router._sender.sendBox(box)""","""        name = self.remoteRouteName
        if name is not _unspecified:
            if name is not None:
                box.update({_ROUTE: name})
            self.router._sender.sendBox(box)
        else:
            raise RouteNotConnected()""")]),
('r-unbind',[(O,"        del self.router._boundRoutes()[self.localRouteName]","        self.router._boundRoutes().pop(self.localRouteName)")]),
('r-bind',[(O,"""        if routeName is _unspecified:
            routeName = self.createRouteIdentifier()
""","""        name = (self.createRouteIdentifier() if routeName is _unspecified
                else routeName)
"""),(O,"        route = Route(self, receiver, routeName)\n        self._boundRoutes()[routeName] = route\n        return route","        route = Route(self, receiver, name)\n        self._boundRoutes().update([(name, route)])\n        return route")]),
('r-bound',[(O,"        if self._routes is None:\n            return self._unstarted\n        return self._routes","        return self._unstarted if self._routes is None else self._routes")]),
# liner
('l-split',[(L,"""        while self.lineMode:
            end = buffer.find(delimiter, begin)
            if end == -1:
                break
            line = buffer[begin:end]
            self.lineReceived(line)
            if self.isDisconnecting():
                self.buffer = b''
                return
            begin = end + len(delimiter)
        else:
            raw = True
        if begin:
            buffer = buffer[begin:]
""","""        while True:
            if not self.lineMode:
                raw = True
                break
            end = buffer.find(delimiter)
            if end < 0:
                break
            line, buffer = buffer[:end], buffer[end + len(delimiter):]
            self.lineReceived(line)
            if self.isDisconnecting():
                self.buffer = b''
                return
""")]),
('l-part',[(L,"""        while self.lineMode:
            end = buffer.find(delimiter, begin)
            if end == -1:
                break
            line = buffer[begin:end]
            self.lineReceived(line)
            if self.isDisconnecting():
                self.buffer = b''
                return
            begin = end + len(delimiter)
        else:
            raw = True
        if begin:
            buffer = buffer[begin:]
""","""        while self.lineMode:
            line, found, rest = buffer.partition(delimiter)
            if not found:
                break
            buffer = rest
            self.lineReceived(line)
            if self.isDisconnecting():
                self.buffer = b''
                return
        else:
            raw = True
""")]),
('l-index',[(L,"""            end = buffer.find(delimiter, begin)
            if end == -1:
                break
""","""            try:
                end = buffer.index(delimiter, begin)
            except ValueError:
                break
""")]),
('l-spl1',[(L,"""            end = buffer.find(delimiter, begin)
            if end == -1:
                break
            line = buffer[begin:end]
""","""            if delimiter not in buffer[begin:]:
                break
            line = buffer[begin:].split(delimiter, 1)[0]
            end = begin + len(line)
""")]),
('l-disc',[(L,"""        if self.transport is None:
            # XXX This _ought_ to be horribly broken but in fact it is
            # not. TODO: Investigate further.  -glyph
            return False
        if self.transport.disconnecting:
            return True
        return False""","""        transport = self.transport
        return transport is not None and bool(transport.disconnecting)""")]),
('l-raw',[(L,"""        if raw:
            self.buffer = b''
            if self.isDisconnecting():
                return
            if buffer:
                self.rawDataReceived(buffer)
        else:
            self.buffer = buffer""","""        if not raw:
            self.buffer = buffer
            return
        self.buffer = b''
        if buffer and not self.isDisconnecting():
            self.rawDataReceived(buffer)""")]),
]
