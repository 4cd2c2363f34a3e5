From 1bcf67159506f2f513676de398f2e5dd2e53e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:40 +0000
Subject: [PATCH 01/39] fix: log out sessions of late and pipelined logins

A session the portal only grants after the connection was lost was never
logged out, and a second login in progress on the same connection dropped
the logout function of the first.
---
 epsilon/ampauth.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index ad0a3bb..8ad8f07 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -175,6 +175,7 @@ class CredReceiver(AMP):
     """
     portal = None
     logout = None
+    _disconnected = False
 
     @PasswordLogin.responder
     def passwordLogin(self, username):
@@ -193,7 +194,20 @@ class CredReceiver(AMP):
         d = self.portal.login(credentials, None, IBoxReceiver)
         def cbLoggedIn(result):
             interface, avatar, logout = result
-            self.logout = logout
+            if self._disconnected:
+                # There is no one left to use this session.
+                logout()
+                return {}
+            previousLogout = self.logout
+            if previousLogout is None:
+                self.logout = logout
+            else:
+                # More than one login attempt was in progress.  Each of the
+                # resulting sessions ends when the connection does.
+                def logoutAll():
+                    previousLogout()
+                    logout()
+                self.logout = logoutAll
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
             return {}
@@ -222,6 +236,7 @@ class CredReceiver(AMP):
         """
         If a login has happened, perform a logout.
         """
+        self._disconnected = True
         AMP.connectionLost(self, reason)
         if self.logout is not None:
             self.logout()
-- 
2.43.0


From ec1beac9fcc9ec9144b62c14ddcf411ba94db3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:26 +0000
Subject: [PATCH 02/39] fix: let a route be unbound before its router is
 started

Route.unbind failed with a TypeError because only the routes of a started
router were considered.
---
 epsilon/amprouter.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index dbb9f18..ee791ea 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -65,7 +65,7 @@ class Route(record('router receiver localRouteName remoteRouteName',
         """
         Remove the association between this route and its router.
         """
-        del self.router._routes[self.localRouteName]
+        del self.router._boundRoutes()[self.localRouteName]
 
 
     def start(self):
@@ -141,6 +141,15 @@ class Router:
         return six.text_type(next(self._routeCounter))
 
 
+    def _boundRoutes(self):
+        """
+        Return the mapping which currently holds the routes of this router.
+        """
+        if self._routes is None:
+            return self._unstarted
+        return self._routes
+
+
     def bindRoute(self, receiver, routeName=_unspecified):
         """
         Create a new route to associate the given route name with the given
@@ -158,10 +167,7 @@ class Router:
         # self._sender may yet be None; if so, this route goes into _unstarted
         # and will have its sender set correctly in startReceivingBoxes below.
         route = Route(self, receiver, routeName)
-        mapping = self._routes
-        if mapping is None:
-            mapping = self._unstarted
-        mapping[routeName] = route
+        self._boundRoutes()[routeName] = route
         return route
 
 
-- 
2.43.0


From a245a38287c6f2bbf4aa58d62cb2ced3ba297f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:26 +0000
Subject: [PATCH 03/39] fix: never generate a route identifier which is already
 bound

A generated identifier could equal an explicitly named route, which was then
displaced.
---
 epsilon/amprouter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index ee791ea..0bce93c 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -138,7 +138,10 @@ class Router:
 
         @rtype: C{unicode}
         """
-        return six.text_type(next(self._routeCounter))
+        while True:
+            routeName = six.text_type(next(self._routeCounter))
+            if routeName not in (self._boundRoutes() or ()):
+                return routeName
 
 
     def _boundRoutes(self):
-- 
2.43.0


From 5b9c7f8c26eb57b605ac234671e5046d452fb2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:26 +0000
Subject: [PATCH 04/39] fix: allow receivers to change routes while being
 started or stopped

Binding or unbinding a route from a receiver's startReceivingBoxes or
stopReceivingBoxes changed the dictionary being iterated over, and a route
connected while another was being started was started twice.
---
 epsilon/amprouter.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 0bce93c..bed5162 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -178,15 +178,20 @@ class Router:
         """
         Initialize route tracking objects.
         """
-        self._sender = sender
-        for routeName, route in six.viewitems(self._unstarted):
-            # Any route which has been bound but which does not yet have a
-            # remote route name should not yet be started.  These will be
-            # started in Route.connectTo.
-            if route.remoteRouteName is not _unspecified:
-                route.start()
+        # Any route which has been bound but which does not yet have a remote
+        # route name should not yet be started.  These will be started in
+        # Route.connectTo.
+        connected = [
+            route for route in six.viewvalues(self._unstarted)
+            if route.remoteRouteName is not _unspecified]
         self._routes = self._unstarted
         self._unstarted = None
+        self._sender = sender
+        for route in connected:
+            # Starting one receiver may well unbind the route of another.
+            if (self._routes is not None and
+                self._routes.get(route.localRouteName) is route):
+                route.start()
 
 
     def ampBoxReceived(self, box):
@@ -202,7 +207,7 @@ class Router:
         """
         Stop all the L{IBoxReceiver}s which have been added to this router.
         """
-        for routeName, route in six.viewitems(self._routes):
+        for route in list(six.viewvalues(self._routes)):
             route.stop(reason)
         self._routes = None
 
-- 
2.43.0


From 17af02683224d88fc42a853081f07618a3351c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:38 +0000
Subject: [PATCH 05/39] fix: keep the current mode of a modal object in its
 declared mode attribute

---
 epsilon/modal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index bfc4cb2..84b38c5 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -101,7 +101,7 @@ class ModalType(type):
         # for that mode.
         implementations = {}
 
-        keepAttrs = {'mode': initialMode}
+        keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
                 for (methName, methDef) in six.iteritems(v.__dict__):
@@ -130,6 +130,6 @@ class Modal(object):
 
     def transitionTo(self, stateName):
         self.__exit__()
-        self.mode = stateName
+        setattr(self, self.modeAttribute, stateName)
         self.__enter__()
 
-- 
2.43.0


From ddda350ae9fc8c8ceec0ef748410a361859151a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:39 +0000
Subject: [PATCH 06/39] fix: remember None, and never share values between
 remembered attributes

---
 epsilon/remember.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index 148c670..a3e26f1 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -7,6 +7,8 @@ related to a particular object.
 
 from epsilon.structlike import record
 
+_missing = object()
+
 class remembered(record('creationFunction')):
     """
     This descriptor decorator is applied to a function to create an attribute
@@ -26,9 +28,10 @@ class remembered(record('creationFunction')):
         Retrieve the value if already cached, otherwise, call the
         C{creationFunction} to create it.
         """
-        remembername = "_remembered_" + self.creationFunction.__name__
-        rememberedval = oself.__dict__.get(remembername, None)
-        if rememberedval is not None:
+        remembername = "_remembered_%s_%d" % (
+            self.creationFunction.__name__, id(self))
+        rememberedval = oself.__dict__.get(remembername, _missing)
+        if rememberedval is not _missing:
             return rememberedval
         rememberme = self.creationFunction(oself)
         oself.__dict__[remembername] = rememberme
-- 
2.43.0


From dec50207010469d49c287c3c5fa5242ef4027088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:05 +0000
Subject: [PATCH 07/39] fix: close the juice connection after an error declared
 fatal

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6a58863..5dad654 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -225,7 +225,7 @@ class DispatchMixin:
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-                        code, desc, error in command.fatalErrors))
+                        code, desc, key in command.fatalErrors))
             return maybeDeferred(aCallable, **kw).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
-- 
2.43.0


From 42d2602b66d0ee0c74555c35b75ee64f8ea006b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:06 +0000
Subject: [PATCH 08/39] fix: count the length of a juice body in bytes

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 5dad654..310c68e 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -65,7 +65,7 @@ class JuiceBox(dict):
         for (k, v) in six.viewitems(self):
             if k == BODY:
                 k = LENGTH
-                v = str(len(self[BODY]))
+                v = str(len(six.ensure_binary(self[BODY])))
             L.append(six.ensure_binary(k).replace(b'_', b'-').title())
             L.append(b': ')
             L.append(six.ensure_binary(v).replace(delimiter, escaped))
-- 
2.43.0


From 69d1036a25bde1647eff3cf1b9c5cd871b56704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:07 +0000
Subject: [PATCH 09/39] fix: deliver the body of a juice box even if it is
 empty

---
 epsilon/juice.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 310c68e..5bbde6a 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -297,7 +297,14 @@ def parseJuiceHeaders(lines):
         key, value = parts
         key = normalizeKey(key)
         b[key] = six.ensure_str(value)
-    return int(b.pop(LENGTH, 0)), b
+    length = b.pop(LENGTH, None)
+    if length is None:
+        return 0, b
+    length = int(length)
+    if length == 0:
+        # There is nothing left to read of the body.
+        b[BODY] = ''
+    return length, b
 
 class JuiceParserBase(DispatchMixin):
 
-- 
2.43.0


From 84f46082a054a216b426b2fc6fad4b86e681890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:08 +0000
Subject: [PATCH 10/39] fix: connect the protocol switched to by a box with a
 body only once

---
 epsilon/juice.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 5bbde6a..a038f00 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -916,7 +916,6 @@ class Juice(LineReceiver, JuiceParserBase, object):
             b, self._pendingBox = self._pendingBox, None
             self.juiceBoxReceived(b)
             if self.innerProtocol is not None:
-                self.innerProtocol.makeConnection(self.transport)
                 if extraData:
                     self.innerProtocol.dataReceived(extraData)
             else:
-- 
2.43.0


From 1bb0790a451fcd32e14b8e04323abc9c13eabf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:08 +0000
Subject: [PATCH 11/39] fix: send no juice box on a connection which was
 switched to another protocol

---
 epsilon/juice.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index a038f00..918e82a 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -321,6 +321,12 @@ class JuiceParserBase(DispatchMixin):
         if self.transport is not None:
             self.transport.loseConnection()
 
+    def _canReply(self):
+        """
+        Return whether the answer to a command can still be sent.
+        """
+        return self.transport is not None
+
     _counter = long(0)
 
     def _nextTag(self):
@@ -352,7 +358,7 @@ class JuiceParserBase(DispatchMixin):
             def sendAnswer(answerBox):
                 if ASK not in box:
                     return
-                if self.transport is None:
+                if not self._canReply():
                     return
                 answerBox[ANSWER] = box[ASK]
                 answerBox.sendTo(self)
@@ -375,7 +381,7 @@ class JuiceParserBase(DispatchMixin):
                 errorBox[ERROR] = box[ASK]
                 errorBox[ERROR_DESCRIPTION] = desc
                 errorBox[ERROR_CODE] = code
-                if self.transport is not None:
+                if self._canReply():
                     errorBox.sendTo(self)
                 return None # intentionally stop the error here: don't log the
                             # traceback if it's handled, do log it (earlier) if
@@ -786,6 +792,9 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
         self.__locked = True
 
+    def _canReply(self):
+        return not self.__locked and super(Juice, self)._canReply()
+
     innerProtocol = None
 
     def _switchTo(self, newProto, clientFactory=None):
@@ -796,6 +805,7 @@ class Juice(LineReceiver, JuiceParserBase, object):
 
         assert self.innerProtocol is None, "Protocol can only be safely switched once."
         self.setRawMode()
+        self._lock()
         self.innerProtocol = newProto
         self.innerProtocolClientFactory = clientFactory
         newProto.makeConnection(self.transport)
-- 
2.43.0


From 082a073436eb9aac7b60305a89cc534b4d1fd3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:09 +0000
Subject: [PATCH 12/39] fix: refuse commands unknown to a namespace as
 unhandled

---
 epsilon/juice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 918e82a..c117812 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -256,7 +256,9 @@ class DispatchMixin:
             # pass the namespace along
             return self._auto(fObj, proto, namespace)
 
-        assert namespace is None, 'Old-style parsing'
+        if namespace is not None:
+            # Old-style responders do not belong to any namespace.
+            return None
         # Fall back to simplistic command dispatching - we probably want to get
         # rid of this eventually, there's no reason to do extra work and write
         # fewer docs all the time.
-- 
2.43.0


From 24194cf674751caf349d669e3263446ece600e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:10 +0000
Subject: [PATCH 13/39] fix: transfer empty lists as juice arguments

---
 epsilon/juice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index c117812..c24f6ff 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -486,6 +486,8 @@ class ListOf(Argument):
         self.delimiter = delimiter
 
     def fromStringProto(self, inString, proto):
+        if not inString:
+            return []
         strings = inString.split(self.delimiter)
         L = [self.subarg.fromStringProto(string, proto)
              for string in strings]
@@ -497,6 +499,7 @@ class ListOf(Argument):
             outString = self.subarg.toStringProto(inSingle, proto)
             assert self.delimiter not in outString
             L.append(outString)
+        assert L != [''], "indistinguishable from an empty list"
         return self.delimiter.join(L)
 
 class Integer(Argument):
-- 
2.43.0


From 784afe1235661dff214f006f4e6f389b37e296a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:10 +0000
Subject: [PATCH 14/39] fix: encode and decode text and binary juice arguments
 on Python 3

---
 epsilon/juice.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index c24f6ff..b9465fc 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -1,6 +1,7 @@
 # -*- test-case-name: epsilon.test.test_juice -*-
 # Copyright 2005 Divmod, Inc.  See LICENSE file for details
 
+import base64
 import warnings, pprint
 import keyword
 import io
@@ -519,10 +520,10 @@ class EncodedString(Argument):
         self.encoding = encoding
 
     def toString(self, inObject):
-        return inObject.encode(self.encoding)
+        return six.ensure_str(inObject.encode(self.encoding), 'latin-1')
 
     def fromString(self, inString):
-        return inString.decode(self.encoding)
+        return six.ensure_binary(inString, 'latin-1').decode(self.encoding)
 
 # Temporary backwards compatibility for Exponent
 
@@ -531,11 +532,11 @@ Body = String
 class Unicode(String):
     def toString(self, inObject):
         # assert isinstance(inObject, unicode)
-        return String.toString(self, inObject.encode('utf-8'))
+        return String.toString(self, six.ensure_str(inObject, 'utf-8'))
 
     def fromString(self, inString):
         # assert isinstance(inString, str)
-        return String.fromString(self, inString).decode('utf-8')
+        return six.ensure_text(String.fromString(self, inString), 'utf-8')
 
 class Path(Unicode):
     def fromString(self, inString):
@@ -551,9 +552,9 @@ class Float(Argument):
 
 class Base64Binary(Argument):
     def toString(self, inObject):
-        return inObject.encode('base64').replace('\n', '')
+        return six.ensure_str(base64.b64encode(inObject))
     def fromString(self, inString):
-        return inString.decode('base64')
+        return base64.b64decode(inString)
 
 class Time(Argument):
     def toString(self, inObject):
-- 
2.43.0


From 32b0c3aa854c87306b525395b892cf667392a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:57 +0000
Subject: [PATCH 15/39] fix: Preparing juice for TLS twice no longer drops the
 boxes buffered so far

---
 epsilon/juice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index b9465fc..4d8c12e 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -861,7 +861,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
     _startingTLSBuffer = None
 
     def prepareTLS(self):
-        self._startingTLSBuffer = []
+        if self._startingTLSBuffer is None:
+            self._startingTLSBuffer = []
 
     def startTLS(self, certificate, *verifyAuthorities):
         if self.hostCertificate is None:
-- 
2.43.0


From 30e2186692a1db52bb289239b7ab75802c64e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:18 +0000
Subject: [PATCH 16/39] fix: ListOf refuses lists which its delimiter would
 split differently on the other side

---
 epsilon/juice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 4d8c12e..5c6d7cd 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -501,7 +501,9 @@ class ListOf(Argument):
             assert self.delimiter not in outString
             L.append(outString)
         assert L != [''], "indistinguishable from an empty list"
-        return self.delimiter.join(L)
+        joined = self.delimiter.join(L)
+        assert not L or joined.split(self.delimiter) == L, "ambiguous list"
+        return joined
 
 class Integer(Argument):
     fromString = int
-- 
2.43.0


From 445fafe33997b07f6ad265b5cdeb7f78a7250d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 17/39] fix: Times can be ordered and hashed on Python 3

---
 epsilon/extime.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 33b7103..419cd55 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -946,6 +946,21 @@ class Time(object):
     def __ne__(self, other):
         return not (self == other)
 
+    def __lt__(self, other):
+        return self.__cmp__(other) < 0
+
+    def __le__(self, other):
+        return self.__cmp__(other) <= 0
+
+    def __gt__(self, other):
+        return self.__cmp__(other) > 0
+
+    def __ge__(self, other):
+        return self.__cmp__(other) >= 0
+
+    def __hash__(self):
+        return hash(self._time)
+
     def __repr__(self):
         return 'extime.Time.fromDatetime(%r)' % (self._time,)
 
-- 
2.43.0


From b461fe1cb7aaf30e6491cbbe1c648a40421443bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 18/39] fix: The sign of an ISO 8601 offset applies to its
 minutes too

---
 epsilon/extime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 419cd55..35fd543 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -414,7 +414,12 @@ class Time(object):
                 tzhour = groups.pop('tzhour')
                 tzmin = groups.pop('tzmin')
                 if tzhour is not None:
-                    return FixedOffset(int(tzhour), int(tzmin or 0))
+                    tzmin = int(tzmin or 0)
+                    if tzmin > 59:
+                        raise ValueError('timezone minute must be in 0..59')
+                    if tzhour.startswith('-'):
+                        tzmin = -tzmin
+                    return FixedOffset(int(tzhour), tzmin)
             return tzinfo or FixedOffset(0, 0)
 
         def coerceGroups():
-- 
2.43.0


From 3d3bbe1160f33df1ca4aa221b99d62be9ca3f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 19/39] fix: FixedOffset.tzname returns a name, as datetime
 requires

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 35fd543..57a6b7e 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -90,7 +90,7 @@ class FixedOffset(datetime.tzinfo):
         return self.offset
 
     def tzname(self, dt):
-        return _timedeltaToSignHrMin(self.offset)
+        return '%s%02i:%02i' % _timedeltaToSignHrMin(self.offset)
 
     def dst(self, tz):
         return self._zeroOffset
-- 
2.43.0


From a70e30e11c81f0a1eefa00832c158e2fc8263a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 20/39] fix: ISO 8601 output of times with a resolution below a
 second keeps their fraction

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 57a6b7e..d3af3c7 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -791,7 +791,7 @@ class Time(object):
             ('%02i' % (dtime.hour,), datetime.timedelta(hours=1)),
             ('%s%02i' % (timeSep, dtime.minute), datetime.timedelta(minutes=1)),
             ('%s%02i' % (timeSep, dtime.second), datetime.timedelta(seconds=1)),
-            (microsecond, datetime.timedelta(microseconds=1)),
+            (microsecond, datetime.timedelta(microseconds=999999)),
             (timezone, datetime.timedelta(hours=1))
         ]
 
-- 
2.43.0


From 26b3b60fb3740c960329bf358022fcfbda5b9916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 21/39] fix: A fraction of a second that rounds up to the next
 second is accepted

---
 epsilon/extime.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index d3af3c7..6e4f9e5 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -511,7 +511,6 @@ class Time(object):
                     groups['hour'],
                     groups['minute'],
                     groups['second'],
-                    int(round(groups['fractionalsec'] * 1000000)),
                     tzinfo=tzinfo
                 )
                 dtime -= datetime.timedelta(days = dtime.weekday())
@@ -534,7 +533,6 @@ class Time(object):
                     groups['hour'],
                     groups['minute'],
                     groups['second'],
-                    int(round(groups['fractionalsec'] * 1000000)),
                     tzinfo=tzinfo
                 )
                 dtime += datetime.timedelta(days=groups['dayofyear']-1)
@@ -552,7 +550,6 @@ class Time(object):
                     groups['hour'],
                     groups['minute'],
                     groups['second'],
-                    int(round(groups['fractionalsec'] * 1000000)),
                     tzinfo=tzinfo
                 )
 
@@ -569,7 +566,9 @@ class Time(object):
             timezone = calculateTimezone()
         else:
             timezone = None
-        self = klass.fromDatetime(calculateDtime(timezone))
+        fraction = datetime.timedelta(
+            microseconds=int(round(groups['fractionalsec'] * 1000000)))
+        self = klass.fromDatetime(calculateDtime(timezone) + fraction)
         self.resolution = determineResolution()
         return self
 
-- 
2.43.0


From fc4f2235e851aafd7db580d0290b8a5df9c04266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 22/39] fix: ISO 8601 text for the year 9999 has a resolution,
 and unrepresentable times raise ValueError

---
 epsilon/extime.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 6e4f9e5..1c2fa99 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -5,6 +5,7 @@ Extended date/time formatting and miscellaneous functionality.
 See the class 'Time' for details.
 """
 
+import calendar
 import datetime
 import re
 
@@ -493,8 +494,9 @@ class Time(object):
                 nextMonth = self._time.replace(month=self._time.month+1)
                 return nextMonth - self._time
             else:
-                nextYear = self._time.replace(year=self._time.year+1)
-                return nextYear - self._time
+                if calendar.isleap(self._time.year):
+                    return datetime.timedelta(days=366)
+                return datetime.timedelta(days=365)
 
         def calculateDtime(tzinfo):
             """Calculate a datetime for the start of the addressed period."""
@@ -568,7 +570,11 @@ class Time(object):
             timezone = None
         fraction = datetime.timedelta(
             microseconds=int(round(groups['fractionalsec'] * 1000000)))
-        self = klass.fromDatetime(calculateDtime(timezone) + fraction)
+        try:
+            self = klass.fromDatetime(calculateDtime(timezone) + fraction)
+        except OverflowError:
+            raise ValueError(
+                '%r is not a representable time' % (iso8601string,))
         self.resolution = determineResolution()
         return self
 
-- 
2.43.0


From 3d8afed34ebd3553768c22c0349ded4173919beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 23/39] fix: 12:xx pm is the hour after noon

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 1c2fa99..638d7d6 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -231,7 +231,7 @@ class Time(object):
                 raise ValueError('hour %i is not in 1..12' % (hour,))
             if hour == 12 and ampm == 'am':
                 hour = 0
-            elif ampm == 'pm':
+            elif hour != 12 and ampm == 'pm':
                 hour += 12
         if not 0 <= hour <= 23:
             raise ValueError('hour %i is not in 0..23' % (hour,))
-- 
2.43.0


From 8c125a668324381920837490f151ff8dcfba7b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 24/39] fix: sanitizeStructTime knows how many days a month has

---
 epsilon/extime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 638d7d6..e8996c3 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -32,6 +32,8 @@ def sanitizeStructTime(struct):
     newstruct = []
     for value, maxValue, minValue in zip(struct[:6], maxValues, minValues):
         newstruct.append(max(minValue, min(value, maxValue)))
+    newstruct[2] = min(
+        newstruct[2], calendar.monthrange(newstruct[0], newstruct[1])[1])
     return tuple(newstruct) + struct[6:]
 
 def _timedeltaToSignHrMin(offset):
-- 
2.43.0


From 6fbd1fba9caa665bd5df47556858b7163b22013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:08 +0000
Subject: [PATCH 25/39] fix: benchmarks ask for timing, and are acknowledged,
 in bytes

On Python 3 the requests of a benchmark were never recognised and the
child was killed, and start() and stop() could not write theirs.
---
 epsilon/scripts/benchmark.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 1b28212..bcaf7e0 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -230,8 +230,8 @@ class Change(object):
 
 class BenchmarkProcess(BasicProcess):
 
-    START = '\0'
-    STOP = '\1'
+    START = b'\0'
+    STOP = b'\1'
 
 
     def __init__(self, *a, **kw):
@@ -266,7 +266,8 @@ class BenchmarkProcess(BasicProcess):
     def childDataReceived(self, childFD, data):
         if childFD == self.BACKCHANNEL_OUT:
             self.resetTimeout()
-            for byte in data:
+            for byte in six.iterbytes(data):
+                byte = six.int2byte(byte)
                 if byte == self.START:
                     self.startTiming()
                 elif byte == self.STOP:
-- 
2.43.0


From 83aaeb0066ff5518fe12419ac95cfd35c459c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 26/39] fix: find the device of the directory, not of one with
 a similar name

/home2 is not on the filesystem mounted at /home, and of filesystems
mounted on the same directory the last one is in use.
---
 epsilon/scripts/benchmark.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index bcaf7e0..c638338 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -425,9 +425,12 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     with io.open(procMounts, 'r') as f:
         for L in f:
             parts = L.split()
-            if cwd.startswith(parts[1]):
+            mountPoint = parts[1].rstrip('/') + '/'
+            if (cwd.rstrip('/') + '/').startswith(mountPoint):
                 possibilities.append((len(parts[1]), parts[0]))
-    possibilities.sort()
+    # The most specific mount point wins, and of several filesystems mounted
+    # there the last one, which hides the others.
+    possibilities.sort(key=lambda possibility: possibility[0])
     try:
         return possibilities[-1][-1]
     except IndexError:
-- 
2.43.0


From fc5bb42f1db5def8265d21e920b119a488bdc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:11 +0000
Subject: [PATCH 27/39] fix: report the results of a benchmark whose device
 appeared while it ran

---
 epsilon/scripts/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index c638338..391e0fe 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -363,7 +363,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
         tt = utils.FileWrapper(output)
         jj.makeConnection(tt)
 
-        if after.partition is not None:
+        if before.partition is not None and after.partition is not None:
             read_count = after.partition.readCount - before.partition.readCount
             read_sectors = after.partition.readSectorCount - before.partition.readSectorCount
             write_count = after.partition.writeCount - before.partition.writeCount
@@ -374,7 +374,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
             write_count = None
             write_sectors = None
 
-        if after.disk is not None:
+        if before.disk is not None and after.disk is not None:
             read_ms = after.disk.readMilliseconds - before.disk.readMilliseconds
             write_ms = after.disk.writeMilliseconds - before.disk.writeMilliseconds
         else:
-- 
2.43.0


From 9d0ae10ff81283e0d70cd4ec686e65ab3f9cc312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:23 +0000
Subject: [PATCH 28/39] fix: a Twisted without deferredGenerator needs no fix
 for it

---
 epsilon/hotfix.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/epsilon/hotfix.py b/epsilon/hotfix.py
index d8ad39d..ba6f272 100644
--- a/epsilon/hotfix.py
+++ b/epsilon/hotfix.py
@@ -30,17 +30,18 @@ def require(packageName, fixName):
             delayedcall_seconds.install()
     elif (packageName, fixName) == ('twisted', 'deferredgenerator_tfailure'):
         from twisted.internet import defer
-        result = []
-        def test():
-            d = defer.waitForDeferred(defer.succeed(1))
-            yield d
-            result.append(d.getResult())
-        defer.deferredGenerator(test)()
-        if result == [1]:
-            from epsilon.hotfixes import deferredgenerator_tfailure
-            deferredgenerator_tfailure.install()
-        else:
-            assert result == [None]
+        if hasattr(defer, 'deferredGenerator'):
+            result = []
+            def test():
+                d = defer.waitForDeferred(defer.succeed(1))
+                yield d
+                result.append(d.getResult())
+            defer.deferredGenerator(test)()
+            if result == [1]:
+                from epsilon.hotfixes import deferredgenerator_tfailure
+                deferredgenerator_tfailure.install()
+            else:
+                assert result == [None]
     elif (packageName, fixName) == ("twisted", "proto_helpers_stringtransport"):
         from twisted.test.proto_helpers import StringTransport
         st = StringTransport()
-- 
2.43.0


From 4b864a1e03b9d8ee6624288d8f4213c63f86eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:48 +0000
Subject: [PATCH 29/39] fix: tracers can be uninstalled and spewers can print
 arguments

---
 epsilon/spewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f11d032..f569c77 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -22,7 +22,7 @@ class Tracer(object):
     def uninstall(self):
         self.installed = False
         sys.settrace(None)
-        threading.setttrace(None)
+        threading.settrace(None)
 
     def toggle(self):
         if self.installed:
@@ -66,7 +66,7 @@ def extractArgs(frame):
 
 
 def formatArgs(args):
-    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.iteritems()])
+    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.items()])
 
 
 class Spewer(Tracer):
-- 
2.43.0


From 7c72587d1e33445323fdf726ca44f57e26bf1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 30/39] fix: epsilon.process can be imported on current Pythons

imp and zope.interface.implements are gone.
---
 epsilon/process.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 3a4c2c7..369198e 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -5,9 +5,13 @@
 Process and stdio related functionality.
 """
 
-import os, sys, imp
+import os, sys
 
-from zope.interface import implements
+try:
+    from importlib.util import find_spec
+except ImportError:
+    find_spec = None
+    import imp
 
 from twisted.internet import reactor
 from twisted.application.service import IService, Service
@@ -16,6 +20,21 @@ from twisted.internet.stdio import StandardIO
 from epsilon.structlike import record
 
 
+def _findModule(name):
+    """
+    Return the path of the named top-level package or module.
+    """
+    if find_spec is None:
+        return imp.find_module(name)[1]
+    spec = find_spec(name)
+    if spec is None:
+        raise ImportError("No module named %s" % (name,))
+    if spec.submodule_search_locations:
+        return list(spec.submodule_search_locations)[0]
+    return spec.origin
+
+
+
 def spawnProcess(processProtocol, executable, args=(), env={},
                  path=None, uid=None, gid=None, usePTY=0,
                  packages=()):
@@ -31,7 +50,7 @@ def spawnProcess(processProtocol, executable, args=(), env={},
 
     pythonpath = []
     for pkg in packages:
-        p = os.path.split(imp.find_module(pkg)[1])[0]
+        p = os.path.split(_findModule(pkg))[0]
         if p.startswith(os.path.join(sys.prefix, 'lib')):
             continue
         pythonpath.append(p)
-- 
2.43.0


From f68296cd7fa9be94b0c4567c5f38ee523cd45564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:02 +0000
Subject: [PATCH 31/39] fix: no names of Python 2 in caseless and asplode

---
 epsilon/asplode.py  | 2 +-
 epsilon/caseless.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/epsilon/asplode.py b/epsilon/asplode.py
index f04e56a..4a27211 100644
--- a/epsilon/asplode.py
+++ b/epsilon/asplode.py
@@ -21,7 +21,7 @@ def splode(linerator, proj, capproj):
                 os.makedirs(os.path.dirname(fname))
             except:
                 pass
-            current = file(fname, 'wb')
+            current = open(fname, 'w')
             status('Created: ' + fname)
         else:
             current.write(line)
diff --git a/epsilon/caseless.py b/epsilon/caseless.py
index 79a46d4..947b733 100644
--- a/epsilon/caseless.py
+++ b/epsilon/caseless.py
@@ -3,6 +3,8 @@
 Helpers for case-insensitive string handling.
 """
 
+import six
+
 class Caseless(object):
     """
     Case-insensitive string wrapper type.
@@ -54,7 +56,7 @@ class Caseless(object):
 
 
     def __unicode__(self):
-        return unicode(self.cased)
+        return six.text_type(self.cased)
 
 
     def __len__(self):
@@ -88,7 +90,8 @@ class Caseless(object):
     # Methods delegated to lower()
 
     def __cmp__(self, other):
-        return cmp(self.lower(), other.lower())
+        mine, theirs = self.lower(), other.lower()
+        return (mine > theirs) - (mine < theirs)
 
     def __eq__(self, other):
         return self.lower() == other.lower()
-- 
2.43.0


From 66032aa3dab069efe7cb3998218b996a4cdf4eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:36 +0000
Subject: [PATCH 32/39] fix: juice commands honour the errors declared by their
 base commands

---
 epsilon/juice.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 5c6d7cd..57aacec 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -612,15 +612,17 @@ class Boolean(Argument):
 
 class _CommandMeta(type):
         def __new__(cls, name, bases, attrs):
-            re = attrs['reverseErrors'] = {}
-            er = attrs['allErrors'] = {}
-            for v, k in six.viewitems(attrs.get('errors',{})):
+            newtype = type.__new__(cls, name, bases, attrs)
+            re = newtype.reverseErrors = {}
+            er = newtype.allErrors = {}
+            # Errors declared by a base class are declared by this one too.
+            for v, k in six.viewitems(newtype.errors):
                 re[k] = v
                 er[v] = k
-            for v, k in six.viewitems(attrs.get('fatalErrors',{})):
+            for v, k in six.viewitems(newtype.fatalErrors):
                 re[k] = v
                 er[v] = k
-            return type.__new__(cls, name, bases, attrs)
+            return newtype
 
 
 @six.add_metaclass(_CommandMeta)
-- 
2.43.0


From f728398bd0d381abbff0594742825f2ea9449fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:55 +0000
Subject: [PATCH 33/39] fix: spewers show every argument of a call and keep the
 right depth after exceptions

---
 epsilon/spewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f569c77..ebc2c3e 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -55,7 +55,7 @@ class Tracer(object):
 def extractArgs(frame):
     co = frame.f_code
     dict = frame.f_locals
-    n = co.co_argcount
+    n = co.co_argcount + getattr(co, 'co_kwonlyargcount', 0)
     if co.co_flags & 4: n = n+1
     if co.co_flags & 8: n = n+1
     result = {}
@@ -105,7 +105,7 @@ class Spewer(Tracer):
             id(threading.currentThread()),
             self.callDepth * ' ',
             reflect.safe_repr(arg),))
-        self.callDepth = max(0, self.callDepth - 1)
+        # The frame is left only with the return event which follows.
 
 
 class SignalService(service.Service):
-- 
2.43.0


From 45d191c3ab5238301c5664b65c7d64068f314b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:24 +0000
Subject: [PATCH 34/39] fix: a scheduling service says whether it is running

---
 epsilon/cooperator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/cooperator.py b/epsilon/cooperator.py
index a6b6113..a68b53c 100644
--- a/epsilon/cooperator.py
+++ b/epsilon/cooperator.py
@@ -22,10 +22,12 @@ class SchedulingService(Service):
         return self.coop.coiterate(iterator)
 
     def startService(self):
+        Service.startService(self)
         self.coop.start()
 
     def stopService(self):
         self.coop.stop()
+        return Service.stopService(self)
 
 __all__ = [
     'SchedulerStopped', 'Cooperator',
-- 
2.43.0


From 9a3bc50acdca0d2f9bb0a2bd7517667179aa07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:27 +0000
Subject: [PATCH 35/39] fix: autosetup crashed in a directory with a plugins
 directory or __init__.py of its own

The current directory was then taken for a package with an empty name, and
listing it failed.
---
 epsilon/setuphelper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/setuphelper.py b/epsilon/setuphelper.py
index 479e503..884fc37 100644
--- a/epsilon/setuphelper.py
+++ b/epsilon/setuphelper.py
@@ -40,6 +40,9 @@ def autosetup(**kw):
 
     for (dirpath, dirnames, filenames) in os.walk(os.curdir):
         dirnames[:] = [p for p in dirnames if not p.startswith('.')]
+        if dirpath == os.curdir:
+            # Only directories below it can be packages
+            continue
         pkgName = dirpath[2:].replace('/', '.')
         if '__init__.py' in filenames:
             # The current directory is a Python package
-- 
2.43.0


From 226544c1db7db8bcc3ce4e5136637cda283b7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 36/39] fix: log out even if the avatar fails when told that
 its connection is lost

---
 epsilon/ampauth.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index 8ad8f07..c08bb9f 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -237,10 +237,12 @@ class CredReceiver(AMP):
         If a login has happened, perform a logout.
         """
         self._disconnected = True
-        AMP.connectionLost(self, reason)
-        if self.logout is not None:
-            self.logout()
-            self.boxReceiver = self.logout = None
+        try:
+            AMP.connectionLost(self, reason)
+        finally:
+            if self.logout is not None:
+                self.logout()
+                self.boxReceiver = self.logout = None
 
 
 
-- 
2.43.0


From b35297d5d4a4c505009f0d5840db415dd0ce2840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 37/39] fix: the repaired Clock sorts its calls on Python 3

---
 epsilon/hotfixes/internet_task_clock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/hotfixes/internet_task_clock.py b/epsilon/hotfixes/internet_task_clock.py
index 6027967..acb6733 100644
--- a/epsilon/hotfixes/internet_task_clock.py
+++ b/epsilon/hotfixes/internet_task_clock.py
@@ -15,7 +15,7 @@ def callLater(self, when, what, *a, **kw):
                            lambda c: None,
                            self.seconds)
     self.calls.append(dc)
-    self.calls.sort(lambda a, b: cmp(a.getTime(), b.getTime()))
+    self.calls.sort(key=lambda c: c.getTime())
     return dc
 
 def clockIsBroken():
-- 
2.43.0


From 05bc9479aefdf80f7090a2a7f6ee9b3235f54abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 38/39] fix: the closest declaration of a juice error applies

---
 epsilon/juice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 57aacec..050bf14 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -223,6 +223,11 @@ class DispatchMixin:
 #                 return result
             def checkKnownErrors(error):
                 key = error.trap(*command.allErrors)
+                # The closest declaration applies, whatever their order.
+                for errorType in error.type.__mro__:
+                    if errorType in command.allErrors:
+                        key = errorType
+                        break
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-- 
2.43.0


From 9eecec8dfbf8ea85dbdf9c107a77861c59ecc999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:32 +0000
Subject: [PATCH 39/39] fix: end the other session too if one logout fails

---
 epsilon/ampauth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index c08bb9f..b4f65a9 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -205,8 +205,10 @@ class CredReceiver(AMP):
                 # More than one login attempt was in progress.  Each of the
                 # resulting sessions ends when the connection does.
                 def logoutAll():
-                    previousLogout()
-                    logout()
+                    try:
+                        previousLogout()
+                    finally:
+                        logout()
                 self.logout = logoutAll
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
-- 
2.43.0

