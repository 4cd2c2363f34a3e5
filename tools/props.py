"""Single source for /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))


AA = 'epsilon/ampauth.py'
AR = 'epsilon/amprouter.py'
JU = 'epsilon/juice.py'
LI = 'epsilon/liner.py'
XT = 'epsilon/extime.py'
SL = 'epsilon/structlike.py'
BE = 'epsilon/scripts/benchmark.py'

# ---------------------------------------------------------------- ampauth
p('C01', 'Login challenges are fresh, random and bound to the last login request',
  'Every password-login request on a connection is answered with a challenge newly drawn, for that request, from the secure random source (16 bytes or more). '
  'A later proof on that connection is judged against exactly the username and challenge of the most recent such request on the same connection, never an older one and never one of another connection.',
  ['histories', 'inputs'], 'all sequences of login requests and proofs on one or more connections, all usernames, nonces and responses',
  'the tests issue one or two login requests with one username and compare two challenges for inequality',
  [AA], [('challenge generation and storage', 'ampauth.CredReceiver.passwordLogin'), ('credential construction', 'ampauth.CredReceiver.passwordChallengeResponse')],
  [('challenge/username', 'last issued challenge and claimed username', 'CredReceiver instance')], ['reply to PasswordLogin', 'credentials handed to the portal'])

p('C02', 'A password proof is accepted exactly when it matches',
  'A proof presented by a client is accepted for a password if and only if it equals the SHA-1 digest of challenge, client nonce and password (as UTF-8 bytes) joined by single spaces. '
  'The client side computes the same digest for the same challenge and password, with a nonce drawn anew from the secure random source (16 bytes or more) for every proof.',
  ['inputs'], 'all challenges, nonces, responses and text or byte passwords',
  'five fixed byte strings are tried',
  [AA], [('digest', 'ampauth._calcResponse'), ('server check', 'ampauth._AMPUsernamePassword.checkPassword'), ('client proof', 'ampauth.PasswordChallengeResponse.determineFrom')],
  (), ['checkPassword result', 'determineFrom result'])

p('C03', 'The plaintext password is never put on the wire',
  'When a client logs in with a username and password, nothing it sends to the server contains or is computed from the password, except the one-way digest that also covers the server challenge and a fresh nonce. '
  'No password-derived data is sent before the server has issued its challenge, and credentials of an unsupported kind are refused before anything is sent.',
  ['inputs', 'histories'], 'all credentials, challenges and server replies (success, failure, no reply)',
  'no test looks at what is transmitted; information flow cannot be sampled',
  [AA], [('client login sequence', 'ampauth.login'), ('proof computation', 'ampauth.PasswordChallengeResponse.determineFrom')],
  (), ['arguments of every remote call'])

p('C04', 'Boxes reach an avatar only after the portal accepted the login',
  'A connection hands its traffic to an avatar only once the portal has accepted the very credentials presented on that connection, asked for as a box receiver. '
  'On acceptance the avatar is started exactly once, with that connection as its box sender, it becomes the receiver of further boxes, and the client gets a success reply; on rejection the connection keeps its previous receiver, nothing is started, and the error is reported to the client.',
  ['histories', 'schedules'], 'all logins (password proof or one-time pad), accepted or rejected, synchronously or later',
  'the tests log in once, against an in-memory portal which answers synchronously',
  [AA], [('login completion', 'ampauth.CredReceiver._login'), ('entry points', 'ampauth.CredReceiver.passwordChallengeResponse / otpLogin'), ('portal association', 'ampauth.CredAMPServerFactory.buildProtocol')],
  [('boxReceiver', 'object receiving boxes of the connection', 'CredReceiver instance')], ['avatar.startReceivingBoxes', 'connection.boxReceiver', 'command result'])

p('C05', 'Every login is matched by exactly one logout',
  'For every avatar session a connection obtains, the logout function supplied by the portal is called exactly once: when the connection is lost, or immediately if the portal only answers after the connection was already lost. '
  'This holds even if the avatar fails when it is told about the loss, or the logout of another session on the connection fails. It is never called while the connection is up and logged in, and losing a connection which never logged in calls nothing.',
  ['histories', 'schedules'], 'all orders of login start, login completion or failure, and connection loss',
  'one test loses the connection after one synchronous login; no test has the portal answer late',
  [AA], [('logout on loss', 'ampauth.CredReceiver.connectionLost'), ('recording of the logout function', 'ampauth.CredReceiver._login')],
  [('logout', 'pending logout function of the session', 'CredReceiver instance')], ['calls of the logout function'])

p('C06', 'A one-time pad authenticates at most once',
  'A one-time pad authenticates only if it is one of the currently valid pads, yields the avatar identifier registered for that very pad, and is invalidated by the attempt that succeeds, so presenting it again is refused. '
  'An unknown pad is refused with an unauthorized-login error and leaves all valid pads valid.',
  ['histories', 'inputs'], 'all pad tables, pad values and sequences of attempts',
  'one pad, used twice, is tested',
  [AA], [('check-and-invalidate', 'ampauth.OneTimePadChecker.requestAvatarId'), ('credential', 'ampauth.CredReceiver.otpLogin')],
  [('pads', 'mapping from valid pad to avatar id', 'OneTimePadChecker instance')], ['requestAvatarId result'])

# ---------------------------------------------------------------- amprouter
p('C07', 'Each received box goes to exactly the receiver bound to its route',
  'A box arriving on a routed connection is delivered exactly once, to the receiver currently bound to the route named in the box (or to the one bound to no route if the box names none), with the route label removed and every other field unchanged. '
  'No other receiver sees it, and a box for a route that is not bound is delivered to nobody and reported as an error.',
  ['inputs', 'histories'], 'all route tables (bound before or after start, unbound, rebound), route names and box contents',
  'the tests deliver one box to a router with one or two routes',
  [AR], [('dispatch', 'amprouter.Router.ampBoxReceived'), ('route table', 'amprouter.Router.bindRoute / Route.unbind / startReceivingBoxes')],
  [('_routes/_unstarted', 'route tables', 'Router instance')], ['receiver.ampBoxReceived'])

p('C08', 'Outgoing boxes carry exactly the peer route label',
  'A box sent through a route reaches the underlying sender exactly once, with all its fields intact and labelled with the remote route name the route was connected to last, or with no label added if that name is None. '
  'Sending through a route which was never connected raises the documented error and sends nothing; unhandled errors are passed to the underlying sender unmodified.',
  ['inputs', 'histories'], 'all remote names (including empty ones), box contents and connect/send orders',
  'the tests send one fixed box per case',
  [AR], [('labelling', 'amprouter.Route.sendBox'), ('connection', 'amprouter.Route.connectTo')],
  [('remoteRouteName', 'label for outgoing boxes', 'Route instance')], ['sender.sendBox', 'sender.unhandledError'])

p('C09', 'Route receivers are started once when ready and all stopped at the end',
  'A bound receiver is started, with its route as box sender, exactly when both its router has been started and its route has been connected, in whichever order that happens; never earlier and never twice for one connection. '
  'When the router stops, every receiver still bound is told so exactly once with the given reason, even if receivers bind or unbind routes while being started or stopped.',
  ['histories', 'schedules'], 'all interleavings of bind, connect, start, unbind and stop over several routes, including re-entrant calls from receivers',
  'three orders with a single route are tested; no receiver under test re-enters the router',
  [AR], [('deferred start', 'amprouter.Router.startReceivingBoxes / Route.connectTo'), ('stop', 'amprouter.Router.stopReceivingBoxes')],
  [('_sender', 'set once the router is started', 'Router instance')], ['receiver.startReceivingBoxes', 'receiver.stopReceivingBoxes'])

p('C10', 'Generated route identifiers never collide',
  'Binding a receiver without naming a route always yields a text identifier which no other route of that router has at that moment, whether the other was generated or explicitly named, so an existing route is never displaced. '
  'Identifiers generated by one router are never handed out twice.',
  ['histories'], 'all sequences of named and unnamed binds, before and after start',
  'one test checks that two generated identifiers differ',
  [AR], [('identifier source', 'amprouter.Router.createRouteIdentifier'), ('binding', 'amprouter.Router.bindRoute')],
  [('_routeCounter', 'source of identifiers', 'Router instance')], ['Route.localRouteName'])

# ---------------------------------------------------------------- juice
p('C11', 'Each reply completes exactly the request it answers',
  'On one juice connection every request that expects an answer carries a tag no other request of that connection has used. '
  'An answer (or error) box completes exactly the request whose tag it carries, once, with that box (or with a remote error holding its code and description), and leaves all other requests pending.',
  ['histories', 'schedules'], 'all interleavings of requests, answers and errors, in any order of arrival',
  'tests have one outstanding request at a time',
  [JU], [('tagging', 'juice.JuiceParserBase._nextTag / sendBoxCommand'), ('matching', 'juice.JuiceParserBase.juiceBoxReceived')],
  [('_outstandingRequests', 'tag to pending result', 'Juice instance')], ['result Deferreds', 'sent boxes'])

p('C12', 'Losing a juice connection fails every pending request',
  'When the connection is lost every request still waiting for an answer fails exactly once with the reason of the loss, even if handlers issue new requests meanwhile. '
  'Any request issued after that fails at once with a connection-lost error and sends nothing, so no caller waits forever.',
  ['histories', 'schedules', 'fault_sequences'], 'all sets of outstanding requests at the moment of loss, and requests issued during and after it',
  'no test loses a connection with requests outstanding',
  [JU], [('failing', 'juice.JuiceParserBase.failAllOutgoing / Juice.connectionLost'), ('refusal', 'juice.JuiceParserBase.sendBoxCommand')],
  [('_outstandingRequests', 'None once the connection is lost', 'Juice instance')], ['result Deferreds'])

p('C13', 'Every command that asks for an answer gets exactly one reply',
  'A received command box that asks for an answer causes exactly one reply box on that connection, an answer or an error, carrying the tag of the question, whether the responder returns at once, later, or fails, and whatever its result contains; a command that does not ask causes none. '
  'A reply that becomes ready after the connection has no transport any more, or was locked for a change of protocol, is dropped without error.',
  ['histories', 'inputs', 'schedules'], 'all commands (known, unknown, old or new style), responder outcomes and moments of completion',
  'tests cover one synchronous success and one declared error',
  [JU], [('reply', 'juice.JuiceParserBase.juiceBoxReceived (sendAnswer / sendError)'), ('dispatch', 'juice.DispatchMixin.dispatchCommand')],
  (), ['boxes written'])

p('C14', 'Remote errors are reported exactly as declared and nothing else leaks',
  'If a responder fails with an error its command declares, itself or through the command it derives from, the caller gets an error reply with the declared code and the message of the error and, if the declaration is fatal, the connection is closed after that reply and otherwise stays open. '
  'Any other failure, except a remote juice error, which is passed on with its own code and description, is logged locally, reported only as a generic unhandled error without any detail of the failure, and closes the connection after the reply; on the calling side a code declared by the command becomes the declared exception and any other code a generic remote error, and a failure the caller leaves unhandled, like that of a command which asked for no answer, is logged and closes the connection.',
  ['inputs', 'fault_sequences'], 'all exceptions a responder can fail with, declared, declared fatal, subclass of declared, or undeclared',
  'one declared, non-fatal error is tested',
  [JU], [('mapping', 'juice.DispatchMixin._auto'), ('error reply', 'juice.JuiceParserBase.juiceBoxReceived'), ('reverse mapping', 'juice.Command.do'), ('error tables', 'juice._CommandMeta')],
  (), ['error boxes', 'transport.loseConnection', 'exception given to the caller'])

p('C15', 'A command is callable only from the namespaces that allow it',
  'A structured command is executed only for a namespace the command lists; in any other namespace, and for a name without a responder, the caller is refused with an unhandled-command error and the responder is not run. '
  'Command names are matched ignoring case and treating dash and underscore alike.',
  ['inputs'], 'all command names, namespaces and namespace declarations',
  'no test uses a namespace',
  [JU], [('namespace check', 'juice.DispatchMixin._auto'), ('lookup', 'juice.DispatchMixin.lookupFunction / normalizeCommand / dispatchCommand')],
  (), ['responder invocation'])

p('C16', 'Nothing is sent in clear text while TLS is being set up',
  'From the moment a juice connection is prepared for TLS until TLS has been started no box is written to the transport; the boxes sent meanwhile are written after TLS was started, each exactly once and in the order they were sent. '
  'TLS is started at most once per connection; a second attempt is refused and does not touch the transport.',
  ['histories'], 'all interleavings of prepare, sends and start, with and without peer verification',
  'no test uses TLS',
  [JU], [('queueing', 'juice.Juice.sendPacket / prepareTLS'), ('flush', 'juice.Juice.startTLS')],
  [('_startingTLSBuffer', 'boxes held back', 'Juice instance'), ('hostCertificate', 'certificate in use', 'Juice instance')], ['transport.write', 'transport.startTLS'])

p('C17', 'After a protocol switch all traffic belongs to the new protocol',
  'Once a switch of protocol has been requested on a juice connection no juice box is sent on it any more and received commands that want an answer are ignored, while others still run. '
  'When the switch completes, on either side, the new protocol is connected to the transport exactly once, receives every byte that follows the switching box and no other, and is told about the connection loss; if the request is refused, the client factory of the new protocol is told that its connection failed.',
  ['histories', 'schedules'], 'all moments of the switch relative to sends, received boxes, partial data and connection loss; switching boxes with and without a body',
  'two tests switch once, with all data in separate deliveries',
  [JU, LI], [('lock', 'juice.Juice._lock / sendPacket / juiceBoxReceived'), ('switch', 'juice.Juice._switchTo / rawDataReceived / connectionLost'), ('client side', 'juice.ProtocolSwitchCommand.do')],
  [('innerProtocol', 'protocol in charge after the switch', 'Juice instance')], ['inner protocol calls', 'transport.write'])

p('C18', 'Boxes survive the wire whatever the chunking and the content',
  'Any sequence of boxes serialized by one juice peer is received by the other as the same sequence of boxes with the same (canonically named) fields, text values and body, no matter how the byte stream is cut into deliveries. '
  'No field value or body, whatever line breaks, separators or non-ASCII text it contains, can add a field, end a box early or shift the start of the next box, and a header line without separator is rejected.',
  ['inputs', 'histories'], 'all field values and bodies; all cuts of the byte stream',
  'eight fixed boxes, delivered whole, with ASCII content',
  [JU, LI], [('writer', 'juice.JuiceBox.serialize'), ('reader', 'juice.parseJuiceHeaders / Juice.lineReceived / rawDataReceived'), ('line splitting', 'liner.LineReceiver.dataReceived')],
  [('buffer', 'unconsumed bytes', 'LineReceiver instance')], ['juiceBoxReceived arguments'])

p('C19', 'Typed command arguments arrive as the values that were sent',
  'For every argument type a command can declare, the value decoded by the receiver equals the value the sender passed, including lists and nested lists of structures; list content which could not be told apart on the wire is refused before anything is sent. '
  'An optional argument that is absent arrives as None and puts nothing on the wire; a missing required argument is refused before anything is sent, and malformed or undeclared input never reaches a responder as an argument. Neither encoding nor decoding changes the values or the box given.',
  ['inputs'], 'all values of each argument type, all combinations of present and absent optional arguments',
  'tests send one short ASCII string and one list of integers',
  [JU], [('conversions', 'juice.Argument and subclasses'), ('boxing', 'juice.objectsToStrings / stringsToObjects'), ('completeness', 'juice.Command.__init__')],
  (), ['responder arguments'])

# ---------------------------------------------------------------- extime
p('C20', 'Conversions between Time and datetime preserve the instant',
  'A time made from a timezone-aware datetime denotes the same instant, and one made from a naive datetime or time tuple denotes that reading in UTC (or in the zone given for the tuple). '
  'Rendering a time of sub-day resolution in a zone denotes the same instant in that zone, while a time with a resolution of a day or more is rendered with the same date and clock reading in every zone.',
  ['inputs'], 'all instants, resolutions and fixed or varying timezone offsets',
  'a handful of instants and two zones are tested',
  [XT], [('normalisation', 'extime.Time.fromDatetime / fromStructTime'), ('rendering', 'extime.Time.asDatetime / asNaiveDatetime / asStructTime / isTimezoneDependent')],
  [('_time', 'naive UTC reading', 'Time instance')], ['returned datetimes'])

p('C21', 'ISO 8601 output parses back to the same time',
  'For every time whose resolution is a year, a month, a day, an hour, a minute, a second or any fraction of a second and which starts on a boundary of that unit as read in the zone of the output, the ISO 8601 text produced for it, with or without delimiters and in UTC or any zone of whole minutes east or west of UTC, is accepted by the ISO 8601 parser and yields a time denoting the same instant. '
  'The text states the fields down to the resolution of the time and no finer, and an explicit offset in the text always overrides the default zone.',
  ['inputs'], 'all instants, both delimiter modes, all whole-minute offsets, with every resolution from microsecond to year',
  'five reference instants at offsets 0 and -6 hours are tested',
  [XT], [('formatter', 'extime.Time.asISO8601TimeAndDate'), ('parser', 'extime.Time.fromISO8601TimeAndDate / iso8601pattern'), ('offset', 'extime.FixedOffset / _timedeltaToSignHrMin')],
  (), ['formatted text', 'parsed Time'])

p('C22', 'Parsed ISO 8601 text denotes the right fields, zone and resolution',
  'An accepted ISO 8601 text yields the instant of the year, month, day, week date, day of year, clock time and offset it states, with absent fields at the start of the stated period; without an offset the given default zone, or UTC, applies, but only if a clock time is stated. '
  'The resolution of the result is the smallest unit stated (from fraction of a second to year), and text that does not match or whose fields are out of range raises ValueError.',
  ['inputs'], 'all texts of every accepted form, all default zones',
  'about forty fixed texts are tested',
  [XT], [('grammar', 'extime.Time.iso8601pattern'), ('interpretation', 'extime.Time.fromISO8601TimeAndDate')],
  (), ['parsed Time'])

p('C23', 'Times compare, sort and combine by instant',
  'Two times are equal exactly when they start at the same instant, whatever their resolution, and are ordered by that instant; comparison with anything else is never equal, and ordering against it raises TypeError. '
  'Adding or subtracting a duration yields a time shifted by exactly that duration with instant resolution, and subtracting two times yields the duration between their starts.',
  ['inputs'], 'all pairs of times of any resolution, all durations and foreign objects',
  'the tests compare three instants through one comparison method and never sort',
  [XT], [('comparison', 'extime.Time comparison methods'), ('arithmetic', 'extime.Time.__add__ / __sub__')],
  (), ['operator results'])

p('C24', 'Containment and bounds follow the period a time addresses',
  'One time is contained in another exactly if its whole period, from start to start plus resolution, lies within the period of the other. '
  'The bounds of a time enclose its period as read in UTC and, for a resolution of a day or more, also as read in the given zone; the day of a time starts at its midnight in UTC with a resolution of one day.',
  ['inputs'], 'all pairs of instants and resolutions, all zones',
  'one containment pair is tested and the bounds are not tested at all',
  [XT], [('containment', 'extime.Time.__contains__'), ('bounds', 'extime.Time.getBounds'), ('day', 'extime.Time.oneDay / isAllDay')],
  (), ['operator results'])

p('C25', 'Times are never changed by using them',
  'No operation on a time, be it formatting, comparing, arithmetic, bounds or parsing relative to it, changes the instant or resolution of any time passed to it. '
  'Every constructor and arithmetic result is a new object with its own resolution, and no operation changes state shared by all times.',
  ['histories', 'inputs'], 'all public operations, all argument values, any order',
  'no test checks the operands after an operation',
  [XT], [('construction', 'extime.Time from* constructors'), ('readers', 'extime.Time as* methods and operators')],
  [('_time/resolution', 'value of a time', 'Time instance')], ['operands after the call'])

p('C26', 'Human date phrases mean what they say relative to now',
  'Interpreting a phrase uses the given moment as "now" and the given zone for clock times: "today", "tomorrow" and "yesterday" give that calendar day, a weekday gives its next occurrence strictly after today, and a clock time, noon or midnight gives its first occurrence not before the current minute (noon and midnight: hour) in that zone. '
  'Days get a resolution of one day, clock times of one minute, "now" gives that moment itself, and text that is not entirely one such phrase, or has an hour or minute out of range, raises ValueError.',
  ['inputs'], 'all moments, zones and phrases including case and spacing variants',
  'the tests use one reference moment in two zones',
  [XT], [('phrases', 'extime.Time.humanlyPatterns / fromHumanly / _from*')],
  (), ['parsed Time'])

p('C27', 'RFC 2822 and POSIX conversions keep the instant to the second',
  'A parsed RFC 2822 date denotes its stated date and clock reading at its stated offset (UTC if it states none), with out-of-range fields moved to the nearest valid value and a resolution of one second; unparseable text raises ValueError. '
  'The RFC 2822 text of a time states its date, clock reading, weekday and offset in the requested zone, and POSIX timestamps are counted in seconds from 1970-01-01 00:00 UTC in both directions.',
  ['inputs'], 'all field values and offsets, all instants',
  'two reference dates are tested',
  [XT], [('parser', 'extime.Time.fromRFC2822 / sanitizeStructTime'), ('formatter', 'extime.Time.asRFC2822'), ('posix', 'extime.Time.fromPOSIXTimestamp / asPOSIXTimestamp')],
  (), ['texts', 'parsed Time'])

# ---------------------------------------------------------------- structures
p('C28', 'Records accept exactly the declared attributes',
  'Creating a record instance sets every declared attribute exactly as Python would bind parameters: positionals in declaration order, then keywords, then declared defaults. '
  'Too many positionals, a value given twice, a missing value or an undeclared keyword raise TypeError, declaring defaults with gaps, for undeclared names or no attributes at all raises TypeError, and creating one instance never affects another or the defaults; a record among several base classes has the others initialized once.',
  ['inputs', 'programs'], 'all declarations and calls (any number of attributes, any mix of positional, keyword and default)',
  'a few declarations with up to ten attributes',
  [SL], [('binding', 'structlike.StructBehavior.__init__'), ('declaration', 'structlike.record')],
  (), ['attributes of instances', 'exceptions'])

p('C29', 'Printing a record terminates and leaves no trace',
  'The representation of a record shows its class name and every declared attribute in order with the representation of its current value, and terminates for every object graph, printing an abbreviated form for a record that is already being printed. '
  'Bookkeeping is undone even when the representation of an attribute raises, so later prints, and prints in other threads, are never abbreviated wrongly.',
  ['inputs', 'histories', 'fault_sequences'], 'all cyclic and acyclic graphs, all exceptions raised by attribute representations',
  'one two-object cycle and one nested record are tested; none with an exception',
  [SL], [('recursion guard', 'structlike._RecursiveReprer.recursiveRepr'), ('context', 'structlike._contextualize'), ('format', 'structlike.StructBehavior.__repr__')],
  [('active', 'records being printed', '_RecursiveReprer instance')], ['repr() results'])

p('C30', 'An exposer hands out only what was exposed for that purpose',
  'Looking up a key on an object through an exposer returns a method only if exactly that method was exposed with that exposer under that key and is still the attribute its class (or nearest base class) has under its name, bound to that object; the nearest exposed method in method resolution order wins. '
  'Anything else, such as methods exposed by another exposer or under another key, overridden without being exposed again, deleted, or set on the instance only, is refused with the documented error.',
  ['programs', 'inputs'], 'all class hierarchies, exposers, keys and override patterns',
  'single inheritance with at most two classes is tested',
  ['epsilon/expose.py'], [('registration', 'expose.Exposer.expose'), ('lookup', 'expose.Exposer.get')],
  [('_exposed', 'key to exposed objects', 'Exposer instance')], ['Exposer.get result'])

p('C31', 'A modal object behaves according to its current mode',
  'Accessing a modal method uses the implementation of the mode the object is in at that moment and is an AttributeError if that mode has none; instances start in the declared initial mode, kept in the declared mode attribute. '
  'A transition runs the exit action of the old mode, then changes the mode, then runs the entry action of the new mode, each exactly once, and never affects other instances.',
  ['programs', 'histories'], 'all modal classes (any mode attribute, modes, inheritance) and transition sequences',
  'one class with the default mode attribute is tested; transitions are not',
  ['epsilon/modal.py'], [('dispatch', 'modal.ModalMethod.__get__'), ('class construction', 'modal.ModalType.__new__'), ('transition', 'modal.Modal.transitionTo')],
  [('mode', 'current mode', 'instance attribute named by modeAttribute')], ['method results', 'order of entry/exit actions'])

p('C32', 'Caseless strings compare, hash and search ignoring case consistently',
  'Equality, inequality, ordering, hashing, containment, prefix and suffix tests, counting and searching on a caseless string give exactly the results of the same operation on the lower-cased strings, for caseless and plain operands alike. '
  'So equal caseless strings always hash equal, and length, indexing, iteration and case conversion show the original string unchanged.',
  ['inputs'], 'all pairs of strings, caseless or plain, tuples of prefixes, optional bounds',
  'a few short ASCII strings are tested',
  ['epsilon/caseless.py'], [('operations', 'caseless.Caseless methods')], (), ['operator results'])

p('C33', 'A sliced view always mirrors the live underlying sequence',
  'Element i of a view is the element of the underlying sequence, as it is at the time of access, that slicing it would put at position i; the length is the length of that slice, and indexes outside it raise IndexError, negative indexes counting from the end. '
  'Slicing a view gives a view of the view; no operation copies or changes the sequence.',
  ['inputs', 'histories'], 'all sequences (growing or shrinking), slices with any start, stop and step, all indexes',
  'fixed short lists which do not change during the test',
  ['epsilon/view.py'], [('index mapping', 'view.SlicedView._getIndices / __getitem__ / __len__')], (), ['view elements'])

p('C34', 'Attribute descriptors call exactly the accessor defined',
  'Reading, setting or deleting a descriptor-defined attribute calls exactly the accessor its definition supplies, with the instance (and value), and an operation without an accessor raises AttributeError without touching the instance. '
  'A required attribute raises AttributeError until it has been set on that instance, then yields the value last set on that instance only.',
  ['programs', 'histories'], 'all definitions with any subset of accessors, all instances and sequences of operations',
  'two definitions and single operations are tested',
  ['epsilon/descriptor.py'], [('descriptor protocol', 'descriptor.attribute / _MetaAttribute'), ('required', 'descriptor.requiredAttribute')], (), ['attribute access results'])

p('C35', 'A remembered attribute is computed once per instance',
  'The first access of a remembered attribute on an instance computes it by one call with that instance; every later access on that instance returns the identical value without computing again, whatever the value is, including None and false values. '
  'Different instances and different remembered attributes never share values, and a computation that raises leaves nothing remembered.',
  ['inputs', 'histories'], 'all computed values, instances and access orders',
  'only truthy objects are remembered in the tests',
  ['epsilon/remember.py'], [('cache', 'remember.remembered.__get__')], [('_remembered_*', 'cached value', 'instance dictionary')], ['attribute values', 'number of computations'])

# ---------------------------------------------------------------- async utilities
p('C36', 'A pending event notifies each waiter exactly once',
  'Firing a pending event, with a result or a failure, fires every waiter registered before it exactly once, in registration order, with that outcome. '
  'Waiters registered during or after the firing wait for the next one and are not fired by this one.',
  ['histories', 'schedules'], 'all sequences of registrations and firings, including re-entrant ones from waiters',
  'the class has no tests',
  ['epsilon/pending.py'], [('fan-out', 'pending.PendingEvent.callback / errback')], [('listeners', 'waiters', 'PendingEvent instance')], ['waiter Deferreds'])

p('C37', 'The reactor runs until main is done and is stopped once',
  'Main is called once with the reactor and the given arguments, the reactor is then run, and once the result of main is available, success or failure, it is stopped exactly once; a failure is logged. '
  'If the reactor is already shutting down, the completion of main does not stop it again.',
  ['schedules', 'histories'], 'main finishing before, while or after the reactor runs or shuts down, successfully or not',
  'seven scripted schedules are tested',
  ['epsilon/react.py'], [('sequencing', 'react.react')], (), ['reactor calls'])

p('C38', 'A benchmarked process reports its end exactly once',
  'When a child process ends, its completion result fires exactly once: with exit status and all output in order if it exited cleanly, as a timeout error if it was killed for inactivity, and otherwise as an error giving exit code, signal, status and output. '
  'The inactivity timer is restarted by every event of the child, kills the child when it expires, and is cancelled when the process has ended.',
  ['histories', 'schedules', 'fault_sequences'], 'all sequences of output, closed descriptors, timeouts and ways to end',
  'four scripted child processes are tested',
  [BE], [('completion', 'scripts.benchmark.BasicProcess.processEnded'), ('timeouts', 'scripts.benchmark.BasicProcess connectionMade / childDataReceived / timeoutConnection')],
  [('whenFinished', 'completion Deferred', 'BasicProcess instance')], ['completion Deferred', 'signals sent'])

p('C39', 'Benchmark measurements bracket exactly the measured work',
  'In a measurement the clock is read last when it starts and first when it stops, so gathering sizes and disk statistics is never counted as elapsed time, and each figure is taken from the device, partition and directory asked for. '
  'A child asking to start or stop timing is acknowledged only after the measurement has been taken, and any other request kills the child.',
  ['histories', 'inputs'], 'all devices, partitions and sequences of requests of the child',
  'single requests are tested with stub snapshots; order of measurement is not',
  [BE], [('snapshots', 'scripts.benchmark.Change.start / stop'), ('handshake', 'scripts.benchmark.BenchmarkProcess.childDataReceived / startTiming / stopTiming')],
  (), ['order of measurements and acknowledgements'])

p('C40', 'A hotfix is applied once, only when needed, and only if it exists',
  'Requiring a hotfix installs that very hotfix only if its defect is detected in the installed library, and at most once per process however often it is required. '
  'A hotfix which is not known is refused with the documented error, and one whose installation failed is not remembered as installed.',
  ['histories', 'configurations'], 'all names and sequences of requirements, defect present or absent, installation failing or not',
  'hotfixes have no tests that run today',
  ['epsilon/hotfix.py'], [('registry', 'hotfix.require')], [('_alreadyInstalled', 'hotfixes done', 'hotfix module')], ['install() calls'])

p('C41', 'Certificates carry the subject and serial number requested',
  'Creating a certificate puts each of the requested country, state, city, organization, unit, host name and e-mail into the subject field of that meaning, uses the requested serial number, and writes that certificate together with its private key to the requested file, from which it can be read back. '
  'Nothing is printed if quiet operation was requested, and a usage error creates no file.',
  ['inputs', 'configurations'], 'all option combinations',
  'certificate creation has no tests that run today',
  ['epsilon/scripts/certcreate.py'], [('field mapping', 'scripts.certcreate.createSSLCertificate'), ('options', 'scripts.certcreate.Options / main')], (), ['certificate request', 'file written'])

p('C42', 'Tracing and signal handlers are fully undone',
  'Stopping a signal service restores, for every signal it handled, the handler that was in place before it started, exactly; uninstalling a tracer removes it from the current thread and from threads started later, and toggling it alternates between the two. '
  'Starting and stopping leave no other process-wide state changed.',
  ['histories'], 'all signal maps and start/stop, install/uninstall and toggle sequences',
  'the module has no tests',
  ['epsilon/spewer.py'], [('signals', 'spewer.SignalService.startService / stopService'), ('tracing', 'spewer.Tracer.install / uninstall / toggle')],
  [('oldsigmap', 'handlers to restore', 'SignalService instance')], ['signal.signal calls', 'settrace calls'])

p('C43', 'Benchmark statistics are read and reported without loss',
  'Each line of disk statistics is parsed into the device it names with every counter under its own meaning, for whole disks and partitions, and a reported result states, under their own names, the differences between the later and the earlier snapshot of each counter, omitting those that are not available. '
  'Sizes count every file below the directory, including dangling links, and any other file system error is passed on rather than ignored.',
  ['inputs', 'fault_sequences'], 'all counter values, missing devices or partitions, file system errors',
  'fixed lines and snapshots are tested',
  [BE], [('parsing', 'scripts.benchmark.parseDiskStatLine / parseDiskStats'), ('report', 'scripts.benchmark.formatResults'), ('sizes', 'scripts.benchmark.getOneSize / getSize')], (), ['records', 'result command arguments'])

p('C44', 'Every name the library uses exists',
  'No operation of the library can fail because its code refers to a variable, function, class, method or attribute of its own modules, of the Python builtins or of a standard-library module that does not exist on the supported interpreter, or because it uses a local variable no assignment can have reached. '
  'This holds for every function, including rarely used and error-handling paths. The hotfixes for releases of libraries that exist only on Python 2 may use Python 2 names.',
  ['programs', 'inputs'], 'all code paths of all modules',
  'tests execute about half of the lines; a wrong name on an untested path compiles',
  ['epsilon'], [('name binding', 'all modules')], (), ['NameError/AttributeError/ImportError'])

p('C45', 'Spawned Python processes get the requested import path',
  'Launching a Python process passes executable, arguments, environment, working directory, user and group through unchanged, except that the import path of the child lists the directories of all requested packages outside the system library ahead of any import path already in the environment. '
  'The environment mapping supplied by the caller is never modified.',
  ['inputs', 'configurations'], 'all environments and package lists',
  'the tests of this module cannot be loaded on the supported interpreter',
  ['epsilon/process.py'], [('environment', 'process.spawnProcess / spawnPythonProcess')], (), ['reactor.spawnProcess arguments'])

p('C46', 'Cooperative work advances fairly within bounded time slices',
  'Iterators handed to the scheduling service all make progress while it runs, none starves another, and the reactor is never blocked longer than a time slice by well-behaved iterators.',
  ['schedules', 'histories'], 'all sets of iterators and reactor loads',
  'depends on elapsed time at run time',
  ['epsilon/cooperator.py'], [('delegation', 'cooperator.SchedulingService')], (), ['iterator steps'])

p('C47', 'Random challenges and nonces are unpredictable',
  'An attacker who sees any number of challenges and nonces cannot predict the next one, nor find a response without the password faster than by guessing it.',
  ['inputs'], 'all adversaries',
  'a computational security claim',
  [AA], [('randomness', 'twisted.python.randbytes.secureRandom')], (), ['challenges'])

p('C48', 'POSIX timestamps round-trip to the microsecond',
  'Converting a time to a POSIX timestamp and back yields the same moment: to the microsecond from 1833 to 2106, where a floating point number of seconds tells microseconds apart; within 32 microseconds in every other year; '
  'and exactly in every year if the time falls on a whole second. A timestamp of microseconds since 1970 becomes the time which it names, to the microsecond, and that time has this timestamp. A time made from a timestamp is an instant, not a period.',
  ['inputs'], 'all instants of all representable years', 'tests convert a few whole timestamps; rounding depends on the magnitude and on the digits',
  [XT], [('arithmetic', 'extime._timedeltaToSeconds'), ('conversions', 'extime.Time.asPOSIXTimestamp / fromPOSIXTimestamp')], (), ['timestamps'])

p('C49', 'Both peers agree on the protocol version',
  'When one side of a juice connection asks for a protocol version, both sides change to it if the other side supports it, and neither changes otherwise; the one who asked learns which version was agreed, or that none was. '
  'No version changes before the answer arrives, and a request for a version that is not supported locally is refused without sending anything.',
  ['histories', 'inputs'], 'all requested versions, supported sets on either side, repeated negotiation',
  'tests negotiate the single existing version once',
  [JU], [('request', 'juice.Juice.renegotiateVersion'), ('responder', 'juice.Juice.command_NEGOTIATE / NegotiateBox')],
  [('protocolVersion', 'version in use', 'Juice instance')], ['boxes sent', 'protocolVersion of either side'])

p('C50', 'Values describing the connection come from its transport',
  'Values a command declares as taken from the connection (its host and peer, and their domains and users) are those of the transport the command or reply arrived on: they are never sent, and nothing the peer sends can replace them. '
  'Responders receive exactly their declared arguments and these values, and callers exactly the declared response and these values.',
  ['inputs', 'histories'], 'all commands, box contents (forged keys included) and connections',
  'tests use one transport and honest boxes',
  [JU], [('values', 'juice.ExtraArg and subclasses'), ('use', 'juice.stringsToObjects / Command.responder / DispatchMixin.lookupFunction')], (), ['arguments of responders', 'results of calls', 'boxes sent'])

p('C51', 'Responders and reply handlers run inside the wrapper of their connection',
  'If a connection is given a wrapper, every responder and every reply handler runs inside it exactly once, also when replying with an error; a wrapper that refuses to run the responder keeps it from running and is reported to the peer as a failure. '
  'With a store, each such run is one transaction that ends when it does, with its result or error passed on.',
  ['histories', 'fault_sequences'], 'all commands, replies and failures',
  'tests use no wrapper',
  [JU], [('wrapper', 'juice.DispatchMixin.dispatchCommand / wrapper'), ('transactions', 'juice._Transactor')], (), ['wrapper entries', 'boxes sent'])

p('C52', 'Traced calls are shown with all their arguments at their nesting depth',
  'A spewer shows each call with the name of its function (and class of its object) and every argument it received, including extra positional, keyword and keyword-only ones, indented by the number of calls then in progress; values returned and exceptions are shown at the depth of their call. '
  'However calls end, by return or exception, the depth shown afterwards is right.',
  ['inputs', 'histories'], 'all signatures, argument values and sequences of calls, returns and exceptions',
  'the module has no tests',
  ['epsilon/spewer.py'], [('arguments', 'spewer.extractArgs / formatArgs'), ('output', 'spewer.Spewer')],
  [('callDepth', 'calls in progress', 'Spewer instance')], ['lines printed'])

p('C53', 'A benchmark run reports both measurements, ends, and cleans up',
  'Running a benchmark starts one child, with the requested arguments, in a new scratch directory. When the child ends the overall and the inner measurement are each reported once, marked as bogus exactly if the child failed or wrote to its error output; a child that dies or ends in another way reports nothing. '
  'In every case the reactor is stopped once, the scratch directory and nothing else is removed, and no timer is left.',
  ['histories', 'fault_sequences'], 'all ends of the child, failures to start it, interruptions',
  'tests cover the pieces, not the run',
  [BE], [('run', 'scripts.benchmark._bench / bench / main'), ('child', 'scripts.benchmark.BenchmarkProcess')], (), ['result boxes', 'directories', 'reactor.run/stop'])

p('C54', 'Automatic setup distributes every package and file once',
  'Automatic setup passes to distutils what it was given and, found below the current directory outside hidden directories, every package once, and every other file of each top-level package once, by its path relative to it, but no plugin cache. Packages given by hand are refused before anything is set up. '
  'Plugin caches are rebuilt exactly if the setup installed something, for every plugin package, from the place of installation.',
  ['inputs', 'configurations'], 'all source trees and setup commands',
  'tests cover plugin module loading only',
  ['epsilon/setuphelper.py'], [('search', 'setuphelper.autosetup'), ('plugin caches', 'setuphelper.regeneratePluginCache / pluginModules')], (), ['arguments of setup', 'plugin lookups'])

p('C55', 'Scheduled work runs while its service runs, and its end is reported once',
  'Work added to a scheduling service makes steps only while that service is running: work added before the start waits, work unfinished at the stop ends as stopped, and work added after it is refused as stopped. '
  'The end of each iterator is reported exactly once, with the iterator or its error; services do not influence each other, and each says correctly whether it is running.',
  ['histories'], 'all sequences of adding, starting and stopping',
  'the module has no tests',
  ['epsilon/cooperator.py'], [('service', 'cooperator.SchedulingService'), ('global', 'cooperator.iterateInReactor')], (), ['iterator steps', 'Deferreds'])

p('C56', 'Lines and raw data are delivered once and in order, however the bytes arrive',
  'Whatever pieces the bytes of a stream arrive in, a line receiver delivers each line ended by the delimiter exactly once, in order and complete, keeping an unfinished one until its end arrives; after a switch to raw mode the bytes behind that line, and all later ones, are delivered as raw data, and after a switch back lines continue exactly where the raw data ended. '
  'Once the transport is disconnecting, nothing more of the data already received is delivered or kept.',
  ['inputs', 'histories'], 'all streams, ways to cut them into pieces, delimiters and points of switching or disconnecting',
  'tests feed whole messages',
  [LI], [('splitting', 'liner.LineReceiver.dataReceived'), ('modes', 'liner.LineReceiver.setLineMode / setRawMode')],
  [('buffer', 'unfinished line', 'LineReceiver instance')], ['lineReceived and rawDataReceived calls'])

p('C57', 'Whoever receives the boxes of a connection is told once when it ends',
  'When a connection made for logging in is lost, the avatar that receives its boxes is told so exactly once, with the reason, and gets nothing afterwards; if the avatar is a router, so are the receivers of all its routes. Without a login, every call still waiting for an answer on the connection fails with the reason. '
  'An avatar that is found only after the loss is neither started nor stopped.',
  ['histories'], 'all logins (none, refused, undecided, accepted) and calls before the loss',
  'one test loses a logged-in connection and looks at the logout only',
  [AA, AR], [('loss', 'ampauth.CredReceiver.connectionLost'), ('routes', 'amprouter.Router.stopReceivingBoxes')], (), ['stopReceivingBoxes calls', 'results of calls'])

p('C58', 'Factories give each connection a protocol of its own in the right role',
  'Each connection a juice or credential factory accepts gets a new protocol object of the class the factory (or its class) names, which knows that factory, acts as server or client according to the factory, uses the portal of the factory, and shares no connection state with any other.',
  ['histories', 'configurations'], 'all factories, protocol classes and numbers of connections',
  'tests build protocols directly',
  [JU, AA], [('juice', 'juice.JuiceServerFactory / JuiceClientFactory'), ('credentials', 'ampauth.CredAMPServerFactory.buildProtocol')], (), ['protocols built'])

p('C59', 'Times shown to people state all that cannot be assumed',
  'A time shown to people names the clock reading only (or "all day" for a whole day) if it lies on the same day as the moment it is shown for; on another day it names day and month, the year as well exactly if that is another year, and the clock reading unless it is a whole day. Days, years and clock are those of the zone asked for (whole days have the same date in all zones), '
  'the moment is the given one or else the present, seconds are shown exactly if asked for, and an unknown precision is refused.',
  ['inputs'], 'all instants, moments, zones and precisions',
  'tests show a few times in a few zones',
  [XT], [('formatting', 'extime.Time.asHumanly')], (), ['texts returned'])

p('C60', 'A template expands to exactly the files it describes',
  'Expanding a template creates each file named by a marker line, with the directories it needs, replacing what was there; its contents are the lines up to the next marker, in order, with the marks for the project, the capitalized project and the date replaced, in names as well, by what was asked for and the local day, and everything else unchanged. '
  'Every file is complete and closed at the end and named once, in order, on the error output; no other file is touched.',
  ['inputs', 'configurations'], 'all templates, project names, days and directories already there',
  'the module has no tests',
  ['epsilon/asplode.py'], [('expansion', 'asplode.splode / main')], (), ['files written', 'error output'])

p('C61', 'What a hotfix installs behaves as the repaired library does',
  'The plugin path fix lists, in order and absolute, the directory of the package below every path entry where it is no package itself. The timeout fix tells a connection once, when the current period has passed since it was set or last reset and unless it was removed, returning the period before. '
  'The loopback fix goes on moving bytes exactly once, from the reactor only, and passes on how it ends; the warnings fix accepts exactly one kind of warning, the one wanted, restores how warnings are shown and passes on result or error; the clock fix returns the call just made, and only clocks that do not count as broken.',
  ['inputs', 'histories', 'configurations'], 'all path entries and directories, sequences of timeouts, warnings emitted, times',
  'the hotfixes have no tests of their own',
  ['epsilon/hotfixes/plugin_package_paths.py', 'epsilon/hotfixes/timeoutmixin_calllater.py', 'epsilon/hotfixes/loopbackasync_reentrancy.py', 'epsilon/hotfixes/trial_assertwarns.py', 'epsilon/hotfixes/internet_task_clock.py'],
  [('plugins', 'plugin_package_paths.pluginPackagePaths'), ('timeouts', 'timeoutmixin_calllater.TimeoutMixin'), ('loopback', 'loopbackasync_reentrancy._loopbackAsyncContinue'),
   ('warnings', 'trial_assertwarns.failUnlessWarns'), ('clock', 'internet_task_clock.callLater / clockIsBroken')], (), ['calls made', 'paths returned', 'failures'])

p('C62', 'Reading a literal back runs nothing',
  'unrepr gives exactly the value of the literal its text is, refuses every text that is no literal with the error of the literal reader, and never runs any text as a program.',
  ['inputs'], 'all texts',
  'one test reads one literal back',
  ['epsilon/unrepr.py'], [('reading', 'unrepr.unrepr')], (), ['values', 'texts run'])

p('C63', 'A version is the numbers its version string begins with',
  'The version made of a version string belongs to the package named and has, as numbers, the first three numbers of the string, whatever follows them; the version of this package is that of its own version string.',
  ['inputs'], 'all packages, numbers and suffixes',
  'one test reads one version without a suffix',
  ['epsilon/__init__.py'], [('version', 'epsilon.asTwistedVersion')], (), ['Version objects'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
