S='structlike.py'; X='expose.py'; M='modal.py'; C='caseless.py'; V='view.py'; D='descriptor.py'; RM='remember.py'; P='pending.py'; RE='react.py'; H='hotfix.py'
R=[
('s-rr-early',[(S,"""        if ID in self.active:
            return '%s(...)' % (stuff.__class__.__name__,)
        else:
            try:
                self.active[ID] = stuff
                return thunk(stuff)
            finally:
                del self.active[ID]
""","""        if ID in self.active:
            return stuff.__class__.__name__ + '(...)'
        self.active[ID] = stuff
        try:
            return thunk(stuff)
        finally:
            self.active.pop(ID)
""")]),
('s-rr-set',[(S,"""        self.active = {}
""","""        self.active = set()
"""),(S,"""                self.active[ID] = stuff
                return thunk(stuff)
            finally:
                del self.active[ID]
""","""                self.active.add(ID)
                return thunk(stuff)
            finally:
                self.active.discard(ID)
""")]),
('s-ctx',[(S,"""    if value is not _NOT_SPECIFIED:
        return contextReceiver(value)
    else:
        return context.call({contextFactory: contextFactory()},
                            _contextualize, contextFactory, contextReceiver)
""","""    if value is _NOT_SPECIFIED:
        value = contextFactory()
        return context.call({contextFactory: value}, contextReceiver, value)
    return contextReceiver(value)
""")]),
('s-init-dict',[(S,"""        for n, v in zip(self.__names__, args):
            if n in kw:
                raise TypeError("Got multiple values for argument " + n)
            kw[n] = v

        # Fill in defaults
        for n, v in zip(self.__names__[::-1], self.__defaults__[::-1]):
            if n not in kw:
                kw[n] = v
""","""        positional = dict(zip(self.__names__, args))
        for n in positional:
            if n in kw:
                raise TypeError("Got multiple values for argument " + n)

        # Fill in defaults
        values = dict(zip(reversed(self.__names__), reversed(self.__defaults__)))
        values.update(positional)
        values.update(kw)
        kw = values
""")]),
('s-init-setdefault',[(S,"""            if n not in kw:
                kw[n] = v

        for n""","""            kw.setdefault(n, v)

        for n""")]),
('s-init-defaults-off',[(S,"""        for n, v in zip(self.__names__[::-1], self.__defaults__[::-1]):
            if n not in kw:
                kw[n] = v
""","""        required = len(self.__names__) - len(self.__defaults__)
        for i in range(len(self.__defaults__)):
            if self.__names__[required + i] not in kw:
                kw[self.__names__[required + i]] = self.__defaults__[i]
""")]),
('s-init-try',[(S,"""            if n not in kw:
                raise TypeError('Specify a value for %r' % (n,))
            setattr(self, n, kw.pop(n))
""","""            try:
                value = kw.pop(n)
            except KeyError:
                raise TypeError('Specify a value for %r' % (n,))
            setattr(self, n, value)
""")]),
('s-init-missing-first',[(S,"""        for n in self.__names__:
            if n not in kw:
                raise TypeError('Specify a value for %r' % (n,))
            setattr(self, n, kw.pop(n))

        if kw:
            raise TypeError('Got unexpected arguments: ' + ', '.join(kw))
""","""        missing = [n for n in self.__names__ if n not in kw]
        if missing:
            raise TypeError('Specify a value for %r' % (missing[0],))
        unexpected = [n for n in kw if n not in self.__names__]
        if unexpected:
            raise TypeError(
                'Got unexpected arguments: ' + ', '.join(unexpected))
        for n in self.__names__:
            setattr(self, n, kw[n])
""")]),
('s-repr-lambda',[(S,"""        def doit(rr):
            def _recordrepr(self2):
                \"\"\"
                Internal implementation of repr() for this record.
                \"\"\"
                return '%s(%s)' % (
                    self.__class__.__name__,
                    ', '.join(["%s=%s" %
                               (n, repr(getattr(self, n, None)))
                               for n in self.__names__]))
            return rr.recursiveRepr(self, _recordrepr)
        return _contextualize(_RecursiveReprer, doit)
""","""        return _contextualize(
            _RecursiveReprer,
            lambda rr: rr.recursiveRepr(self, type(self)._recordrepr))


    def _recordrepr(self):
        \"\"\"
        Internal implementation of repr() for this record.
        \"\"\"
        fields = []
        for n in self.__names__:
            fields.append('{0}={1!r}'.format(n, getattr(self, n, None)))
        return type(self).__name__ + '(' + ', '.join(fields) + ')'
""")]),
('s-rec-len',[(S,"""    if len(a) == 1:
        attributeNames = a[0].split()
    elif len(a) == 0:
        if not kw:
            raise TypeError("Attempted to define a record with no attributes.")
        attributeNames = sorted(kw.keys())
    else:
        raise TypeError(
            "record must be called with zero or one positional arguments")
""","""    if len(a) > 1:
        raise TypeError(
            "record must be called with zero or one positional arguments")
    if a:
        (names,) = a
        attributeNames = names.split()
    elif kw:
        attributeNames = sorted(kw)
    else:
        raise TypeError("Attempted to define a record with no attributes.")
""")]),
('s-rec-def',[(S,"""        default = kw.pop(attributeName, _NOT_SPECIFIED)
        if defaults:
            if default is _NOT_SPECIFIED:
                raise TypeError(
                    "You must specify default values like in Python; "
                    "backwards from the end of the argument list, "
                    "with no gaps")
            else:
                defaults.append(default)
        elif default is not _NOT_SPECIFIED:
            defaults.append(default)
        else:
            # This space left intentionally blank.
            pass
""","""        default = kw.pop(attributeName, _NOT_SPECIFIED)
        if default is not _NOT_SPECIFIED:
            defaults.append(default)
        elif defaults:
            raise TypeError(
                "You must specify default values like in Python; "
                "backwards from the end of the argument list, "
                "with no gaps")
""")]),
('s-rec-class',[(S,"""    return type('Record<%s>' % (' '.join(attributeNames),),
                (StructBehavior,),
                dict(__names__=attributeNames,
                     __defaults__=defaults))
""","""    class Record(StructBehavior):
        __names__ = attributeNames
        __defaults__ = defaults
    Record.__name__ = 'Record<%s>' % (' '.join(attributeNames),)
    Record.__qualname__ = Record.__name__
    return Record
""")]),
('x-setdefault',[(X,"""            if rkey not in self._exposed:
                self._exposed[rkey] = []
            self._exposed[rkey].append(function)
            return function
""","""            self._exposed.setdefault(rkey, []).append(function)
            return function
""")]),
('x-defaultdict',[(X,"""        self._exposed = {}
""","""        self._exposed = collections.defaultdict(list)
"""),(X,"""            if rkey not in self._exposed:
                self._exposed[rkey] = []
            self""","""            self"""),(X,"import inspect\n","import collections\nimport inspect\n")]),
('x-key',[(X,"""            rkey = key
            if rkey is None:
                if isinstance(function, FunctionType):
                    rkey = function.__name__
                else:
                    raise NameRequired()
""","""            if key is not None:
                rkey = key
            elif isinstance(function, FunctionType):
                rkey = function.__name__
            else:
                raise NameRequired()
""")]),
('x-get-any',[(X,"""                for rightFunc in rightFuncs:
                    if value is rightFunc:
                        if name in seen:
                            raise MethodNotExposed()
                        return value.__get__(obj, T)
                seen[name] = True
""","""                if any(value is rightFunc for rightFunc in rightFuncs):
                    if name in seen:
                        raise MethodNotExposed()
                    return value.__get__(obj, T)
                seen[name] = True
""")]),
('x-get-ids',[(X,"""        rightFuncs = self._exposed[key]
        T""","""        rightFuncs = set(map(id, self._exposed[key]))
        T"""),(X,"""                for rightFunc in rightFuncs:
                    if value is rightFunc:
                        if name in seen:
                            raise MethodNotExposed()
                        return value.__get__(obj, T)
                seen[name] = True
""","""                if id(value) in rightFuncs:
                    if name in seen:
                        raise MethodNotExposed()
                    return value.__get__(obj, T)
                seen[name] = True
""")]),
('x-get-mro',[(X,"        seen = {}\n","        seen = set()\n"),(X,"                seen[name] = True\n","                seen.add(name)\n"),(X,"inspect.getmro(T)","T.__mro__")]),
('x-get-helper',[(X,"""        T = obj.__class__
        seen = {}
        for subT in inspect.getmro(T):
            for name, value in subT.__dict__.items():
                for rightFunc in rightFuncs:
                    if value is rightFunc:
                        if name in seen:
                            raise MethodNotExposed()
                        return value.__get__(obj, T)
                seen[name] = True
        raise MethodNotExposed()
""","""        T = obj.__class__
        found = self._find(T, rightFuncs)
        if found is None:
            raise MethodNotExposed()
        return found[0].__get__(obj, T)


    def _find(self, T, rightFuncs):
        \"\"\"
        Find the exposed definition nearest to C{T} which is not overridden.
        \"\"\"
        seen = set()
        for subT in inspect.getmro(T):
            for name in list(subT.__dict__):
                value = subT.__dict__[name]
                for rightFunc in rightFuncs:
                    if value is rightFunc:
                        return None if name in seen else (value,)
            seen.update(subT.__dict__)
        return None
""")]),
('x-get-try',[(X,"""        if key not in self._exposed:
            raise MethodNotExposed()
        rightFuncs = self._exposed[key]
""","""        try:
            rightFuncs = self._exposed[key]
        except KeyError:
            raise MethodNotExposed()
""")]),
('x-get-get',[(X,"""        if key not in self._exposed:
            raise MethodNotExposed()
        rightFuncs = self._exposed[key]
""","""        rightFuncs = self._exposed.get(key, ())
""")]),
('m-get-in',[(M,"""        try:
            func = self.methods[mode]
        except KeyError:
            raise""","""        if mode in self.methods:
            func = self.methods[mode]
        else:
            raise""")]),
('m-get-hasattr',[(M,"""        try:
            mode = getattr(instance, self.modeAttribute)
        except AttributeError:
            raise AttributeError(
                "Mode attribute %r missing from %r, "
                "cannot get %r" % (self.modeAttribute, instance, self.name))
""","""        if not hasattr(instance, self.modeAttribute):
            raise AttributeError(
                "Mode attribute %r missing from %r, "
                "cannot get %r" % (self.modeAttribute, instance, self.name))
        mode = getattr(instance, self.modeAttribute)
""")]),
('m-inh',[(M,"""    try:
        return attrs[attrname]
    except KeyError:
        for base in bases:
            try:
                return _getInheritedAttribute(classname, attrname,
                                              base.__bases__,
                                              base.__dict__)
            except TypeError:
                pass
        else:
            raise TypeError('%r does not define required attribute %r' %
                            (classname,
                             attrname))
""","""    if attrname in attrs:
        return attrs[attrname]
    for base in bases:
        try:
            return _getInheritedAttribute(
                classname, attrname, base.__bases__, base.__dict__)
        except TypeError:
            continue
    raise TypeError('%r does not define required attribute %r' %
                    (classname, attrname))
""")]),
('m-new-default',[(M,"""                    if methName not in ('__module__', '__file__', '__name__'):
                        implementations.setdefault(methName, {})[k] = methDef
""","""                    if methName in ('__module__', '__file__', '__name__'):
                        continue
                    if methName not in implementations:
                        implementations[methName] = {}
                    implementations[methName][k] = methDef
""")]),
('m-new-helper',[(M,"""        for (k, v) in six.iteritems(attrs):
            if isinstance(v, type) and issubclass(v, mode):
                for (methName, methDef) in six.iteritems(v.__dict__):
                    if methName not in ('__module__', '__file__', '__name__'):
                        implementations.setdefault(methName, {})[k] = methDef
            keepAttrs[k] = v

        for (methName, methDefs) in six.viewitems(implementations):
            keepAttrs[methName] = ModalMethod(methName, methDefs, modeAttribute)
""","""        keepAttrs.update(attrs)
        modes = [(k, v) for (k, v) in attrs.items()
                 if isinstance(v, type) and issubclass(v, mode)]
        for (k, v) in modes:
            for methName in v.__dict__:
                if methName not in ('__module__', '__file__', '__name__'):
                    implementations.setdefault(methName, {})[k] = v.__dict__[methName]

        keepAttrs.update(dict(
            (methName, ModalMethod(methName, methDefs, modeAttribute))
            for (methName, methDefs) in implementations.items()))
""")]),
('m-trans',[(M,"""        self.__exit__()
        setattr(self, self.modeAttribute, stateName)
        self.__enter__()
""","""        leave = self.__exit__
        leave()
        setattr(self, self.modeAttribute, stateName)
        enter = self.__enter__
        enter()
""")]),
('c-init',[(C,"""        if isinstance(cased, Caseless):
            cased = cased.cased
        self.cased = cased
""","""        self.cased = cased.cased if isinstance(cased, Caseless) else cased
""")]),
('c-init-getattr',[(C,"""        if isinstance(cased, Caseless):
            cased = cased.cased
        self.cased = cased
""","""        while isinstance(cased, Caseless):
            cased = cased.cased
        self.cased = cased
""")]),
('c-cmp',[(C,"""        mine, theirs = self.lower(), other.lower()
        return (mine > theirs) - (mine < theirs)
""","""        mine, theirs = self.lower(), other.lower()
        if mine == theirs:
            return 0
        return -1 if mine < theirs else 1
""")]),
('c-ne',[(C,"""        return self.lower() != other.lower()
""","""        return not self == other
""")]),
('c-le',[(C,"""        return self.lower() <= other.lower()
""","""        return not other.lower() < self.lower()
""")]),
('c-sw-helper',[(C,"""        if isinstance(prefix, tuple):
            lprefix = tuple(s.lower() for s in prefix)
        else:
            lprefix = prefix.lower()
        return self.lower().startswith(lprefix, *rest)
""","""        return self.lower().startswith(_lowered(prefix), *rest)
"""),(C,"""        if isinstance(suffix, tuple):
            lsuffix = tuple(s.lower() for s in suffix)
        else:
            lsuffix = suffix.lower()
        return self.lower().endswith(lsuffix, *rest)
""","""        return self.lower().endswith(_lowered(suffix), *rest)
"""),(C,"""import six

class""","""import six

def _lowered(affix):
    \"\"\"
    The lower-case version of a string or of a tuple of strings.
    \"\"\"
    if isinstance(affix, tuple):
        return tuple([s.lower() for s in affix])
    return affix.lower()


class""")]),
('c-sw-any',[(C,"""        if isinstance(prefix, tuple):
            lprefix = tuple(s.lower() for s in prefix)
        else:
            lprefix = prefix.lower()
        return self.lower().startswith(lprefix, *rest)
""","""        prefixes = prefix if isinstance(prefix, tuple) else (prefix,)
        lowered = self.lower()
        return any(lowered.startswith(s.lower(), *rest) for s in prefixes)
""")]),
('c-in-find',[(C,"""        return substring.lower() in self.lower()
""","""        return self.lower().find(substring.lower()) != -1
""")]),
('c-count-op',[(C,"""        return self.lower().count(substring.lower(), *rest)
""","""        mine = self.lower()
        theirs = substring.lower()
        return mine.count(theirs, *rest)
""")]),
('c-index',[(C,"""        return self.lower().index(substring.lower(), *rest)
""","""        position = self.find(substring, *rest)
        if position == -1:
            raise ValueError('substring not found')
        return position
""")]),
('v-inline',[(V,"""        start, stop, step = self.bounds.indices(len(self.sequence))
        indices = six.moves.range(start, stop, step)
        return indices
""","""        return range(*self.bounds.indices(len(self.sequence)))
""")]),
('v-slice',[(V,"""        if isinstance(index, slice):
            return SlicedView(self, index)
        return self.sequence[self._getIndices()[index]]
""","""        if not isinstance(index, slice):
            indices = self._getIndices()
            return self.sequence[indices[index]]
        return type(self)(self, index)
""")]),
('v-list',[(V,"""        return self.sequence[self._getIndices()[index]]
""","""        return self.sequence[list(self._getIndices())[index]]
""")]),
('v-index-slice',[(V,"""        start, stop, step = self.bounds.indices(len(self.sequence))
        indices = six.moves.range(start, stop, step)
        return indices
""","""        return range(len(self.sequence))[self.bounds]
""")]),
('d-set',[(D,"""        return self.set(oself, value)
""","""        self.set(oself, value)
""")]),
('d-meta',[(D,"""        for kw in ['get', 'set', 'delete']:
            if kw in dict:
                dict[kw] = staticmethod(dict[kw])
        secretClass = type.__new__(meta, name, bases, dict)
        if attribute is None:
            return secretClass
        return secretClass()
""","""        dict.update([(kw, staticmethod(dict[kw]))
                     for kw in ('get', 'set', 'delete') if kw in dict])
        secretClass = super(_MetaAttribute, meta).__new__(
            meta, name, bases, dict)
        return secretClass if attribute is None else secretClass()
""")]),
('d-req',[(D,"""            if requiredAttributeName not in self.__dict__:
                raise AttributeError(
                    ('Required attribute %r has not been changed'
                     ' from its default value on %r' % (
                            requiredAttributeName, self)))
            return self.__dict__[requiredAttributeName]
        def""","""            try:
                return self.__dict__[requiredAttributeName]
            except KeyError:
                pass
            raise AttributeError(
                'Required attribute %r has not been changed'
                ' from its default value on %r' % (
                    requiredAttributeName, self))
        def""")]),
('d-req-vars',[(D,"""            if requiredAttributeName not in self.__dict__:
""","""            if requiredAttributeName not in vars(self):
"""),(D,"""            self.__dict__[requiredAttributeName] = value
""","""            vars(self)[requiredAttributeName] = value
""")]),
('rm-in',[(RM,"""        rememberedval = oself.__dict__.get(remembername, _missing)
        if rememberedval is not _missing:
            return rememberedval
        rememberme = self.creationFunction(oself)
        oself.__dict__[remembername] = rememberme
        return rememberme
""","""        if remembername not in oself.__dict__:
            oself.__dict__[remembername] = self.creationFunction(oself)
        return oself.__dict__[remembername]
""")]),
('rm-try',[(RM,"""        rememberedval = oself.__dict__.get(remembername, _missing)
        if rememberedval is not _missing:
            return rememberedval
        rememberme""","""        try:
            return oself.__dict__[remembername]
        except KeyError:
            pass
        rememberme""")]),
('rm-name',[(RM,"""        remembername = "_remembered_%s_%d" % (
            self.creationFunction.__name__, id(self))
""","""        remembername = '_remembered_{0}_{1}'.format(
            self.creationFunction.__name__, id(self))
""")]),
('rm-setattr',[(RM,"""        oself.__dict__[remembername] = rememberme
        return rememberme
""","""        setattr(oself, remembername, rememberme)
        return rememberme
""")]),
('p-swap',[(P,"""        l = self.listeners
        self.listeners = []
        for d in l:
            d.callback(result)
""","""        for d in self._takeListeners():
            d.callback(result)
"""),(P,"""        l = self.listeners
        self.listeners = []
        for d in l:
            d.errback(result)
""","""        for d in self._takeListeners():
            d.errback(result)


    def _takeListeners(self):
        listeners, self.listeners = self.listeners, []
        return listeners
""")]),
('p-copy',[(P,"""        l = self.listeners
        self.listeners = []
        for d in l:
            d.callback(result)
""","""        l = list(self.listeners)
        del self.listeners[:]
        for d in l:
            d.callback(result)
""")]),
('p-getattr',[(P,"""    def callback(self, result):
        l = self.listeners
        self.listeners = []
        for d in l:
            d.callback(result)
""","""    def _fire(self, how, result):
        l = self.listeners
        self.listeners = []
        for d in l:
            getattr(d, how)(result)

    def callback(self, result):
        self._fire('callback', result)
"""),(P,"""        if result is None:
            result = Failure()
        l = self.listeners
        self.listeners = []
        for d in l:
            d.errback(result)
""","""        self._fire('errback', Failure() if result is None else result)
""")]),
('re-state',[(RE,"""    stopping = []
    reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
""","""    state = {'stopping': False}
    def markStopping():
        state['stopping'] = True
    reactor.addSystemEventTrigger('before', 'shutdown', markStopping)
"""),(RE,"        if not stopping:\n","        if not state['stopping']:\n")]),
('re-chain',[(RE,"""    finished = main(reactor, *argv)
    finished.addErrback(err, "main function encountered error")
    def cbFinish(ignored):
        if not stopping:
            reactor.callWhenRunning(reactor.stop)
    finished.addCallback(cbFinish)
""","""    def cbFinish(ignored):
        if stopping:
            return
        reactor.callWhenRunning(reactor.stop)
    main(reactor, *argv).addErrback(
        err, "main function encountered error").addCallback(cbFinish)
""")]),
('re-both',[(RE,"""    finished.addCallback(cbFinish)
""","""    finished.addBoth(cbFinish)
""")]),
('re-nonlocal',[(RE,"""    stopping = []
    reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
""","""    stopping = False
    def shuttingDown():
        nonlocal stopping
        stopping = True
    reactor.addSystemEventTrigger('before', 'shutdown', shuttingDown)
""")]),
('h-key',[(H,"""    if (packageName, fixName) in _alreadyInstalled:
        return
""","""    fix = (packageName, fixName)
    if fix in _alreadyInstalled:
        return
"""),(H,"""    _alreadyInstalled.add((packageName, fixName))
""","""    _alreadyInstalled.add(fix)
""")]),
]
