E='expose.py'; M='modal.py'; V='view.py'; P='pending.py'; RM='remember.py'; S='structlike.py'; D='descriptor.py'
R=[
('e-nested',[(E,"""        rightFuncs = self._exposed[key]
        T = obj.__class__
        seen = {}
        for subT in inspect.getmro(T):
            for name, value in subT.__dict__.items():
                for rightFunc in rightFuncs:
                    if value is rightFunc:
                        if name in seen:
                            raise MethodNotExposed()
                        return value.__get__(obj, T)
                seen[name] = True
""","""        T = obj.__class__
        shadowed = set()
        for name, value in self._attributes(T):
            if self._isExposed(value, key):
                if name in shadowed:
                    raise MethodNotExposed()
                return value.__get__(obj, T)
            shadowed.add(name)
"""),(E,"""    def get(self, obj, key):
""","""    @staticmethod
    def _attributes(cls):
        for base in cls.__mro__:
            for item in base.__dict__.items():
                yield item


    def _isExposed(self, value, key):
        return any(value is candidate for candidate in self._exposed[key])


    def get(self, obj, key):
""")]),
('e-yieldfrom',[(E,"""        seen = {}
        for subT in inspect.getmro(T):
            for name, value in subT.__dict__.items():
                for rightFunc in rightFuncs:
                    if value is rightFunc:
                        if name in seen:
                            raise MethodNotExposed()
                        return value.__get__(obj, T)
                seen[name] = True
""","""        def attributes():
            for subT in inspect.getmro(T):
                yield from vars(subT).items()
        seen = []
        for name, value in attributes():
            if id(value) in [id(f) for f in rightFuncs]:
                if name in seen:
                    break
                return value.__get__(obj, T)
            seen.append(name)
""")]),
('e-setdef',[(E,"""            rkey = key
            if rkey is None:
                if isinstance(function, FunctionType):
                    rkey = function.__name__
                else:
                    raise NameRequired()
            if rkey not in self._exposed:
                self._exposed[rkey] = []
            self._exposed[rkey].append(function)
            return function
        return decorator
""","""            if key is not None:
                name = key
            elif isinstance(function, FunctionType):
                name = function.__name__
            else:
                raise NameRequired()
            self._exposed.setdefault(name, []).append(function)
            return function
        return decorator
""")]),
('e-dd',[(E,"""            if rkey not in self._exposed:
                self._exposed[rkey] = []
            self._exposed[rkey].append(function)
""","""            self._exposed[rkey].append(function)
"""),(E,"        self._exposed = {}\n","        self._exposed = defaultdict(list)\n"),(E,None,"from collections import defaultdict\n")]),
('m-get',[(M,"""        try:
            mode = getattr(instance, self.modeAttribute)
        except AttributeError:
            raise AttributeError(
                "Mode attribute %r missing from %r, "
                "cannot get %r" % (self.modeAttribute, instance, self.name))

        try:
            func = self.methods[mode]
        except KeyError:
            raise AttributeError(
                "Method %r missing from mode %r on %r" % (self.name, mode, instance))

        return types.MethodType(func, instance)
""","""        if not hasattr(instance, self.modeAttribute):
            raise AttributeError(
                f"Mode attribute {self.modeAttribute!r} missing from {instance!r}, "
                f"cannot get {self.name!r}")
        current = getattr(instance, self.modeAttribute)
        if current not in self.methods:
            raise AttributeError(
                f"Method {self.name!r} missing from mode {current!r} on {instance!r}")
        return types.MethodType(self.methods[current], instance)
""")]),
('m-inh',[(M,"""    try:
        return attrs[attrname]
    except KeyError:
        for base in bases:
            try:
                return _getInheritedAttribute(classname, attrname,
                                              base.__bases__,
                                              base.__dict__)
            except TypeError:
                pass
        else:
            raise TypeError('%r does not define required attribute %r' %
                            (classname,
                             attrname))
""","""    if attrname in attrs:
        return attrs[attrname]
    for base in bases:
        try:
            return _getInheritedAttribute(
                classname, attrname, base.__bases__, base.__dict__)
        except TypeError:
            continue
    raise TypeError('%r does not define required attribute %r' % (
        classname, attrname))
""")]),
('m-inh2',[(M,"""    try:
        return attrs[attrname]
    except KeyError:
        for base in bases:
            try:
                return _getInheritedAttribute(classname, attrname,
                                              base.__bases__,
                                              base.__dict__)
            except TypeError:
                pass
        else:
            raise TypeError('%r does not define required attribute %r' %
                            (classname,
                             attrname))
""","""    stack = [(bases, attrs)]
    while stack:
        parents, namespace = stack.pop()
        if attrname in namespace:
            return namespace[attrname]
        stack.extend((parent.__bases__, parent.__dict__)
                     for parent in reversed(parents))
    raise TypeError('%r does not define required attribute %r' %
                    (classname, attrname))
""")]),
('m-new',[(M,"""        implementations = {}

        keepAttrs = {modeAttribute: initialMode}
        for (k, v) in six.iteritems(attrs):
            if isinstance(v, type) and issubclass(v, mode):
                for (methName, methDef) in six.iteritems(v.__dict__):
                    if methName not in ('__module__', '__file__', '__name__'):
                        implementations.setdefault(methName, {})[k] = methDef
            keepAttrs[k] = v

        for (methName, methDefs) in six.viewitems(implementations):
            keepAttrs[methName] = ModalMethod(methName, methDefs, modeAttribute)
""","""        ignored = frozenset(['__module__', '__file__', '__name__'])
        modes = {key: value for (key, value) in attrs.items()
                 if isinstance(value, type) and issubclass(value, mode)}

        implementations = {}
        for modeName, modeType in modes.items():
            for methName in modeType.__dict__:
                if methName in ignored:
                    continue
                byMode = implementations.setdefault(methName, {})
                byMode[modeName] = modeType.__dict__[methName]

        keepAttrs = dict([(modeAttribute, initialMode)], **attrs)
        keepAttrs.update({
            methName: ModalMethod(methName, methDefs, modeAttribute)
            for (methName, methDefs) in implementations.items()})
""")]),
('v-if',[(V,"""        if isinstance(index, slice):
            return SlicedView(self, index)
        return self.sequence[self._getIndices()[index]]
""","""        if not isinstance(index, slice):
            position = self._getIndices()[index]
            return self.sequence[position]
        return self.__class__(self, index)
"""),(V,"""        start, stop, step = self.bounds.indices(len(self.sequence))
        indices = six.moves.range(start, stop, step)
        return indices
""","""        return range(*self.bounds.indices(len(self.sequence)))
""")]),
('v-arith',[(V,"""        return self.sequence[self._getIndices()[index]]
""","""        start, stop, step = self.bounds.indices(len(self.sequence))
        length = len(range(start, stop, step))
        if index < 0:
            index += length
        if not 0 <= index < length:
            raise IndexError('view index out of range')
        return self.sequence[start + index * step]
""")]),
('p-swap',[(P,"""        l = self.listeners
        self.listeners = []
        for d in l:
            d.callback(result)
""","""        for waiting in self._take():
            waiting.callback(result)

    def _take(self):
        taken, self.listeners = self.listeners, []
        return taken
"""),(P,"""        if result is None:
            result = Failure()
        l = self.listeners
        self.listeners = []
        for d in l:
            d.errback(result)
""","""        failure = Failure() if result is None else result
        for waiting in self._take():
            waiting.errback(failure)
""")]),
('p-copy',[(P,"""        l = self.listeners
        self.listeners = []
        for d in l:
            d.callback(result)
""","""        pending = tuple(self.listeners)
        del self.listeners[:]
        for d in pending:
            d.callback(result)
""")]),
('p-op',[(P,"""        l = self.listeners
        self.listeners = []
        for d in l:
            d.callback(result)
""","""        self._fire(methodcaller('callback', result))

    def _fire(self, how):
        waiting = list(self.listeners)
        self.listeners = []
        for each in waiting:
            how(each)
"""),(P,None,"from operator import methodcaller\n")]),
('rm-try',[(RM,"""        rememberedval = oself.__dict__.get(remembername, _missing)
        if rememberedval is not _missing:
            return rememberedval
        rememberme = self.creationFunction(oself)
        oself.__dict__[remembername] = rememberme
        return rememberme
""","""        try:
            return oself.__dict__[remembername]
        except KeyError:
            pass
        value = self.creationFunction(oself)
        oself.__dict__[remembername] = value
        return value
""")]),
('rm-vars',[(RM,"""        remembername = "_remembered_%s_%d" % (
            self.creationFunction.__name__, id(self))
        rememberedval = oself.__dict__.get(remembername, _missing)
        if rememberedval is not _missing:
            return rememberedval
        rememberme = self.creationFunction(oself)
        oself.__dict__[remembername] = rememberme
        return rememberme
""","""        cache = vars(oself)
        name = f"_remembered_{self.creationFunction.__name__}_{id(self)}"
        if name not in cache:
            cache[name] = self.creationFunction(oself)
        return cache[name]
""")]),
('s-init',[(S,"""        if len(args) > len(self.__names__):
            raise TypeError(
                "Got %d positional arguments but expected no more than %d" %
                (len(args), len(self.__names__)))

        for n, v in zip(self.__names__, args):
            if n in kw:
                raise TypeError("Got multiple values for argument " + n)
            kw[n] = v

        # Fill in defaults
        for n, v in zip(self.__names__[::-1], self.__defaults__[::-1]):
            if n not in kw:
                kw[n] = v

        for n in self.__names__:
            if n not in kw:
                raise TypeError('Specify a value for %r' % (n,))
            setattr(self, n, kw.pop(n))

        if kw:
            raise TypeError('Got unexpected arguments: ' + ', '.join(kw))
""","""        names = self.__names__
        if len(args) > len(names):
            raise TypeError(
                "Got {} positional arguments but expected no more than {}".format(
                    len(args), len(names)))

        positional = dict(zip(names, args))
        duplicates = [name for name in names if name in positional and name in kw]
        if duplicates:
            raise TypeError("Got multiple values for argument " + duplicates[0])

        first = len(names) - len(self.__defaults__)
        values = dict(zip(names[first:], self.__defaults__))
        values.update(positional)
        values.update(kw)

        for name in names:
            try:
                value = values.pop(name)
            except KeyError:
                raise TypeError('Specify a value for %r' % (name,))
            setattr(self, name, value)

        if values:
            raise TypeError('Got unexpected arguments: ' + ', '.join(values))
""")]),
('s-chain',[(S,"""        for n, v in zip(self.__names__[::-1], self.__defaults__[::-1]):
            if n not in kw:
                kw[n] = v
""","""        for n, v in zip(reversed(self.__names__), reversed(self.__defaults__)):
            kw.setdefault(n, v)
""")]),
('s-rec',[(S,"""    defaults = []
    for attributeName in attributeNames:
        default = kw.pop(attributeName, _NOT_SPECIFIED)
        if defaults:
            if default is _NOT_SPECIFIED:
                raise TypeError(
                    "You must specify default values like in Python; "
                    "backwards from the end of the argument list, "
                    "with no gaps")
            else:
                defaults.append(default)
        elif default is not _NOT_SPECIFIED:
            defaults.append(default)
        else:
            # This space left intentionally blank.
            pass
""","""    defaults = []
    for attributeName in attributeNames:
        if attributeName in kw:
            defaults.append(kw.pop(attributeName))
        elif defaults:
            raise TypeError(
                "You must specify default values like in Python; "
                "backwards from the end of the argument list, "
                "with no gaps")
""")]),
('s-repr',[(S,"""                return '%s(%s)' % (
                    self.__class__.__name__,
                    ', '.join(["%s=%s" %
                               (n, repr(getattr(self, n, None)))
                               for n in self.__names__]))
            return rr.recursiveRepr(self, _recordrepr)
""","""                fields = []
                for name in self2.__names__:
                    fields.append(f"{name}={getattr(self2, name, None)!r}")
                return f"{type(self2).__name__}({', '.join(fields)})"
            return rr.recursiveRepr(self, _recordrepr)
""")]),
('s-reprer',[(S,"""        ID = id(stuff)
        if ID in self.active:
            return '%s(...)' % (stuff.__class__.__name__,)
        else:
            try:
                self.active[ID] = stuff
                return thunk(stuff)
            finally:
                del self.active[ID]
""","""        key = id(stuff)
        if key in self.active:
            return stuff.__class__.__name__ + '(...)'
        self.active[key] = stuff
        try:
            return thunk(stuff)
        finally:
            self.active.pop(key)
""")]),
('d-get',[(D,"""        if oself is None:
            return self
        return self.get(oself)
""","""        return self if oself is None else self.get(oself)
"""),(D,"""            if requiredAttributeName not in self.__dict__:
                raise AttributeError(
                    ('Required attribute %r has not been changed'
                     ' from its default value on %r' % (
                            requiredAttributeName, self)))
            return self.__dict__[requiredAttributeName]
""","""            try:
                return vars(self)[requiredAttributeName]
            except KeyError:
                raise AttributeError(
                    'Required attribute %r has not been changed'
                    ' from its default value on %r' % (
                        requiredAttributeName, self))
"""),(D,"""        for kw in ['get', 'set', 'delete']:
            if kw in dict:
                dict[kw] = staticmethod(dict[kw])
""","""        dict.update([(accessor, staticmethod(dict[accessor]))
                     for accessor in ('get', 'set', 'delete')
                     if accessor in dict])
""")]),
]
