"""C31: a modal object behaves according to its current mode."""
from verif import choose, expect, cover, fail, sym_str
from epsilon.modal import mode, Modal, ModalType, ModalMethod

COVER = ('method of the mode', 'no such method', 'transition', 'entry raised',
         'exit raised', 'no mode attribute')

log = []


def build(attr, initial, sub):
    class M(Modal):
        modeAttribute = attr
        initialMode = initial

        class alpha(mode):
            def __enter__(self):
                log.append(('enter alpha', self, getattr(self, attr)))
                act(self, 'enter alpha')

            def __exit__(self):
                log.append(('exit alpha', self, getattr(self, attr)))
                act(self, 'exit alpha')

            def one(self, *a):
                return ('alpha one', self, a)

            def two(self, *a):
                return ('alpha two', self, a)

        class beta(mode):
            def __enter__(self):
                log.append(('enter beta', self, getattr(self, attr)))
                act(self, 'enter beta')

            def __exit__(self):
                log.append(('exit beta', self, getattr(self, attr)))
                act(self, 'exit beta')

            def two(self, *a):
                return ('beta two', self, a)

            def three(self, *a):
                return ('beta three', self, a)

        def plain(self):
            return ('plain', self)
    if sub:
        class S(M):
            pass
        return S
    return M


class Boom(Exception):
    pass


def act(self, when):
    if self.__dict__.get('raise at') == when:
        raise Boom()


HAS = {'alpha': ('one', 'two'), 'beta': ('two', 'three')}


def behaves(o, m, attr):
    expect(getattr(o, attr) == m, 'the mode is kept in the declared attribute')
    for name in ('one', 'two', 'three'):
        if name in HAS.get(m, ()):
            arg = object()
            expect(getattr(o, name)(arg) == (m + ' ' + name, o, (arg,)),
                   'the implementation of the current mode is used')
            cover('method of the mode')
        else:
            try:
                getattr(o, name)
            except AttributeError:
                cover('no such method')
            else:
                fail('a method the mode lacks is an AttributeError')
    expect(o.plain() == ('plain', o), 'other methods work in every mode')


def check_modes():
    attr = choose(('mode', 'state', '_m'), 'mode attribute')
    initial = choose(('alpha', 'beta'), 'initial mode')
    C = build(attr, initial, choose(2, 'subclass'))
    o, other = C(), C()
    behaves(o, initial, attr)
    cur = initial
    for i in range(2):
        to = choose(('alpha', 'beta', None), 'step %d' % i)
        if to is None:
            # assigned directly
            to = 'beta' if cur == 'alpha' else 'alpha'
            del log[:]
            setattr(o, attr, to)
            expect(log == [], 'no action is run')
        else:
            del log[:]
            o.transitionTo(to)
            expect(log == [('exit ' + cur, o, cur), ('enter ' + to, o, to)],
                   'exit action in the old mode, then entry action in the new one, once each')
            cover('transition')
        cur = to
        behaves(o, cur, attr)
        behaves(other, initial, attr)
        behaves(C(), initial, attr)
    # a class with a mode attribute of its own leaves others alone
    D = build('mode', 'beta', False)
    behaves(D(), 'beta', 'mode')
    behaves(o, cur, attr)


def check_action_raises():
    attr = choose(('mode', 'state'), 'mode attribute')
    C = build(attr, 'alpha', False)
    o = C()
    at = choose(('exit alpha', 'enter beta'), 'raises')
    o.__dict__['raise at'] = at
    del log[:]
    try:
        o.transitionTo('beta')
    except Boom:
        pass
    else:
        fail('the error of an action is passed on')
    if at == 'exit alpha':
        expect(log == [('exit alpha', o, 'alpha')], 'the transition ends with the failed exit action')
        behaves(o, 'alpha', attr)
        cover('exit raised')
    else:
        expect(log == [('exit alpha', o, 'alpha'), ('enter beta', o, 'beta')], 'both actions, once')
        behaves(o, 'beta', attr)
        cover('entry raised')


def check_unknown_mode():
    """a mode nobody defines: no modal methods at all"""
    C = build('mode', 'alpha', False)
    o = C()
    name = choose(('other', '', 'ALPHA'), 'mode name')
    o.mode = name
    for n in ('one', 'two', 'three'):
        try:
            getattr(o, n)
        except AttributeError:
            cover('no such method')
        else:
            fail('an unknown mode has no methods')
    o.mode = 'beta'
    behaves(o, 'beta', 'mode')
    # no access through the class
    try:
        C.one
    except AttributeError:
        pass
    else:
        fail('modal methods exist on instances only')


def check_symbolic_mode():
    C = build('mode', 'alpha', False)
    o = C()
    m = sym_str('mode')
    o.mode = m
    for n in ('one', 'two', 'three'):
        try:
            r = getattr(o, n)()
        except AttributeError:
            expect(not (m == 'alpha' and n in HAS['alpha']) and not (m == 'beta' and n in HAS['beta']),
                   'a method the mode has is found')
        else:
            if m == 'alpha':
                expect(r == ('alpha ' + n, o, ()), 'implementation of the mode')
                expect(n in HAS['alpha'], 'only what the mode has')
            else:
                expect(m == 'beta', 'an unknown mode has no methods')
                expect(r == ('beta ' + n, o, ()), 'implementation of the mode')
                expect(n in HAS['beta'], 'only what the mode has')


def check_missing_attribute():
    f = lambda self: 1

    class Plain(object):
        m = ModalMethod('m', {'a': f}, 'where')
    o = Plain()
    try:
        o.m
    except AttributeError:
        cover('no mode attribute')
    else:
        fail('an object without the mode attribute has no modal methods')
    o.where = 'a'
    expect(o.m() == 1, 'the implementation of the mode')
    try:
        ModalType('Bad', (object,), {'initialMode': 'x'})
    except TypeError:
        pass
    else:
        fail('a modal class must declare its mode attribute')
    try:
        ModalType('Bad', (object,), {'modeAttribute': 'x'})
    except TypeError:
        pass
    else:
        fail('a modal class must declare its initial mode')


def check_inherited_declarations():
    """modeAttribute and initialMode may be declared in a base class"""
    C = build('state', 'beta', False)
    class S(C):
        initialMode = 'alpha'
    behaves(S(), 'alpha', 'state')
    behaves(C(), 'beta', 'state')
    class T(S):
        pass
    behaves(T(), 'alpha', 'state')


def check_several_bases():
    """declarations may come from any of the base classes, the first one counting"""
    C = build('state', 'beta', False)

    class Plain(object):
        x = 1

    class Other(Plain):
        pass
    how = choose(('last', 'middle', 'first', 'deep', 'two', 'named'), 'bases')
    if how == 'last':
        class S(Other, C):
            pass
    elif how == 'middle':
        class S(Other, C, Plain):
            pass
    elif how == 'first':
        class S(C, Other):
            pass
    elif how == 'deep':
        class X(Plain, C):
            pass

        class S(Other, X):
            pass
    elif how == 'two':
        class Mixin(object):
            initialMode = 'alpha'

        class S(Mixin, C):
            pass
        behaves(S(), 'alpha', 'state')
        behaves(C(), 'beta', 'state')
        return
    else:
        class S(Other, C):
            initialMode = 'alpha'
        behaves(S(), 'alpha', 'state')
        behaves(C(), 'beta', 'state')
        return
    o = S()
    behaves(o, 'beta', 'state')
    del log[:]
    o.transitionTo('alpha')
    expect(log == [('exit beta', o, 'beta'), ('enter alpha', o, 'alpha')], 'its transitions')
    behaves(o, 'alpha', 'state')
    behaves(S(), 'beta', 'state')
    behaves(C(), 'beta', 'state')


def check_method_names():
    """whatever the name of the method, and whatever the class itself has
    under that name"""
    class M(Modal):
        modeAttribute = 'state'
        initialMode = 'alpha'

        def _hidden(self):
            return 'class'

        def shared(self):
            return 'class'

        def own(self):
            return 'class'

        class alpha(mode):
            def _hidden(self):
                return ('alpha hidden', self)

            def shared(self):
                return ('alpha shared', self)

            def __call__(self, x):
                return ('alpha call', self, x)

            def __exit__(self):
                pass

        class beta(mode):
            def _hidden(self):
                return ('beta hidden', self)

            def __call__(self, x):
                return ('beta call', self, x)

            def __enter__(self):
                pass
    o = M()
    if choose(2, 'mode'):
        o.transitionTo('beta')
        expect(o._hidden() == ('beta hidden', o), 'a private method is that of the mode as well')
        expect(o(1) == ('beta call', o, 1), 'calling the object is up to its mode as well')
        try:
            o.shared
        except AttributeError:
            cover('no such method')
        else:
            fail('a method of one mode is not there in the others')
    else:
        expect(o._hidden() == ('alpha hidden', o), 'a private method is that of the mode as well')
        expect(o(1) == ('alpha call', o, 1), 'calling the object is up to its mode as well')
        expect(o.shared() == ('alpha shared', o), 'the implementation of the mode comes first')
    expect(o.own() == 'class', 'other methods work in every mode')
