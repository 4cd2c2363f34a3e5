"""Abstract values.

Concrete immutable Python constants are represented by themselves, tuples by
host tuples of values, everything with identity by Ref (an allocation), and
unknown values by hash-consed Herbrand terms (value numbering):

  Lin   affine integer  c0 + sum(ci * term)
  SStr  segmented text/bytes: literals and opaque atoms
  Term  anything else unknown (conditions, floats, ...)
"""
from fractions import Fraction
from math import gcd


class Unsupported(Exception):
    """The analysis has no transfer function for this construct."""


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return o.__class__ is Ref and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return '#%d' % self.id


class BM:
    """Bound method."""
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __eq__(self, o):
        return o.__class__ is BM and o.func == self.func and same(o.self, self.self)

    def __hash__(self):
        return hash(('bm', self.func))

    def __repr__(self):
        return 'BM(%r,%r)' % (self.func, self.self)


class Native:
    """Built-in function with a transfer function written in the analyser."""
    __slots__ = ('name', 'fn', 'gen', 'doc', 'binds')

    def __init__(self, name, fn, gen=False, binds=True):
        self.name = name
        self.fn = fn
        self.gen = gen
        self.binds = binds

    def __eq__(self, o):
        return o is self

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return '<native %s>' % self.name


class VSlice:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a = a
        self.b = b
        self.c = c

    def __eq__(self, o):
        return o.__class__ is VSlice and same(self.a, o.a) and same(self.b, o.b) and same(self.c, o.c)

    def __hash__(self):
        return hash('slice')

    def __repr__(self):
        return 'slice(%r,%r,%r)' % (self.a, self.b, self.c)


class SplitV:
    """The pieces of an unknown text, cut at every separator; only good for joining."""
    __slots__ = ('text', 'sep')

    def __init__(self, text, sep):
        self.text = text
        self.sep = sep

    def __eq__(self, o):
        return o.__class__ is SplitV and o.sep == self.sep and o.text == self.text

    def __hash__(self):
        return hash(('split', self.sep))

    def __repr__(self):
        return '%r.split(%r)' % (self.text, self.sep)


class NSProxy:
    """The __dict__ of an object (live)."""
    __slots__ = ('ref', 'ro')

    def __init__(self, ref, ro=False):
        self.ref = ref
        self.ro = ro

    def __eq__(self, o):
        return o.__class__ is NSProxy and o.ref == self.ref

    def __hash__(self):
        return hash(('nsp', self.ref))


class Null:
    def __repr__(self):
        return 'NULL'


NULL = Null()

_intern = {}
_depth = [0]


class Term:
    __slots__ = ('op', 'args', 'ty', 'h', 'n')

    def __repr__(self):
        if self.op == 'sym':
            return str(self.args[0])
        if _depth[0] > 5:
            return '%s#%d' % (self.op, self.n)
        _depth[0] += 1
        try:
            return '%s(%s)' % (self.op, ', '.join(show(a) for a in self.args))
        finally:
            _depth[0] -= 1

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o


def T(op, args, ty):
    key = (op, _hk(args), ty)
    t = _intern.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.ty = ty
        t.h = hash(key)
        t.n = len(_intern)
        _intern[key] = t
    return t


def TI(op, args, lo=None, hi=None):
    """an uninterpreted integer function of args"""
    t = T(op, args, 'int')
    if t not in PROPS:
        PROPS[t] = dict(lo=lo, hi=hi)
    return Lin(0, ((t, 1),))


def _hk(a):
    """hashable key that keeps 1, 1.0 and True apart"""
    if a.__class__ is tuple:
        return tuple(_hk(x) for x in a)
    if a.__class__ in (Term, Ref, Lin, SStr, BM, Native, VSlice):
        return a
    return (a.__class__.__name__, a)


class Lin:
    __slots__ = ('c', 'ts', 'h')

    def __init__(self, c, ts):
        self.c = c
        self.ts = ts            # tuple of (term, coef) sorted
        self.h = hash((c, ts))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return o.__class__ is Lin and o.c == self.c and o.ts == self.ts

    def __repr__(self):
        s = ' + '.join((repr(t) if k == 1 else '%s*%r' % (k, t)) for t, k in self.ts)
        return '(%s%s)' % (s, (' + %s' % self.c) if self.c else '')


def _tkey(tk):
    return tk[0].n


def lin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return c
    return Lin(c, tuple(sorted(d.items(), key=_tkey)) if len(d) > 1 else tuple(d.items()))


def lparts(x):
    """(const, dict) of an int-like value"""
    if x.__class__ is Lin:
        return x.c, dict(x.ts)
    if x.__class__ is Term:
        return 0, {x: 1}
    return int(x), {}


def ladd(a, b, k=1):
    ca, da = lparts(a)
    cb, db = lparts(b)
    for t, q in db.items():
        da[t] = da.get(t, 0) + k * q
    return lin(ca + k * cb, da)


def lmul(a, k):
    c, d = lparts(a)
    return lin(c * k, {t: q * k for t, q in d.items()})


def ivar(t):
    """Integer term as value"""
    return Lin(0, ((t, 1),))


class SStr:
    """Segmented string: segs are literals (str/bytes) or atom Terms."""
    __slots__ = ('kind', 'segs', 'h')

    def __init__(self, kind, segs):
        self.kind = kind
        self.segs = segs
        self.h = hash((kind, segs))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return o.__class__ is SStr and o.kind == self.kind and o.segs == self.segs

    def __repr__(self):
        return '<' + ' '.join(repr(s) for s in self.segs) + '>'


def is_const(v):
    c = v.__class__
    if c in (int, str, bytes, bool, float, type(None), complex, type(Ellipsis), type(NotImplemented)):
        return True
    if c is tuple:
        return all(is_const(x) for x in v)
    return False


def same(a, b):
    """identical abstract value (not: provably equal)"""
    if a.__class__ is not b.__class__:
        return False
    if a.__class__ is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a.__class__ is float and a != a:
        return b != b
    return a == b


def show(v):
    if v.__class__ is tuple:
        return '(%s)' % ', '.join(show(x) for x in v)
    return repr(v)


def terms_in(v, acc=None):
    """All terms occurring in a value (not through the heap)."""
    if acc is None:
        acc = set()
    c = v.__class__
    if c is Term:
        if v not in acc:
            acc.add(v)
            for a in v.args:
                terms_in(a, acc)
    elif c is Lin:
        for t, _ in v.ts:
            terms_in(t, acc)
    elif c is SStr:
        for s in v.segs:
            if s.__class__ is Term:
                terms_in(s, acc)
    elif c is tuple:
        for x in v:
            terms_in(x, acc)
    elif c is VSlice:
        for x in (v.a, v.b, v.c):
            terms_in(x, acc)
    elif c is BM:
        terms_in(v.self, acc)
    return acc


# ---------------------------------------------------------------- atom properties
PROPS = {}


def props(t):
    p = PROPS.get(t)
    if p is None:
        p = PROPS[t] = derive_props(t)
    return p


def derive_props(t):
    op = t.op
    if op in ('encode', 'decode', 'lower', 'upper', 'title', 'swapcase', 'nativestr'):
        p = dict(props(t.args[0])) if t.args[0].__class__ is Term else {}
        if op == 'encode':
            if not p.get('ascii'):
                p = {k: v for k, v in p.items() if k in ('excl', 'nonempty')}
        elif op == 'decode':
            if not p.get('ascii'):
                p = {k: v for k, v in p.items() if k in ('excl', 'nonempty')}
        else:
            p.pop('excl', None)
            p.pop('lower', None)
            ex = [e for e in (props(t.args[0]).get('excl', ())) if not _has_alpha(e)]
            if ex:
                p['excl'] = frozenset(ex)
            if op == 'lower':
                p['lower'] = True
        return p
    if op == 'ssub':           # ssub(atom, i, j) substring
        a = props(t.args[0])
        p = {k: v for k, v in a.items() if k in ('excl', 'ascii', 'digits', 'lower')}
        if a.get('intlit') or a.get('intchars'):
            p['intchars'] = True
        i, j = t.args[1], t.args[2]
        if i.__class__ is int and j.__class__ is int:
            p['len'] = j - i
        return p
    if op == 'dec':            # decimal digits of non-negative int, zero padded to exactly width
        return dict(digits=True, ascii=True, len=t.args[1], excl=frozenset(), lower=True)
    if op == 'repr' and t.args[0].__class__ is Term and t.args[0].ty == 'float':
        return dict(ascii=True, nonempty=True, lower=True, excl=frozenset('\r\n\t :,;|/\\\'"()[]{}%#_=*'))
    if op == 'decv':           # str(int): variable width
        return dict(ascii=True, nonempty=True, intlit=True, lower=True)
    if op == 'sreplace':
        a = props(t.args[0])
        p = {k: v for k, v in a.items() if k in ('ascii', 'nonempty')}
        x, y = t.args[1], t.args[2]
        ex = set()
        for e in a.get('excl', ()):
            if not (set(e) & set(y)):
                ex.add(e)
        if not (set(x) & set(y)) and len(x) == 1:
            ex.add(x)
        if len(x) == len(y) == 1 and not (_has_alpha(x) or _has_alpha(y)) and a.get('lower'):
            p['lower'] = True
        if ex:
            p['excl'] = frozenset(ex)
        if 'len' in a and len(x) == len(y):
            p['len'] = a['len']
        return p
    if op in ('fmt', 'repr'):
        return {}
    return {}


def _has_alpha(e):
    if isinstance(e, bytes):
        e = e.decode('latin-1')
    return e.lower() != e.upper()


def atom_len(t):
    p = props(t)
    if 'len' in p:
        return p['len']
    if t.op in ('lower', 'upper', 'title', 'swapcase') and p.get('ascii'):
        return atom_len(t.args[0])
    if t.op in ('encode', 'decode') and p.get('ascii'):
        return atom_len(t.args[0])
    if t.op == 'sreplace' and len(t.args[1]) == len(t.args[2]):
        return atom_len(t.args[0])
    if t.op == 'ssub':
        a, i, j = t.args
        return ladd(atom_len(a) if j is None else j, i, -1)
    if t.op == 'hexd':
        pass
    return ivar(T('len', (t,), 'int'))
