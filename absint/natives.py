"""Built-in objects: types, operators, iteration, containers."""
import dis
import operator as _op
import builtins as HB

from .values import *
from . import facts as F
from . import strings as S
from . import floats as FL
from .vm import (NeedFork, AbsRaise, PathEnd, Call, Do, PUSHED, Obj, DData, ClassData, FuncData, GenData,
                 CellV, CodeInfo, Frame, NFrame, Park)
from . import vm as VMM


class _Mark:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


STOP = _Mark('STOP')
DEFER = _Mark('DEFER')

NUMC = (int, bool, float)


def layout(vm, st, v):
    c = v.__class__
    if c is Ref:
        o = st.get(v)
        if o.data.__class__ is ClassData:
            return 'type'
        return st.get(o.cls).data.layout
    if c is tuple:
        return 'tuple'
    if c is SStr:
        return v.kind
    if c is NSProxy:
        return 'dict'
    return VMM._TN.get(c)


def unwrap(st, v):
    """value of an instance of a subclass of an immutable builtin"""
    if v.__class__ is Ref:
        o = st.get(v)
        if o.data.__class__ is not ClassData and st.get(o.cls).data.layout in ('str', 'bytes', 'int', 'float', 'tuple'):
            return trim(st, o.data) if o.data.__class__ is SStr else o.data
    elif v.__class__ is SStr:
        return trim(st, v)
    return v


def trim(st, v):
    """text without the parts known to be empty"""
    for s in v.segs:
        if s.__class__ is Term and st.facts.bounds(S.atom_len(s), 0)[1] == 0:
            break
    else:
        return v
    return S.mk(v.kind, [s for s in v.segs if not (s.__class__ is Term and st.facts.bounds(S.atom_len(s), 0)[1] == 0)])


def is_int(v):
    return v.__class__ in (int, bool, Lin) or v.__class__ is Term and v.ty in ('int', 'bool')


def as_int(v, vm=None, st=None):
    """numeric value of a bool/int-like value as int or Lin"""
    if v.__class__ is bool:
        return int(v)
    if v.__class__ is Term and v.ty == 'int':
        return ivar(v)
    if v.__class__ is Term and v.ty == 'bool':
        if vm is None:
            raise Unsupported('bool term as number')
        return int(vm.decide(st, v))
    return v


def is_txt(v):
    return v.__class__ in (str, bytes, SStr)


def is_float(v):
    return v.__class__ is float or v.__class__ is Term and v.ty == 'float'


# ================================================================ dict handles
def custom(vm, st, k):
    """key whose hashing/equality is defined in analysed code"""
    if k.__class__ is Ref:
        if vm.user_special(st, k, '__eq__') is not None or vm.user_special(st, k, '__hash__') is not None:
            return True
        return False
    if k.__class__ is tuple:
        return any(custom(vm, st, x) for x in k)
    return False


def ckey(vm, st, k):
    c = k.__class__
    if c is str:
        return ('str', k)
    if c is bytes:
        return ('bytes', k)
    if c in (int, bool):
        return ('num', int(k))
    if c is float:
        return ('num', int(k)) if k == k and k not in (float('inf'), float('-inf')) and k == int(k) else ('f', repr(k))
    if c is complex:
        return ('cx', k)
    if k is None or k is Ellipsis or k is NotImplemented:
        return ('c', repr(k))
    if c is tuple:
        return ('tuple', tuple(ckey(vm, st, x) for x in k))
    if c is Ref:
        lay = layout(vm, st, k)
        if custom(vm, st, k):
            return ('cust', k.id)
        if lay in ('list', 'dict', 'set'):
            vm.throw(st, 'TypeError', "unhashable type: '%s'" % lay)
        r = vm.lookup_cls(st, st.get(k).cls, '__hash__')
        if r is not None and r[0] is None:
            vm.throw(st, 'TypeError', "unhashable type: '%s'" % vm.cname(st, st.get(k).cls))
        if lay in ('str', 'bytes', 'int', 'float', 'tuple'):
            return ckey(vm, st, st.get(k).data)
        if lay == 'frozenset':
            return ('fs', frozenset(st.get(k).data.e))
        return ('ref', k.id)
    if c is BM:
        return ('bm', k.func, ckey(vm, st, k.self) if k.self.__class__ is Ref else k.self)
    if c is Native:
        return ('nat', id(k))
    if c in (SStr, Lin, Term):
        return ('sym', k)
    if c is NSProxy:
        vm.throw(st, 'TypeError', "unhashable type: 'dict'")
    if c is VSlice:
        vm.throw(st, 'TypeError', "unhashable type: 'slice'")
    raise Unsupported('dict key %r' % (k,))


def symbolic_key(ck):
    if ck[0] == 'sym':
        return True
    if ck[0] == 'tuple':
        return any(symbolic_key(x) for x in ck[1])
    return False


def cust_key(ck):
    return ck[0] == 'cust' or ck[0] == 'tuple' and any(cust_key(x) for x in ck[1])


class H:
    """Handle on a dict-like object."""

    def __init__(self, vm, st, v):
        self.vm = vm
        self.st = st
        self.v = v
        self.ns = v.__class__ is NSProxy

    @property
    def d(self):
        return self.st.get(self.v).data

    def _names(self):
        o = self.st.get(self.v.ref)
        return o.attrs

    def items(self):
        if self.ns:
            hide = ('__origin__', '__where__')
            return [(k, x) for k, x in self._names().items() if k not in hide]
        return [(k, x) for k, x in self.d.e.values()]

    def keys(self):
        return [k for k, _ in self.items()]

    def values(self):
        return [x for _, x in self.items()]

    def __len__(self):
        return len(self.items()) if self.ns else len(self.d.e)

    def slot(self, key):
        """canonical key of the matching entry or None (may fork)"""
        vm, st = self.vm, self.st
        key = unwrap(st, key)
        ck = ckey(vm, st, key)
        if self.ns:
            names = self._names()
            if ck[0] == 'str':
                return ck if ck[1] in names else None
            if ck[0] == 'sym':
                for n in list(names):
                    if vm.decide(st, c_eq(vm, st, key, n)):
                        return ('str', n)
            return None
        e = self.d.e
        if ck in e:
            return ck
        if ck[0] == 'cust' or self.d.sym and any(cust_key(x) for x in e):
            if not e:
                return None
            raise Unsupported('custom key in this container operation')
        if symbolic_key(ck):
            for ek, (k, _) in list(e.items()):
                r = c_eq(vm, st, key, k)
                if vm.decide(st, r):
                    return ek
            return None
        if self.d.sym:
            for ek, (k, _) in list(e.items()):
                if symbolic_key(ek):
                    if vm.decide(st, c_eq(vm, st, key, k)):
                        return ek
        return None

    def find(self, key):
        s = self.slot(key)
        if s is None:
            return None
        if self.ns:
            return (s[1], self._names()[s[1]])
        return self.d.e[s]

    def get(self, key, default=NULL):
        e = self.find(key)
        return default if e is None else e[1]

    def put(self, s, key, val):
        """store at slot s (None: new)"""
        st, vm = self.st, self.vm
        if self.ns:
            if self.v.ro:
                vm.throw(st, 'TypeError', "'mappingproxy' object does not support item assignment")
            key = unwrap(st, key)
            if key.__class__ is not str:
                raise Unsupported('unknown name stored in __dict__')
            st.mut(self.v.ref).attrs[key] = val
            return
        d = st.mut(self.v).data
        if s is not None:
            d.e[s] = (d.e[s][0], val)
        else:
            ck = ckey(vm, st, unwrap(st, key))
            if symbolic_key(ck) or cust_key(ck):
                d.sym += 1
            d.e[ck] = (key, val)

    def set(self, key, val):
        self.put(self.slot(key), key, val)

    def remove(self, s):
        st = self.st
        if self.ns:
            del st.mut(self.v.ref).attrs[s[1]]
            return
        d = st.mut(self.v).data
        if symbolic_key(s) or cust_key(s):
            d.sym -= 1
        del d.e[s]

    def clear(self):
        if self.ns:
            st = self.st
            o = st.mut(self.v.ref)
            for k in list(o.attrs):
                del o.attrs[k]
            return
        d = self.st.mut(self.v).data
        d.e = {}
        d.sym = 0


def handle(vm, st, v):
    if v.__class__ is NSProxy:
        return H(vm, st, v)
    if v.__class__ is Ref:
        o = st.get(v)
        if o.data.__class__ is DData:
            return H(vm, st, v)
        if st.get(o.cls).data.layout == 'mappingproxy':
            return handle(vm, st, o.data)
    return None


def needs_gen(vm, st, h, key):
    if h.ns:
        return False
    return custom(vm, st, key) or bool(h.d.sym and any(cust_key(x) for x in h.d.e))


def slot_gen(vm, st, args, kw):
    """(container, key) -> slot, honouring user-defined __hash__/__eq__"""
    v, key = args
    h = H(vm, st, v)
    entries = yield Do(lambda: list(h.d.e.items()))
    hk = yield Call(N_HASH, (key,))
    for ck, (k, _) in entries:
        if k.__class__ is key.__class__ and same(k, key):
            return ck
        h2 = yield Call(N_HASH, (k,))
        if not truth_now(vm, st, c_eq(vm, st, hk, h2)):
            continue
        r = yield Call(N_EQ, (k, key))
        r = yield Call(N_BOOL, (r,))
        if r:
            return ck
    return None


def truth_now(vm, st, c):
    return vm.decide(st, c)


def new_dict(vm, st, pairs, cls=None):
    r = st.alloc(cls or vm.types['dict'], None, DData())
    h = H(vm, st, r)
    for k, v in pairs:
        h.set(k, v)
    return r


def new_set(vm, st, vals, cls=None):
    r = st.alloc(cls or vm.types['set'], None, DData())
    h = H(vm, st, r)
    for v in vals:
        h.set(v, None)
    return r


def build_set_gen(vm, st, args, kw):
    r = yield Do(lambda: st.alloc(vm.types['set'], None, DData()))
    for k in args:
        yield Call(Native('si', setitem_gen, True), (r, k, None))
    return r


def build_dict_gen(vm, st, args, kw):
    r = yield Do(lambda: st.alloc(vm.types['dict'], None, DData()))
    for k, v in args:
        yield Call(Native('si', setitem_gen, True), (r, k, v))
    return r


def const_frozenset(vm, st, v):
    return new_set(vm, st, sorted(v, key=repr), vm.types['frozenset'])


def new_list(vm, st, vals):
    return st.alloc(vm.types['list'], None, list(vals))


def listlike(st, v):
    """host sequence of a list/tuple value, or None"""
    if v.__class__ is tuple:
        return v
    if v.__class__ is Ref:
        o = st.get(v)
        if o.data.__class__ is ClassData:
            return None
        lay = st.get(o.cls).data.layout
        if lay in ('list', 'tuple'):
            return o.data
    return None


# ================================================================ equality
def cnot(c):
    if c is True or c is False:
        return not c
    if c.op == 'not':
        return c.args[0]
    return T('not', (c,), 'bool')


def c_eq(vm, st, a, b):
    """a == b without running analysed code: True/False/Term/DEFER"""
    a, b = unwrap2(vm, st, a), unwrap2(vm, st, b)
    ca, cb = a.__class__, b.__class__
    if ca is Ref or cb is Ref:
        if a is b or ca is cb and a.id == b.id:
            if vm.user_special(st, a, '__eq__') is None:
                return True
            return DEFER
        for x in (a, b):
            if x.__class__ is Ref and vm.user_special(st, x, '__eq__') is not None:
                return DEFER
        la, lb = layout(vm, st, a), layout(vm, st, b)
        if la == 'list' and lb == 'list':
            return seq_eq(vm, st, st.get(a).data, st.get(b).data)
        if la == 'dict' and lb == 'dict':
            return dict_eq(vm, st, a, b)
        if la in ('set', 'frozenset') and lb in ('set', 'frozenset'):
            ha, hb = H(vm, st, a), H(vm, st, b)
            if len(ha) != len(hb):
                return False
            return all(hb.find(k) is not None for k in ha.keys())
        if la == 'range' and lb == 'range':
            return st.get(a).data == st.get(b).data
        for x, y in ((a, b), (b, a)):
            if x.__class__ is Term and x.ty not in vm.types:
                raise Unsupported('comparison with %r' % (x,))
        return False
    if ca is tuple and cb is tuple:
        return seq_eq(vm, st, a, b)
    if is_txt(a) and is_txt(b):
        r = S.c_eq(a, b)
        if r.__class__ is Term:
            pa, pb = S.prune(st, a), S.prune(st, b)
            if pa is not a or pb is not b:
                r = S.c_eq(pa, pb)
        return r
    if ca is Term and a.ty == 'bool' or cb is Term and b.ty == 'bool':
        if ca is Term and a.ty == 'bool' and cb is bool:
            return a if b else cnot(a)
        if cb is Term and b.ty == 'bool' and ca is bool:
            return b if a else cnot(b)
        if a is b:
            return True
        if ca is Term and a.ty == 'bool':
            a = vm.decide(st, a)
        if b.__class__ is Term and b.ty == 'bool':
            b = vm.decide(st, b)
        return c_eq(vm, st, a, b)
    if is_int(a) and is_int(b):
        return int_eq(vm, st, as_int(a, vm, st), as_int(b, vm, st))
    if is_const(a) and is_const(b):
        return bool(a == b)
    if (is_float(a) or is_int(a)) and (is_float(b) or is_int(b)):
        if same(a, b):
            return True
        a, b = fnorm(a), fnorm(b)
        if same(a, b):
            return True
        r = FL.equal(st, a, b)
        return T('eq', tuple(sorted((a, b), key=repr)), 'bool') if r is None else r
    if ca is BM and cb is BM:
        return a == b
    if ca is Native and cb is Native:
        return a is b
    if ca is NSProxy or cb is NSProxy:
        if layout(vm, st, a) == 'dict' and layout(vm, st, b) == 'dict':
            return dict_eq(vm, st, a, b)
        return False
    if ca is VSlice and cb is VSlice:
        return seq_eq(vm, st, (a.a, a.b, a.c), (b.a, b.b, b.c))
    for x in (a, b):
        if x.__class__ is Term and x.ty not in vm.types:
            if same(a, b):
                return True
            raise Unsupported('comparison with %r' % (x,))
    if ca is Term and cb is Term and a.ty == b.ty:
        if a is b:
            return True
        return T('eq', tuple(sorted((a, b), key=repr)), 'bool')
    return False


def unwrap2(vm, st, v):
    """like unwrap, but keep instances whose class redefines __eq__"""
    if v.__class__ is Ref:
        u = unwrap(st, v)
        if u is not v and vm.user_special(st, v, '__eq__') is None:
            return u
    return v


def fnorm(v):
    if v.__class__ in (int, bool):
        return float(v)
    if v.__class__ is Lin:
        return T('tofloat', (v,), 'float')
    return v


def int_eq(vm, st, a, b):
    x = ladd(a, b, -1)
    if x.__class__ is Lin and len(x.ts) == 2 and x.c == 0:
        (t1, k1), (t2, k2) = x.ts
        if t1.op == t2.op == 'hash' and k1 == -k2:
            return c_eq(vm, st, t1.args[0], t2.args[0])
    if x.__class__ is Lin and any(t.op == 'hash' for t, _ in x.ts):
        return False
    return F.c_eq_int(a, b)


def seq_eq(vm, st, a, b):
    if len(a) != len(b):
        return False
    pend = []
    for x, y in zip(a, b):
        r = c_eq(vm, st, x, y)
        if r is False:
            return False
        if r is DEFER:
            return DEFER
        if r is not True:
            pend.append(r)
    for r in pend:
        if not vm.decide(st, r):
            return False
    return True


def dict_eq(vm, st, a, b):
    ha, hb = handle(vm, st, a), handle(vm, st, b)
    if len(ha) != len(hb):
        return False
    pend = []
    for k, v in ha.items():
        if needs_gen(vm, st, hb, k):
            return DEFER
        e = hb.find(k)
        if e is None:
            return False
        pend.append((v, e[1]))
    for x, y in pend:
        r = c_eq(vm, st, x, y)
        if r is DEFER:
            return DEFER
        if not vm.decide(st, r):
            return False
    return True


def compare(vm, st, op, a, b):
    if op == '==' or op == '!=':
        for x in (a, b):
            if x.__class__ is SplitV:
                raise Unsupported('comparison of %r' % (x,))
            if x.__class__ is Ref and (vm.user_special(st, x, '__eq__') is not None or
                                       vm.user_special(st, x, '__ne__') is not None):
                return DEFER
        r = c_eq(vm, st, a, b)
        if r is DEFER:
            return r
        return r if op == '==' else cnot(r)
    a, b = unwrap(st, a), unwrap(st, b)
    if is_int(a) and is_int(b):
        a, b = as_int(a, vm, st), as_int(b, vm, st)
        if a.__class__ is Lin or b.__class__ is Lin:
            return {'<': lambda: F.c_lt(a, b), '<=': lambda: F.c_le(a, b),
                    '>': lambda: F.c_lt(b, a), '>=': lambda: F.c_le(b, a)}[op]()
    if a.__class__ in NUMC and b.__class__ in NUMC or a.__class__ is b.__class__ and a.__class__ in (str, bytes):
        return HOSTCMP[op](a, b)
    if is_txt(a) and is_txt(b) and S.kind_of(a) == S.kind_of(b):
        if op in ('>', '>='):
            a, b = b, a
            op = {'>': '<', '>=': '<='}[op]
        e = S.c_eq(a, b)
        if vm.decide(st, e):
            return op == '<='
        return str_lt(a, b)
    if a.__class__ is tuple and b.__class__ is tuple:
        return seq_cmp(vm, st, op, a, b)
    if (is_float(a) or is_int(a)) and (is_float(b) or is_int(b)):
        a, b = fnorm(a), fnorm(b)
        if op in ('>', '>='):
            a, b = b, a
            op = {'>': '<', '>=': '<='}[op]
        if same(a, b):
            return op == '<='
        r = FL.less(st, a, b) if op == '<' else FL.less(st, b, a)
        if r is not None:
            return r if op == '<' else (not r) if r.__class__ is bool else cnot(r)
        if op == '<':
            return T('flt', (a, b), 'bool')
        return cnot(T('flt', (b, a), 'bool'))
    if a.__class__ is Ref or b.__class__ is Ref:
        la, lb = listlike(st, a), listlike(st, b)
        if la is not None and lb is not None and layout(vm, st, a) == layout(vm, st, b) == 'list':
            return seq_cmp(vm, st, op, tuple(la), tuple(lb))
        if layout(vm, st, a) in ('set', 'frozenset') and layout(vm, st, b) in ('set', 'frozenset'):
            ha, hb = H(vm, st, a), H(vm, st, b)
            sub = all(hb.find(k) is not None for k in ha.keys())
            sup = all(ha.find(k) is not None for k in hb.keys())
            return {'<': sub and not sup, '<=': sub, '>': sup and not sub, '>=': sup}[op]
        return DEFER
    if a.__class__ is Term and a.ty not in vm.types or b.__class__ is Term and b.ty not in vm.types:
        raise Unsupported('ordering of %r and %r' % (a, b))
    vm.throw(st, 'TypeError', "'%s' not supported between instances of '%s' and '%s'" % (
        op, vm.cname(st, vm.type_of(st, a)), vm.cname(st, vm.type_of(st, b))))


def str_lt(a, b):
    if repr(a) <= repr(b):
        return T('slt', (a, b), 'bool')
    return cnot(T('slt', (b, a), 'bool'))


def seq_cmp(vm, st, op, a, b):
    for x, y in zip(a, b):
        r = c_eq(vm, st, x, y)
        if r is DEFER:
            return DEFER
        if not vm.decide(st, r):
            return compare(vm, st, op, x, y)
    return HOSTCMP[op](len(a), len(b))


HOSTCMP = {'<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge, '==': _op.eq, '!=': _op.ne}
DUNDER = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__', '==': '__eq__', '!=': '__ne__'}
REFL = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def compare_gen(vm, st, args, kw):
    op, a, b = args
    ta, tb = vm.type_of(st, a), vm.type_of(st, b)
    order = [(a, b, DUNDER[op]), (b, a, DUNDER[REFL[op]])]
    if ta != tb and vm.subclass(st, tb, ta) and vm.user_special(st, b, DUNDER[REFL[op]]) is not None:
        order.reverse()
    for x, y, name in order:
        m = vm.user_special(st, x, name)
        if m is None and name == '__ne__':
            m2 = vm.user_special(st, x, '__eq__')
            if m2 is not None:
                r = yield Call(m2, (x, y))
                if r is not NotImplemented:
                    t = yield Call(N_BOOL, (r,))
                    return not t
            continue
        if m is None:
            continue
        r = yield Call(m, (x, y))
        if r is not NotImplemented:
            return r
    if op in ('==', '!='):
        # containers holding values with user equality
        la, lb = listlike(st, a), listlike(st, b)
        r = None
        if la is not None and lb is not None and layout(vm, st, a) == layout(vm, st, b):
            la, lb = yield Do(lambda: (tuple(la), tuple(lb)))
            r = len(la) == len(lb)
            if r:
                for x, y in zip(la, lb):
                    if x.__class__ is Ref and y.__class__ is Ref and x == y:
                        continue
                    e = yield Call(N_EQ, (x, y))
                    e = yield Call(N_BOOL, (e,))
                    if not e:
                        r = False
                        break
        elif layout(vm, st, a) == 'dict' and layout(vm, st, b) == 'dict' and vm.user_special(st, a, '__eq__') is None:
            ia = yield Do(lambda: handle(vm, st, a).items())
            r = len(ia) == len(handle(vm, st, b))
            if r:
                for k, v in ia:
                    s = yield Call(Native('slot', slot_gen, True), (b, k))
                    if s is None:
                        r = False
                        break
                    e = yield Call(N_EQ, (v, H(vm, st, b).d.e[s][1]))
                    e = yield Call(N_BOOL, (e,))
                    if not e:
                        r = False
                        break
        if r is None:
            r = a.__class__ is b.__class__ and a.__class__ is Ref and a == b
        return r if op == '==' else not r
    la, lb = listlike(st, a), listlike(st, b)
    if la is not None and lb is not None and layout(vm, st, a) == layout(vm, st, b):
        la, lb = yield Do(lambda: (tuple(la), tuple(lb)))
        for x, y in zip(la, lb):
            e = yield Call(N_EQ, (x, y))
            e = yield Call(N_BOOL, (e,))
            if not e:
                r = yield Call(Native('cmp', compare_gen_any, True), (op, x, y))
                return r
        return HOSTCMP[op](len(la), len(lb))
    vm.throw(st, 'TypeError', "'%s' not supported between instances of '%s' and '%s'" % (
        op, vm.cname(st, ta), vm.cname(st, tb)))


def compare_gen_any(vm, st, args, kw):
    op, a, b = args
    r = compare(vm, st, op, a, b)
    if r is DEFER:
        r = yield Call(Native('cmp', compare_gen, True), (op, a, b))
    return r
    yield


def is_(vm, st, a, b):
    if a.__class__ is not b.__class__:
        if a.__class__ is Term and b.__class__ is bool or b.__class__ is Term and a.__class__ is bool:
            t, c = (a, b) if a.__class__ is Term else (b, a)
            if t.ty == 'bool':
                return vm.decide(st, t) == c
        for x, y in ((a, b), (b, a)):
            if x.__class__ is Term and x.ty not in vm.types:
                raise Unsupported('identity of %r' % (x,))
        return False
    if a.__class__ is Term:
        if a is b:
            return True
        if a.ty == 'bool' and b.ty == 'bool':
            return vm.decide(st, a) == vm.decide(st, b)
        raise Unsupported('identity of %r and %r' % (a, b))
    return same(a, b)


# ================================================================ truth
def truth(vm, st, v):
    c = v.__class__
    if c is bool:
        return v
    if v is None:
        return False
    if c is Term:
        if v.ty == 'bool':
            return vm.decide(st, v)
        if v.ty == 'int':
            return vm.decide(st, cnot(F.c_eq_int(v, 0)))
        if v.ty in vm.types:
            if v.ty == 'float':
                r = FL.equal(st, v, 0.0)
                return not vm.decide(st, T('eq', tuple(sorted((v, 0.0), key=repr)), 'bool') if r is None else r)
            return vm.decide(st, T('truthy', (v,), 'bool'))
        raise Unsupported('truth of %r' % (v,))
    if c is Lin:
        return vm.decide(st, cnot(F.c_eq_int(v, 0)))
    if c is SStr:
        n = S.slen(v)
        if n.__class__ is int:
            return n > 0
        # empty: every atom empty
        return not vm.decide(st, S.c_eq(v, S.lit0(v.kind)))
    if c is Ref:
        if vm.user_special(st, v, '__bool__') is not None:
            return None
        if st.get(v).data.__class__ is ClassData:
            return True
        if vm.user_special(st, v, '__len__') is not None:
            return None
        lay = layout(vm, st, v)
        if lay in ('list', 'tuple'):
            return len(st.get(v).data) > 0
        if lay in ('dict', 'set', 'frozenset', 'mappingproxy'):
            return len(handle(vm, st, v)) > 0
        if lay in ('str', 'bytes', 'int', 'float'):
            return truth(vm, st, st.get(v).data)
        if lay == 'dictview':
            return len(handle(vm, st, st.get(v).data[1])) > 0
        if lay == 'range':
            r = st.get(v).data
            return vm.decide(st, F.c_lt(r[0], r[1]) if r[2] > 0 else F.c_lt(r[1], r[0]))
        if lay == 'bytearray':
            return truth(vm, st, st.get(v).data[0])
        return True
    if c is NSProxy:
        return len(handle(vm, st, v)) > 0
    if c in (BM, Native, VSlice, CellV):
        return True
    return bool(v)


def bool_gen(vm, st, args, kw):
    if not args:
        return False
    v = args[0]
    t = truth(vm, st, v)
    if t is not None:
        return t
    m = vm.user_special(st, v, '__bool__')
    if m is not None:
        r = yield Call(m, (v,))
        if r.__class__ is Term:
            r = vm.decide(st, r)
        if r.__class__ is not bool:
            vm.throw(st, 'TypeError', '__bool__ should return bool')
        return r
    r = yield Call(vm.user_special(st, v, '__len__'), (v,))
    return truth(vm, st, r)


N_BOOL = Native('bool', bool_gen, True, False)


def eq_gen(vm, st, args, kw):
    a, b = args
    r = compare(vm, st, '==', a, b)
    if r is DEFER:
        r = yield Call(Native('cmp', compare_gen, True), ('==', a, b))
    return r
    yield


N_EQ = Native('eq', eq_gen, True, False)


def hash_gen(vm, st, args, kw):
    v = args[0]
    m = vm.special(st, v, '__hash__')
    if m is None or m.__class__ is Ref and False:
        vm.throw(st, 'TypeError', "unhashable type: '%s'" % vm.cname(st, vm.type_of(st, v)))
    if m.__class__ is not Native:
        r = yield Call(m, (v,))
        if r is None or r.__class__ in (str, bytes, tuple, float):
            vm.throw(st, 'TypeError', '__hash__ method should return an integer')
        return r
    if v.__class__ is tuple:
        hs = []
        for x in v:
            h = yield Call(N_HASH, (x,))
            hs.append(h)
        return ivar(T('hash', (('tuple',) + tuple(hs),), 'int'))
    v = unwrap(st, v)
    ckey(vm, st, v)
    if v.__class__ is bool:
        v = int(v)
    if v.__class__ is Ref and layout(vm, st, v) == 'frozenset':
        return ivar(T('hash', (tuple(sorted(map(repr, st.get(v).data.e))),), 'int'))
    return ivar(T('hash', (v,), 'int'))


N_HASH = Native('hash', hash_gen, True, False)


# ================================================================ arithmetic
HOSTOP = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv, '//': _op.floordiv, '%': _op.mod,
          '**': _op.pow, '<<': _op.lshift, '>>': _op.rshift, '&': _op.and_, '|': _op.or_, '^': _op.xor}
OPNAME = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
          '<<': 'lshift', '>>': 'rshift', '&': 'and', '|': 'or', '^': 'xor', '@': 'matmul'}


def floordiv(vm, st, x, k):
    """x // k for affine x and constant k > 0"""
    x = st.facts.fold(x)
    if x.__class__ is int:
        return x // k
    if k == 1:
        return x
    # split off multiples of k
    c, d = x.c, dict(x.ts)
    q = {}
    for t, a in list(d.items()):
        m = a // k
        if a % k == 0:
            q[t] = m
            del d[t]
    qc, c = divmod(c, k)
    rest = lin(c, d)
    out = lin(qc, q)
    if rest.__class__ is int:
        return ladd(out, rest // k)
    lo, hi = st.facts.bounds(rest)
    if lo is not None and hi is not None and lo // k == hi // k:
        return ladd(out, lo // k)
    # common factor
    g = k
    for t, a in rest.ts:
        g = gcd(g, a)
    if g > 1:
        r2 = lin(rest.c // g, {t: a // g for t, a in rest.ts})
        return ladd(out, floordiv(vm, st, r2, k // g) if k // g > 1 else r2)
    # (y//m)//k = y//(m*k)
    if rest.c == 0 and len(rest.ts) == 1 and rest.ts[0][1] == 1 and rest.ts[0][0].op == 'floordiv':
        y, m = rest.ts[0][0].args
        return ladd(out, floordiv(vm, st, y, m * k))
    # rest = g*m + r with 0 <= r < g and g | k
    for g in sorted({abs(a) for t, a in rest.ts if 1 < abs(a) < k and k % abs(a) == 0}, reverse=True):
        oth = {t: a for t, a in rest.ts if a % g}
        if not oth:
            continue
        qc, c = divmod(rest.c, g)
        lo, hi = st.facts.bounds(lin(c, oth))
        if lo is not None and hi is not None and lo // g == hi // g:
            m = lin(qc + lo // g, {t: a // g for t, a in rest.ts if a % g == 0})
            return ladd(out, floordiv(vm, st, m, k // g))
    if k <= 7:
        # several quotients of shifted dividends (the days of the week): all in terms of the first
        c0 = st.facts.fd.get((rest.ts, k))
        if c0 is None:
            st.facts.fd = dict(st.facts.fd)
            st.facts.fd[(rest.ts, k)] = rest.c
        elif c0 != rest.c:
            base = lin(c0, dict(rest.ts))
            q0 = ivar(T('floordiv', (base, k), 'int'))
            r = ladd(ladd(base, lmul(q0, k), -1), rest.c - c0)
            if r.__class__ is Lin:
                if rest.c > c0:
                    if vm.decide(st, F.c_le(k, r)):
                        return ladd(out, ladd(q0, 1))
                elif vm.decide(st, F.c_lt(r, 0)):
                    return ladd(out, ladd(q0, -1))
                return ladd(out, q0)
    return ladd(out, ivar(T('floordiv', (rest, k), 'int')))


def int_binop(vm, st, op, a, b):
    f = st.facts
    if a.__class__ is Lin:
        a = f.fold(a)
    if b.__class__ is Lin:
        b = f.fold(b)
    if a.__class__ is int and b.__class__ is int:
        return host_bin(vm, st, op, a, b)
    if op == '+':
        return ladd(a, b)
    if op == '-':
        return ladd(a, b, -1)
    if op == '*':
        if b.__class__ is int:
            return lmul(a, b)
        if a.__class__ is int:
            return lmul(b, a)
        x, y = sorted((a, b), key=repr)
        return ivar(T('mul', (x, y), 'int'))
    if op in ('//', '%') and b.__class__ is int:
        if b == 0:
            vm.throw(st, 'ZeroDivisionError', 'integer division or modulo by zero')
        if b < 0:
            q = floordiv(vm, st, lmul(a, -1), -b)
        else:
            q = floordiv(vm, st, a, b)
        if op == '//':
            return q
        return f.fold(ladd(a, lmul(q, b), -1))
    if op in ('/',):
        if b.__class__ is int and b != 0:
            q = int_binop(vm, st, '%', a, b)
            if q.__class__ is int and q == 0:
                return T('tofloat', (int_binop(vm, st, '//', a, b),), 'float')
            return T('fdiv', (a, b), 'float')
        if vm.decide(st, F.c_eq_int(b, 0)):
            vm.throw(st, 'ZeroDivisionError', 'division by zero')
        return T('fdiv', (a, b), 'float')
    if op in ('<<', '>>') and b.__class__ is int and b >= 0:
        return lmul(a, 1 << b) if op == '<<' else floordiv(vm, st, a, 1 << b)
    if op in ('//', '%'):
        if vm.decide(st, F.c_eq_int(b, 0)):
            vm.throw(st, 'ZeroDivisionError', 'integer division or modulo by zero')
    return ivar(T('i' + OPNAME[op], (a, b), 'int'))


def host_bin(vm, st, op, a, b):
    if op == '**' and isinstance(b, int) and isinstance(a, int) and abs(b) > 4096:
        raise Unsupported('huge power')
    if op in ('*', '<<') and isinstance(b, int) and isinstance(a, (str, bytes)) and b > 1 << 20:
        raise Unsupported('huge repeat')
    try:
        return HOSTOP[op](a, b)
    except Exception as e:
        vm.throw(st, type(e).__name__, str(e))


def float_binop(vm, st, op, a, b):
    a, b = fnorm(a), fnorm(b)
    if a.__class__ is float and b.__class__ is float:
        return host_bin(vm, st, op, a, b)
    if op == '-' and same(a, b):
        return 0.0
    if op in ('+', '-') and same(b, 0.0) or op in ('*', '/') and same(b, 1.0):
        return a
    if op == '+' and same(a, 0.0) or op == '*' and same(a, 1.0):
        return b
    if op == '/' and b.__class__ is not float:
        z = T('eq', tuple(sorted((b, 0.0), key=repr)), 'bool')
        if vm.decide(st, z):
            vm.throw(st, 'ZeroDivisionError', 'float division by zero')
    if op == '/' and same(b, 0.0):
        vm.throw(st, 'ZeroDivisionError', 'float division by zero')
    if op == '//':
        q = FL.to_floor(st, T('fdiv', (a, b), 'float'), lambda L, d: floordiv(vm, st, L, d))
        if q is not None:
            return fnorm(q)
    if op == '%':
        q = FL.to_floor(st, T('fdiv', (a, b), 'float'), lambda L, d: floordiv(vm, st, L, d))
        if q is not None:
            return float_binop(vm, st, '-', a, float_binop(vm, st, '*', fnorm(q), b))
    if op in ('+', '*') and repr(a) > repr(b):
        a, b = b, a
    return T('f' + OPNAME[op], (a, b), 'float')


def binop(vm, st, op, a, b, inplace=False):
    ca, cb = a.__class__, b.__class__
    if op == '%' and (ca in (str, bytes, SStr) or ca is Ref and layout(vm, st, a) in ('str', 'bytes')
                      and vm.user_special(st, a, '__mod__') is None):
        return DEFER
    if ca in NUMC and cb in NUMC or ca is cb and ca in (str, bytes) and op == '+':
        return host_bin(vm, st, op, a, b)
    if ca is Ref or cb is Ref:
        if ca is Ref and vm.special(st, a, '__%s__' % OPNAME[op]) is not None and \
                vm.special(st, a, '__%s__' % OPNAME[op]).__class__ is not Native or \
                cb is Ref and vm.user_special(st, b, '__r%s__' % OPNAME[op]) is not None or \
                inplace and ca is Ref and vm.user_special(st, a, '__i%s__' % OPNAME[op]) is not None:
            return DEFER
        ua, ub = unwrap(st, a), unwrap(st, b)
        if ua is not a or ub is not b:
            return binop(vm, st, op, ua, ub, inplace)
        la, lb = layout(vm, st, a), layout(vm, st, b)
        if la == 'list' and op == '+':
            if lb == 'list':
                if inplace:
                    x = list(st.get(b).data)
                    st.mut(a).data.extend(x)
                    return a
                return new_list(vm, st, list(st.get(a).data) + list(st.get(b).data))
            if inplace:
                if cb is tuple:
                    st.mut(a).data.extend(b)
                    return a
                return DEFER
            vm.throw(st, 'TypeError', 'can only concatenate list')
        if la == 'list' and op == '*' and cb in (int, bool):
            if inplace:
                x = list(st.get(a).data) * b
                st.mut(a).data[:] = x
                return a
            return new_list(vm, st, list(st.get(a).data) * b)
        if lb == 'list' and op == '*' and ca in (int, bool):
            return new_list(vm, st, list(st.get(b).data) * a)
        if la in ('set', 'frozenset', 'dictview') and lb in ('set', 'frozenset', 'dictview') and op in '|&-^':
            return set_op(vm, st, op, a, b, inplace)
        if la == 'dict' and lb == 'dict' and op == '|':
            h2 = handle(vm, st, b)
            if inplace:
                h = handle(vm, st, a)
                sl = [(h.slot(k), k, v) for k, v in h2.items()]
                for s, k, v in sl:
                    h.put(s, k, v)
                return a
            return new_dict(vm, st, handle(vm, st, a).items() + h2.items())
        if la == 'bytearray' or lb == 'bytearray':
            return DEFER
        return DEFER
    if ca is Term and a.ty not in vm.types or cb is Term and b.ty not in vm.types:
        raise Unsupported('%r %s %r' % (a, op, b))
    if is_txt(a) and is_txt(b) and op == '+':
        if S.kind_of(a) != S.kind_of(b):
            vm.throw(st, 'TypeError', "can't concat %s to %s" % (S.kind_of(b), S.kind_of(a)))
        return S.concat(a, b)
    if op == '*' and (is_txt(a) and is_int(b) or is_txt(b) and is_int(a)):
        if is_int(a):
            a, b = b, a
        b = as_int(b, vm, st)
        if b.__class__ is Lin:
            b = st.facts.fold(b)
        if b.__class__ is int:
            if a.__class__ is not SStr:
                return host_bin(vm, st, '*', a, b)
            return S.mk(S.kind_of(a), [a] * max(b, 0))
        raise Unsupported('repeat')
    if is_int(a) and is_int(b):
        return int_binop(vm, st, op, as_int(a, vm, st), as_int(b, vm, st))
    if (is_int(a) or is_float(a)) and (is_int(b) or is_float(b)):
        return float_binop(vm, st, op, a, b)
    if ca is tuple and cb is tuple and op == '+':
        return a + b
    if ca is tuple and cb in (int, bool) and op == '*':
        return a * b
    if cb is tuple and ca in (int, bool) and op == '*':
        return a * b
    vm.throw(st, 'TypeError', "unsupported operand type(s) for %s: '%s' and '%s'" % (
        op, vm.cname(st, vm.type_of(st, a)), vm.cname(st, vm.type_of(st, b))))


def keys_of(vm, st, v):
    o = st.get(v)
    if layout(vm, st, v) == 'dictview':
        kind, src = o.data
        h = handle(vm, st, src)
        return h.keys() if kind == 'keys' else h.items()
    return H(vm, st, v).keys()


def set_op(vm, st, op, a, b, inplace=False):
    ka, kb = keys_of(vm, st, a), keys_of(vm, st, b)
    la = layout(vm, st, a)
    cls = vm.types['frozenset'] if la == 'frozenset' else vm.types['set']
    ta = new_set(vm, st, ka)
    tb = new_set(vm, st, kb)
    ha, hb = H(vm, st, ta), H(vm, st, tb)
    if op == '|':
        out = ka + [k for k in kb if ha.find(k) is None]
    elif op == '&':
        out = [k for k in ka if hb.find(k) is not None]
    elif op == '-':
        out = [k for k in ka if hb.find(k) is None]
    else:
        out = [k for k in ka if hb.find(k) is None] + [k for k in kb if ha.find(k) is None]
    if inplace and la == 'set':
        h = H(vm, st, a)
        h.clear()
        for k in out:
            h.set(k, None)
        return a
    return new_set(vm, st, out, cls)


def binop_gen(vm, st, args, kw):
    op, a, b, inplace = args
    if op == '%' and layout(vm, st, a) in ('str', 'bytes') and vm.user_special(st, a, '__mod__') is None:
        from .nat_str import percent_gen
        r = yield from percent_gen(vm, st, unwrap(st, a), b)
        return r
    name = OPNAME[op]
    if inplace:
        m = vm.special(st, a, '__i%s__' % name)
        if m is not None and m.__class__ is not Native:
            r = yield Call(m, (a, b))
            if r is not NotImplemented:
                return r
        elif layout(vm, st, a) == 'list' and op == '+':
            x = yield Call(N_TUPLE, (b,))
            yield Do(lambda: st.mut(a).data.extend(x))
            return a
    ta, tb = vm.type_of(st, a), vm.type_of(st, b)
    order = [(a, b, '__%s__' % name), (b, a, '__r%s__' % name)]
    if ta != tb and vm.subclass(st, tb, ta) and vm.special(st, b, '__r%s__' % name) is not None:
        order.reverse()
    for x, y, n in order:
        m = vm.special(st, x, n)
        if m is None:
            continue
        r = yield Call(m, (x, y))
        if r is not NotImplemented:
            return r
    if op == '|':
        # a union of types: as good as the tuple of them
        ks = []
        for x in (a, b):
            ks.extend(x if x.__class__ is tuple and x else (vm.types['NoneType'],) if x is None else (x,))
        if all(vm.is_class(st, k) for k in ks):
            return tuple(ks)
    vm.throw(st, 'TypeError', "unsupported operand type(s) for %s: '%s' and '%s'" % (
        op, vm.cname(st, ta), vm.cname(st, tb)))


# ================================================================ iteration
def new_iter(vm, st, *data):
    return st.alloc(vm.types['iterator'], None, list(data))


def get_iter(vm, st, v):
    """value or Call"""
    c = v.__class__
    if c is tuple:
        return new_iter(vm, st, 'tuple', v, 0)
    if c in (str, bytes, SStr):
        return new_iter(vm, st, 'str', v, 0)
    if c is NSProxy:
        return new_iter(vm, st, 'tuple', tuple(handle(vm, st, v).keys()), 0)
    if c is Ref:
        o = st.get(v)
        if o.data.__class__ is ClassData:
            m = vm.lookup_cls(st, o.cls, '__iter__')
            if m is not None and m[0].__class__ is not Native:
                return Call(m[0], (v,))
            vm.throw(st, 'TypeError', "'type' object is not iterable")
        m = vm.user_special(st, v, '__iter__')
        if m is not None:
            return Call(m, (v,))
        lay = st.get(o.cls).data.layout
        if lay == 'list':
            return new_iter(vm, st, 'list', v, 0)
        if lay == 'tuple':
            return new_iter(vm, st, 'tuple', o.data, 0)
        if lay in ('str', 'bytes'):
            return new_iter(vm, st, 'str', o.data, 0)
        if lay in ('dict', 'set', 'frozenset'):
            return new_iter(vm, st, 'dict', v, tuple(o.data.e), 0, 'keys')
        if lay == 'mappingproxy':
            return get_iter(vm, st, o.data)
        if lay == 'dictview':
            kind, src = o.data
            if src.__class__ is NSProxy:
                h = handle(vm, st, src)
                return new_iter(vm, st, 'tuple', tuple({'keys': h.keys, 'values': h.values, 'items': h.items}[kind]()), 0)
            return new_iter(vm, st, 'dict', src, tuple(st.get(src).data.e), 0, kind)
        if lay in ('generator', 'iterator'):
            return v
        if lay == 'range':
            return new_iter(vm, st, 'range', o.data, o.data[0])
        if lay == 'bytearray':
            return new_iter(vm, st, 'str', o.data[0], 0)
        if vm.user_special(st, v, '__getitem__') is not None:
            return new_iter(vm, st, 'seq', v, 0)
    if c is Term and v.ty not in vm.types:
        raise Unsupported('iteration over %r' % (v,))
    vm.throw(st, 'TypeError', "'%s' object is not iterable" % vm.cname(st, vm.type_of(st, v)))


def iter_next(vm, st, it):
    """value, STOP or PUSHED"""
    if it.__class__ is not Ref:
        vm.throw(st, 'TypeError', 'not an iterator')
    o = st.get(it)
    lay = st.get(o.cls).data.layout if o.data.__class__ is not ClassData else 'type'
    if lay == 'generator':
        if o.data.state == 'done':
            return STOP
        vm.gen_resume(st, it, None)
        return PUSHED
    if lay != 'iterator':
        m = vm.user_special(st, it, '__next__')
        if m is None:
            vm.throw(st, 'TypeError', "'%s' object is not an iterator" % vm.cname(st, o.cls))
        return vm.call(st, m, (it,), {})
    d = o.data
    k = d[0]
    if k == 'tuple':
        if d[2] >= len(d[1]):
            return STOP
        v = d[1][d[2]]
        st.mut(it).data[2] += 1
        return v
    if k == 'list':
        l = st.get(d[1]).data if d[1] is not None else ()
        if d[2] >= len(l):
            if d[1] is not None:
                st.mut(it).data[1] = None
            return STOP
        v = l[d[2]]
        st.mut(it).data[2] += 1
        return v
    if k == 'rlist':
        l = st.get(d[1]).data
        if d[2] < 0 or d[2] >= len(l):
            return STOP
        v = l[d[2]]
        st.mut(it).data[2] -= 1
        return v
    if k == 'dict':
        if d[1] is None:
            return STOP
        e = st.get(d[1]).data.e
        if len(e) != len(d[2]):
            st.mut(it).data[1] = None
            vm.throw(st, 'RuntimeError', 'dictionary changed size during iteration')
        if d[3] >= len(d[2]):
            st.mut(it).data[1] = None
            return STOP
        ck = d[2][d[3]]
        if ck not in e:
            vm.throw(st, 'RuntimeError', 'dictionary keys changed during iteration')
        key, val = e[ck]
        st.mut(it).data[3] += 1
        return key if d[4] == 'keys' else val if d[4] == 'values' else (key, val)
    if k == 'str':
        v = d[1]
        if v.__class__ is not SStr:
            if d[2] >= len(v):
                return STOP
            x = v[d[2]]
            st.mut(it).data[2] += 1
            return x
        n = S.slen(v)
        if n.__class__ is int:
            if d[2] >= n:
                return STOP
            x = getitem(vm, st, v, d[2])
        else:
            if not vm.decide(st, F.c_lt(d[2], n)):
                return STOP
            if d[2] > 8:
                raise Unsupported('iteration over unknown text')
            x = getitem(vm, st, v, d[2])
        st.mut(it).data[2] += 1
        return x
    if k == 'range':
        (a, b, s), cur = d[1], d[2]
        if vm.decide(st, F.c_lt(cur, b) if s > 0 else F.c_lt(b, cur)):
            if cur.__class__ is Lin and st.steps > 200000:
                raise Unsupported('unbounded range')
            st.mut(it).data[2] = ladd(cur, s)
            return cur
        return STOP
    if k == 'seq':
        # __getitem__ protocol
        st.frames.append(NFrame(seqiter_gen, (it, d[1], d[2]), {}, 'iter'))
        return PUSHED
    if k == 'callable':
        st.frames.append(NFrame(calliter_gen, (it, d[1], d[2]), {}, 'iter'))
        return PUSHED
    raise Unsupported('iterator %r' % (k,))


def seqiter_gen(vm, st, args, kw):
    it, obj, i = args
    if i is None:
        vm.throw(st, 'StopIteration')
    try:
        v = yield Call(vm.user_special(st, obj, '__getitem__'), (obj, i))
    except AbsRaise as e:
        c = st.get(e.value).cls
        if vm.subclass(st, c, vm.types['IndexError']) or vm.subclass(st, c, vm.types['StopIteration']):
            st.mut(it).data[2] = None
            vm.throw(st, 'StopIteration')
        raise
    st.mut(it).data[2] = i + 1
    return v


def calliter_gen(vm, st, args, kw):
    it, f, sentinel = args
    if f is None:
        vm.throw(st, 'StopIteration')
    v = yield Call(f, ())
    r = yield Call(N_EQ, (v, sentinel))
    r = yield Call(N_BOOL, (r,))
    if r:
        st.mut(it).data[1] = None
        vm.throw(st, 'StopIteration')
    return v


def iter_send(vm, st, it, v):
    if v is None:
        return iter_next(vm, st, it)
    if layout(vm, st, it) == 'generator':
        vm.gen_resume(st, it, v)
        return PUSHED
    m = vm.getattr_(st, it, 'send')
    if m.__class__ is Call:
        raise Unsupported('send')
    return vm.call(st, m, (v,), {})


def next_native(vm, st, args, kw):
    r = iter_next(vm, st, args[0])
    if r is STOP:
        vm.throw(st, 'StopIteration')
    return r


N_NEXT = Native('next', next_native, False, False)


def iter_native(vm, st, args, kw):
    if len(args) == 2:
        return new_iter(vm, st, 'callable', args[0], args[1])
    r = get_iter(vm, st, args[0])
    if r.__class__ is Call:
        return vm.call(st, r.f, r.args, r.kw)
    return r


N_ITER = Native('iter', iter_native, False, False)


def is_stop(vm, st, e):
    return vm.subclass(st, st.get(e.value).cls, vm.types['StopIteration'])


def fast_seq(vm, st, v):
    """host tuple of the elements if iterating needs no analysed code"""
    c = v.__class__
    if c is tuple:
        return v
    if c in (str,):
        return tuple(v)
    if c is bytes:
        return tuple(v)
    if c is NSProxy:
        return tuple(handle(vm, st, v).keys())
    if c is Ref:
        if vm.user_special(st, v, '__iter__') is not None:
            return None
        lay = layout(vm, st, v)
        if lay in ('list', 'tuple'):
            return tuple(st.get(v).data)
        if lay in ('dict', 'set', 'frozenset'):
            return tuple(k for k, _ in st.get(v).data.e.values())
        if lay == 'dictview':
            kind, src = st.get(v).data
            h = handle(vm, st, src)
            return tuple({'keys': h.keys, 'values': h.values, 'items': h.items}[kind]())
        if lay == 'range':
            r = st.get(v).data
            if all(x.__class__ is int for x in r) and len(range(*r)) < 5000:
                return tuple(range(*r))
    return None


def to_tuple_gen(vm, st, args, kw):
    v = args[0]
    f = yield Do(lambda: fast_seq(vm, st, v))
    if f is not None:
        return f
    it = yield Call(N_ITER, (v,))
    out = []
    while True:
        try:
            x = yield Call(N_NEXT, (it,))
        except AbsRaise as e:
            if is_stop(vm, st, e):
                return tuple(out)
            raise
        out.append(x)
        if len(out) > 3000:
            raise Unsupported('long iteration')


to_tuple = N_TUPLE = Native('to_tuple', to_tuple_gen, True, False)


# ================================================================ subscripting
def norm_index(vm, st, i, n):
    """index value in [0,n) or IndexError"""
    i = as_int(unwrap(st, i), vm, st)
    if i.__class__ is Lin:
        i = st.facts.fold(i)
    if n.__class__ is Lin:
        n = st.facts.fold(n)
    if i.__class__ is int and n.__class__ is int:
        j = i + n if i < 0 else i
        if j < 0 or j >= n:
            return None
        return j
    if vm.decide(st, F.c_lt(i, 0)):
        i = ladd(i, n)
        if vm.decide(st, F.c_lt(i, 0)):
            return None
    if not vm.decide(st, F.c_lt(i, n)):
        return None
    return i


def range_len(vm, st, r):
    """length of a range with affine ends and constant step"""
    a, b, k = r
    if a.__class__ is int and b.__class__ is int:
        return len(range(a, b, k))
    if k < 0:
        a, b, k = ladd(b, 1), ladd(a, 1), -k
    if not vm.decide(st, F.c_lt(a, b)):
        return 0
    return ladd(floordiv(vm, st, ladd(ladd(b, a, -1), -1), k), 1)


def slice_indices(vm, st, sl, n):
    """slice.indices with affine parts and constant step"""
    a, b, k = (slice_part(vm, st, x) for x in (sl.a, sl.b, sl.c))
    if k is None:
        k = 1
    if k.__class__ is not int:
        raise Unsupported('slice step %r' % (k,))
    if k == 0:
        vm.throw(st, 'ValueError', 'slice step cannot be zero')
    if n.__class__ is Lin:
        n = st.facts.fold(n)
    if vm.decide(st, F.c_lt(n, 0)):
        vm.throw(st, 'ValueError', 'length should not be negative')
    lower, upper = (-1, ladd(n, -1)) if k < 0 else (0, n)

    def part(x, default):
        if x is None:
            return default
        if vm.decide(st, F.c_lt(x, 0)):
            x = ladd(x, n)
            return lower if vm.decide(st, F.c_lt(x, lower)) else x
        return upper if vm.decide(st, F.c_lt(upper, x)) else x
    return part(a, upper if k < 0 else lower), part(b, lower if k < 0 else upper), k


def range_get(vm, st, r, k):
    if k.__class__ is VSlice:
        n = range_len(vm, st, r)
        a, b, s = slice_indices(vm, st, k, n)
        st_, _, sp = r
        return st.alloc(vm.types['range'], {}, (ladd(st_, lmul(a, sp)), ladd(st_, lmul(b, sp)), sp * s))
    k = as_int(unwrap(st, k), vm, st)
    if k.__class__ not in (int, Lin):
        vm.throw(st, 'TypeError', 'range indices must be integers or slices')
    i = norm_index(vm, st, k, range_len(vm, st, r))
    if i is None:
        vm.throw(st, 'IndexError', 'range object index out of range')
    return ladd(r[0], lmul(i, r[2]))


def concrete_index(vm, st, i, n):
    if i.__class__ is int:
        return i
    for k in range(n):
        if vm.decide(st, F.c_eq_int(i, k)):
            return k
    raise PathEnd('infeasible')


def slice_part(vm, st, x):
    x = unwrap(st, x)
    if x is None:
        return None
    if not is_int(x):
        vm.throw(st, 'TypeError', 'slice indices must be integers or None')
    return as_int(x)


def seq_slice(vm, st, seq, k):
    a, b, c = (slice_part(vm, st, x) for x in (k.a, k.b, k.c))
    n = len(seq)
    if all(x is None or x.__class__ is int for x in (a, b, c)):
        if c == 0:
            vm.throw(st, 'ValueError', 'slice step cannot be zero')
        return seq[a:b:c]
    if c is not None and c.__class__ is not int:
        raise Unsupported('slice step')

    def conc(x):
        if x is None or x.__class__ is int:
            return x
        if vm.decide(st, F.c_lt(x, -n)):
            return -n - 1
        if vm.decide(st, F.c_lt(n, x)):
            return n + 1
        for q in range(-n, n + 1):
            if vm.decide(st, F.c_eq_int(x, q)):
                return q
        raise PathEnd('infeasible')
    return seq[conc(a):conc(b):c]


def getitem(vm, st, a, k):
    c = a.__class__
    if c is Ref:
        o = st.get(a)
        if o.data.__class__ is ClassData:
            m = vm.lookup_cls(st, o.cls, '__getitem__')
            if m is not None and m[0].__class__ is not Native:
                return Call(m[0], (a, k))
            m = vm.lookup_cls(st, a, '__class_getitem__')
            if m is not None:
                return Call(vm.descr_get(st, m[0], None, a), (k,))
            vm.throw(st, 'TypeError', "type '%s' is not subscriptable" % o.data.name)
        m = vm.user_special(st, a, '__getitem__')
        if m is not None:
            return Call(m, (a, k))
        lay = st.get(o.cls).data.layout
        if lay in ('list', 'tuple'):
            if k.__class__ is VSlice:
                r = seq_slice(vm, st, o.data, k)
                return tuple(r) if lay == 'tuple' else new_list(vm, st, r)
            return seq_get(vm, st, o.data, k, lay)
        if lay in ('dict', 'mappingproxy'):
            h = handle(vm, st, a)
            if needs_gen(vm, st, h, k):
                return DEFER
            e = h.find(k)
            if e is None:
                m = vm.user_special(st, a, '__missing__')
                if m is not None:
                    return Call(m, (a, k))
                vm.throw(st, 'KeyError', k)
            return e[1]
        if lay in ('str', 'bytes'):
            return getitem(vm, st, o.data, k)
        if lay == 'range':
            return range_get(vm, st, o.data, k)
        if lay == 'bytearray':
            return getitem(vm, st, o.data[0], k)
        vm.throw(st, 'TypeError', "'%s' object is not subscriptable" % vm.cname(st, o.cls))
    if c is tuple:
        if k.__class__ is VSlice:
            return tuple(seq_slice(vm, st, a, k))
        return seq_get(vm, st, a, k, 'tuple')
    if c in (str, bytes, SStr):
        return str_getitem(vm, st, a, k)
    if c is NSProxy:
        e = handle(vm, st, a).find(k)
        if e is None:
            vm.throw(st, 'KeyError', k)
        return e[1]
    if c is Term and a.ty not in vm.types:
        raise Unsupported('%r[...]' % (a,))
    vm.throw(st, 'TypeError', "'%s' object is not subscriptable" % vm.cname(st, vm.type_of(st, a)))


def seq_get(vm, st, seq, k, lay):
    k = unwrap(st, k)
    if not is_int(k):
        vm.throw(st, 'TypeError', '%s indices must be integers or slices' % lay)
    i = norm_index(vm, st, k, len(seq))
    if i is None:
        vm.throw(st, 'IndexError', '%s index out of range' % lay)
    return seq[concrete_index(vm, st, i, len(seq))]


def str_getitem(vm, st, a, k):
    k = unwrap(st, k)
    if k.__class__ is VSlice:
        i, j, s = (slice_part(vm, st, x) for x in (k.a, k.b, k.c))
        if s is not None and s != 1:
            if a.__class__ is not SStr and all(x is None or x.__class__ is int for x in (i, j)):
                return a[i:j:s]
            raise Unsupported('string slice with step')
        return S.sslice(vm, st, a, i, j)
    if not is_int(k):
        vm.throw(st, 'TypeError', 'string indices must be integers')
    n = S.slen(a)
    i = norm_index(vm, st, k, n)
    if i is None:
        vm.throw(st, 'IndexError', 'string index out of range')
    if a.__class__ is not SStr and i.__class__ is int:
        return a[i]
    x = S.sslice(vm, st, a, i, ladd(i, 1))
    if S.kind_of(a) == 'bytes':
        if x.__class__ is bytes:
            return x[0]
        t = T('byteat', (x,), 'int')
        PROPS[t] = dict(lo=0, hi=255)
        return ivar(t)
    return x


def getitem_gen(vm, st, args, kw):
    a, k = args
    s = yield Call(Native('slot', slot_gen, True), (a, k))
    if s is None:
        m = vm.user_special(st, a, '__missing__')
        if m is not None:
            r = yield Call(m, (a, k))
            return r
        vm.throw(st, 'KeyError', k)
    return H(vm, st, a).d.e[s][1]


def setitem(vm, st, a, k, v):
    """None, Call or DEFER"""
    if a.__class__ is Ref:
        o = st.get(a)
        m = vm.user_special(st, a, '__setitem__')
        if m is not None:
            return Call(m, (a, k, v))
        lay = layout(vm, st, a)
        if lay == 'list':
            if k.__class__ is VSlice:
                i, j, s = (slice_part(vm, st, x) for x in (k.a, k.b, k.c))
                seq = fast_seq(vm, st, v)
                if seq is None or not all(x is None or x.__class__ is int for x in (i, j, s)):
                    raise Unsupported('slice assignment')
                try:
                    tmp = list(o.data)
                    tmp[i:j:s] = list(seq)
                except ValueError as e:
                    vm.throw(st, 'ValueError', str(e))
                st.mut(a).data[:] = tmp
                return None
            k = unwrap(st, k)
            if not is_int(k):
                vm.throw(st, 'TypeError', 'list indices must be integers or slices')
            i = norm_index(vm, st, k, len(o.data))
            if i is None:
                vm.throw(st, 'IndexError', 'list assignment index out of range')
            i = concrete_index(vm, st, i, len(o.data))
            st.mut(a).data[i] = v
            return None
        if lay == 'dict':
            h = handle(vm, st, a)
            if needs_gen(vm, st, h, k):
                return DEFER
            h.set(k, v)
            return None
        vm.throw(st, 'TypeError', "'%s' object does not support item assignment" % vm.cname(st, o.cls))
    if a.__class__ is NSProxy:
        handle(vm, st, a).set(k, v)
        return None
    if a.__class__ is Term and a.ty not in vm.types:
        raise Unsupported('%r[...] = ' % (a,))
    vm.throw(st, 'TypeError', "'%s' object does not support item assignment" % vm.cname(st, vm.type_of(st, a)))


def setitem_gen(vm, st, args, kw):
    a, k, v = args
    s = yield Call(Native('slot', slot_gen, True), (a, k))
    H(vm, st, a).put(s, k, v)
    return None


def delitem(vm, st, a, k):
    if a.__class__ is Ref:
        o = st.get(a)
        m = vm.user_special(st, a, '__delitem__')
        if m is not None:
            return Call(m, (a, k))
        lay = layout(vm, st, a)
        if lay == 'list':
            if k.__class__ is VSlice:
                i, j, s = (slice_part(vm, st, x) for x in (k.a, k.b, k.c))
                if not all(x is None or x.__class__ is int for x in (i, j, s)):
                    raise Unsupported('del slice')
                tmp = list(o.data)
                del tmp[i:j:s]
                st.mut(a).data[:] = tmp
                return None
            i = norm_index(vm, st, k, len(o.data))
            if i is None:
                vm.throw(st, 'IndexError', 'list assignment index out of range')
            i = concrete_index(vm, st, i, len(o.data))
            del st.mut(a).data[i]
            return None
        if lay == 'dict':
            h = handle(vm, st, a)
            if needs_gen(vm, st, h, k):
                return DEFER
            s = h.slot(k)
            if s is None:
                vm.throw(st, 'KeyError', k)
            h.remove(s)
            return None
    if a.__class__ is NSProxy:
        h = handle(vm, st, a)
        s = h.slot(k)
        if s is None:
            vm.throw(st, 'KeyError', k)
        h.remove(s)
        return None
    vm.throw(st, 'TypeError', "'%s' object doesn't support item deletion" % vm.cname(st, vm.type_of(st, a)))


def delitem_gen(vm, st, args, kw):
    a, k = args
    s = yield Call(Native('slot', slot_gen, True), (a, k))
    if s is None:
        vm.throw(st, 'KeyError', k)
    H(vm, st, a).remove(s)
    return None


def length(vm, st, v):
    """int/Lin or None if user code is needed"""
    c = v.__class__
    if c in (str, bytes, tuple):
        return len(v)
    if c is SStr:
        return S.slen(v)
    if c is NSProxy:
        return len(handle(vm, st, v))
    if c is Ref:
        if vm.user_special(st, v, '__len__') is not None:
            return None
        lay = layout(vm, st, v)
        if lay in ('list', 'tuple'):
            return len(st.get(v).data)
        if lay in ('dict', 'set', 'frozenset', 'mappingproxy'):
            return len(handle(vm, st, v))
        if lay in ('str', 'bytes'):
            return S.slen(st.get(v).data)
        if lay == 'dictview':
            return len(handle(vm, st, st.get(v).data[1]))
        if lay == 'range':
            return range_len(vm, st, st.get(v).data)
        if lay == 'bytearray':
            return S.slen(st.get(v).data[0])
    if c is Term and v.ty not in vm.types:
        raise Unsupported('len of %r' % (v,))
    vm.throw(st, 'TypeError', "object of type '%s' has no len()" % vm.cname(st, vm.type_of(st, v)))


def contains(vm, st, b, a):
    """a in b: bool, Term or DEFER"""
    c = b.__class__
    if is_txt(b):
        a = unwrap(st, a)
        if is_int(a) and S.kind_of(b) == 'bytes':
            a = as_int(a, vm, st)
            if a.__class__ is int:
                a = bytes([a])
            else:
                raise Unsupported('byte in bytes')
        if not is_txt(a) or S.kind_of(a) != S.kind_of(b):
            vm.throw(st, 'TypeError', "'in <string>' requires string as left operand")
        return str_contains(vm, st, b, a)
    if c is Ref:
        o = st.get(b)
        if vm.user_special(st, b, '__contains__') is not None:
            return DEFER
        lay = layout(vm, st, b)
        if lay in ('str', 'bytes'):
            return contains(vm, st, o.data, a)
        if vm.user_special(st, b, '__iter__') is not None and lay not in ('dict', 'set', 'list', 'tuple'):
            return DEFER
        if lay in ('dict', 'set', 'frozenset', 'mappingproxy'):
            h = handle(vm, st, b)
            if needs_gen(vm, st, h, a):
                return DEFER
            return h.find(a) is not None
        if lay == 'dictview' and o.data[0] == 'keys':
            return contains(vm, st, o.data[1], a)
        if lay in ('list', 'tuple'):
            return seq_contains(vm, st, o.data, a)
        if lay == 'range':
            r = o.data
            if r[2] == 1 and is_int(a):
                a = as_int(a, vm, st)
                return vm.decide(st, F.c_le(r[0], a)) and vm.decide(st, F.c_lt(a, r[1]))
        return DEFER
    if c is tuple:
        return seq_contains(vm, st, b, a)
    if c is NSProxy:
        return handle(vm, st, b).find(a) is not None
    if c is Term and b.ty not in vm.types:
        raise Unsupported('in %r' % (b,))
    vm.throw(st, 'TypeError', "argument of type '%s' is not iterable" % vm.cname(st, vm.type_of(st, b)))


def str_contains(vm, st, b, a):
    b = S.prune(st, b)
    a = S.prune(st, a)
    if a.__class__ is not SStr:
        if len(a) == 0:
            return True
        if b.__class__ is not SStr:
            return a in b
        # a literal hit anywhere decides
        for s in b.segs:
            if s.__class__ is not Term and a in s:
                return True
        try:
            p = S.sfind(vm, st, b, a)
        except Unsupported:
            hi = st.facts.bounds(S.slen(b))[1]
            if hi is not None and hi < len(a):
                return False
            return F.c_le(0, TI('sfind', (b, a, 0, None), -1))
        return not (p.__class__ is int and p == -1)
    sa, sb = a.segs, S.segs(b)
    for i in range(len(sb) - len(sa) + 1):
        if sb[i:i + len(sa)] == sa:
            return True
    if same(a, b):
        return True
    return F.c_le(0, TI('sfind', (b, a, 0, None), -1))


def seq_contains(vm, st, seq, a):
    for x in seq:
        if x.__class__ is Ref and a.__class__ is Ref and x == a:
            return True
    pend = []
    for x in seq:
        r = c_eq(vm, st, x, a)
        if r is DEFER:
            return DEFER
        if r is True:
            return True
        if r is not False:
            pend.append(r)
    for r in pend:
        if vm.decide(st, r):
            return True
    return False


def contains_gen(vm, st, args, kw):
    b, a, negate = args
    r = yield from contains_any(vm, st, b, a)
    return r != negate


def contains_any(vm, st, b, a):
    r = contains(vm, st, b, a)
    if r is not DEFER:
        if r.__class__ is Term:
            r = vm.decide(st, r)
        return r
    m = vm.user_special(st, b, '__contains__')
    if m is not None:
        r = yield Call(m, (b, a))
        r = yield Call(N_BOOL, (r,))
        return r
    h = handle(vm, st, b)
    if h is not None:
        s = yield Call(Native('slot', slot_gen, True), (b, a))
        return s is not None
    it = yield Call(N_ITER, (b,))
    while True:
        try:
            x = yield Call(N_NEXT, (it,))
        except AbsRaise as e:
            if is_stop(vm, st, e):
                return False
            raise
        if x.__class__ is Ref and x == a:
            return True
        r = yield Call(N_EQ, (x, a))
        r = yield Call(N_BOOL, (r,))
        if r:
            return True


# ================================================================ with / raise / except
def before_with(vm, st, args, kw):
    v = args[0]
    if v.__class__ is not Ref:
        vm.throw(st, 'TypeError', 'object does not support the context manager protocol')
    k = st.get(v).cls
    ex = vm.lookup_cls(st, k, '__exit__')
    en = vm.lookup_cls(st, k, '__enter__')
    if ex is None or en is None:
        vm.throw(st, 'TypeError', "'%s' object does not support the context manager protocol" % vm.cname(st, k))
    b = vm.descr_get(st, ex[0], v, k)
    r = yield Call(vm.descr_get(st, en[0], v, k), ())
    return (b, r)


def raise_class(vm, st, args, kw):
    cls, cause = args
    e = yield Call(cls, ())
    if cause is not NULL:
        st.mut(e).attrs['__cause__'] = cause
    raise AbsRaise(e)


def exc_match(vm, st, e, cls):
    if cls.__class__ is tuple:
        return any(exc_match(vm, st, e, c) for c in cls)
    if not vm.is_class(st, cls) or not vm.subclass(st, cls, vm.types['BaseException']):
        vm.throw(st, 'TypeError', 'catching classes that do not inherit from BaseException is not allowed')
    return vm.subclass(st, st.get(e).cls, cls)


# ================================================================ classes
def super_getattr(vm, st, cls, obj, name):
    if vm.is_class(st, obj) and vm.subclass(st, obj, cls):
        k = obj
        inst = None
    else:
        k = vm.type_of(st, obj)
        inst = obj
        if not vm.subclass(st, k, cls):
            vm.throw(st, 'TypeError', 'super(type, obj): obj must be an instance or subtype of type')
    mro = list(st.get(k).data.mro)
    i = mro.index(cls)
    for b in mro[i + 1:]:
        a = st.get(b).attrs
        if name in a:
            d = a[name]
            if inst is None:
                return vm.descr_get(st, d, None, k) if not _is_cm(vm, st, d) else vm.descr_get(st, d, None, k)
            return vm.descr_get(st, d, inst, k)
    if name == '__class__':
        return vm.types['super']
    return vm.no_attr(st, obj, mro[-1] if i + 1 >= len(mro) else mro[i + 1], name)


def _is_cm(vm, st, d):
    return d.__class__ is Ref and layout(vm, st, d) == 'classmethod'


def c3(vm, st, bases):
    seqs = [list(st.get(b).data.mro) for b in bases] + [list(bases)]
    out = []
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            vm.throw(st, 'TypeError', 'Cannot create a consistent method resolution order (MRO)')
        out.append(c)
        for s in seqs:
            if s[0] == c:
                del s[0]


LAYOUT_PLAIN = ('object',)


def type_new(vm, st, args, kw):
    """type.__new__(meta, name, bases, ns)"""
    meta = args[0]
    name, bases, ns = args[1:4]
    bases = tuple(listlike(st, bases))

    def make():
        bs = bases or (vm.types['object'],)
        for b in bs:
            if not vm.is_class(st, b):
                raise Unsupported('base class %r' % (b,))
        lay = 'object'
        for b in bs:
            l = st.get(b).data.layout
            if l != 'object':
                lay = l
                break
        if lay in ('bool', 'NoneType', 'function', 'generator'):
            vm.throw(st, 'TypeError', 'type is not an acceptable base type')
        mro = c3(vm, st, bs)
        attrs = {}
        for k, v in handle(vm, st, ns).items():
            if k.__class__ is not str:
                raise Unsupported('class attribute name')
            attrs[k] = v
        cell = attrs.pop('__classcell__', None)
        qn = attrs.pop('__qualname__', None)
        attrs.setdefault('__doc__', None)
        mod = attrs.get('__module__')
        if mod is None:
            for f in reversed(st.frames):
                if f.__class__ is Frame:
                    mod = st.get(f.glob).attrs.get('__name__')
                    break
            attrs['__module__'] = mod
        m = vm.mods(st).get(mod) if mod.__class__ is str else None
        origin = st.get(m).attrs.get('__origin__') if m is not None else 'repo'
        if '__eq__' in attrs and '__hash__' not in attrs:
            attrs['__hash__'] = None
        for special in ('__new__',):
            f = attrs.get(special)
            if f.__class__ is Ref and st.get(f).data.__class__ is FuncData:
                attrs[special] = st.alloc(vm.types['staticmethod'], {}, (f,))
        for special in ('__init_subclass__', '__class_getitem__'):
            f = attrs.get(special)
            if f.__class__ is Ref and st.get(f).data.__class__ is FuncData:
                attrs[special] = st.alloc(vm.types['classmethod'], {}, (f,))
        nm = unwrap(st, name)
        if nm.__class__ is not str:
            if nm.__class__ is SStr:
                nm = repr(nm)
            else:
                vm.throw(st, 'TypeError', 'type() argument 1 must be str')
        r = st.alloc(meta, attrs, None)
        st.get(r).data = ClassData(nm, bs, (r,) + tuple(mro), lay, origin,
                                     qn if qn.__class__ is str else None)
        if cell is not None:
            st.mut(cell.ref).data[0] = r
        return r
    r = yield Do(make)
    for k, v in (yield Do(lambda: list(st.get(r).attrs.items()))):
        if v.__class__ is Ref:
            m = vm.user_special(st, v, '__set_name__')
            if m is not None:
                yield Call(m, (v, r, k))
    sub = None
    for b in st.get(r).data.mro[1:]:
        if '__init_subclass__' in st.get(b).attrs:
            sub = st.get(b).attrs['__init_subclass__']
            break
    if sub is not None and sub.__class__ is not Native:
        k2 = {k: v for k, v in kw.items() if k != 'metaclass'}
        yield Call(vm.descr_get(st, sub, None, r), (), k2)
    return r


def build_class(vm, st, args, kw):
    func, name = args[:2]
    bases = args[2:]
    kw = dict(kw)
    meta = kw.pop('metaclass', None)
    for b in bases:
        if b.__class__ is not Ref:
            if b.__class__ is Term and b.op == 'unknown':
                raise Unsupported('base class %r' % (b,))
            vm.throw(st, 'TypeError', 'bases must be types')
    if meta is None:
        meta = st.get(bases[0]).cls if bases else vm.types['type']
    if vm.is_class(st, meta):
        for b in bases:
            m = st.get(b).cls
            if vm.subclass(st, m, meta):
                meta = m
            elif not vm.subclass(st, meta, m):
                vm.throw(st, 'TypeError', 'metaclass conflict')
    prep = None
    if vm.is_class(st, meta):
        p = vm.lookup_cls(st, meta, '__prepare__')
        if p is not None and p[0].__class__ is not Native:
            prep = vm.descr_get(st, p[0], None, meta)
    if prep is not None:
        ns = yield Call(prep, (name, bases), kw)
    else:
        ns = yield Do(lambda: st.alloc(vm.types['dict'], None, DData()))
    yield Call(func, (), {}, ns=ns)
    r = yield Call(meta, (name, bases, ns), kw)
    return r



def bound_call(vm, st, args, kw):
    """call what a descriptor hands out as __call__"""
    m = yield args[0]
    return (yield Call(m, args[1], args[2]))


def type_call(vm, st, args, kw):
    """type.__call__(cls, *args, **kw)"""
    cls = args[0]
    rest = args[1:]
    if cls == vm.types['type'] and len(rest) == 1 and not kw:
        return vm.type_of(st, rest[0])
    n = vm.lookup_cls(st, cls, '__new__')
    new = n[0]
    if new.__class__ is Ref:
        new = vm.descr_get(st, new, None, cls)
    obj = yield Call(new, (cls,) + rest, kw)
    if vm.isinst(st, obj, cls):
        k = vm.type_of(st, obj)
        i = vm.lookup_cls(st, k, '__init__')
        if i is not None:
            if i[0].__class__ is Native:
                if obj.__class__ is Ref:
                    yield Call(i[0], (obj,) + rest, kw)
            else:
                b = vm.descr_get(st, i[0], obj, k)
                r = yield Call(b, rest, kw)
                if r is not None:
                    vm.throw(st, 'TypeError', '__init__() should return None')
    return obj


def new_instance(vm, st, cls, data=None):
    lay = st.get(cls).data.layout
    builtin = st.get(cls).data.origin == 'builtin'
    attrs = None if builtin and lay not in ('exc', 'object', 'module', 'function') else {}
    if lay in ('dict', 'set', 'frozenset'):
        data = DData()
    elif lay == 'list':
        data = []
    elif lay == 'exc':
        attrs = {'args': ()}
    return st.alloc(cls, attrs, data)


def object_new(vm, st, args, kw):
    cls = args[0]
    if not vm.is_class(st, cls):
        vm.throw(st, 'TypeError', 'object.__new__(X): X is not a type object')
    if len(args) > 1 or kw:
        ini = vm.lookup_cls(st, cls, '__init__')
        new = vm.lookup_cls(st, cls, '__new__')
        if new[0].__class__ is not Native or ini[0].__class__ is Native and ini[0].name == 'object.__init__':
            vm.throw(st, 'TypeError', '%s() takes no arguments' % vm.cname(st, cls))
    lay = st.get(cls).data.layout
    if lay not in ('object',):
        if lay == 'exc':
            return new_instance(vm, st, cls)
        if lay in ('dict', 'list', 'set'):
            return new_instance(vm, st, cls)
        vm.throw(st, 'TypeError', 'object.__new__(%s) is not safe' % vm.cname(st, cls))
    return new_instance(vm, st, cls)


def object_init(vm, st, args, kw):
    if len(args) > 1 or kw:
        k = vm.type_of(st, args[0])
        new = vm.lookup_cls(st, k, '__new__')
        ini = vm.lookup_cls(st, k, '__init__')
        if ini[0].__class__ is not Native or new[0].__class__ is Native:
            vm.throw(st, 'TypeError', '%s.__init__() takes exactly one argument' % vm.cname(st, k))
    return None


# ================================================================ imports
def load_native(vm, st, args, kw):
    m, fr = vm.load(st, args[0])
    st.frames.append(fr)
    return PUSHED


N_LOAD = Native('load', load_native, False, False)


def import_gen(vm, st, args, kw):
    name, pkg, fromlist, level = args
    if level:
        base = pkg.split('.')
        if level > 1:
            base = base[:len(base) - (level - 1)]
        full = '.'.join(base + ([name] if name else []))
    else:
        full = name
    parts = full.split('.')
    for i in range(1, len(parts) + 1):
        yield from ensure(vm, st, '.'.join(parts[:i]))
    if fromlist:
        m = vm.mods(st)[full]
        for n in fromlist:
            if n in ('*', '*x'):
                continue
            sub = full + '.' + n
            need = yield Do(lambda: n not in st.get(m).attrs and '__path__' in st.get(m).attrs and
                            vm.find_source(sub) is not None)
            if need:
                yield from ensure(vm, st, sub)
        return vm.mods(st)[full]
    return vm.mods(st)[parts[0]]


def ensure(vm, st, nm):
    have = yield Do(lambda: nm in vm.mods(st))
    if have:
        return
    src = vm.find_source(nm)
    if src is None:
        if not vm.real_module_exists(nm):
            vm.throw(st, 'ModuleNotFoundError', "No module named '%s'" % nm)

        def stub():
            m = st.alloc(vm.types['module'], {'__name__': nm, '__origin__': 'unknown', '__path__': nm,
                                              '__package__': nm}, None)
            st.mut(vm.mods_ref).attrs[nm] = m
        yield Do(stub)
    else:
        try:
            yield Call(N_LOAD, (nm,))
        except AbsRaise:
            if nm in vm.mods(st):
                del st.mut(vm.mods_ref).attrs[nm]
            raise
    par, _, leaf = nm.rpartition('.')
    if par:
        def bind():
            st.mut(vm.mods(st)[par]).attrs[leaf] = vm.mods(st)[nm]
        yield Do(bind)


def import_builtin(vm, st, args, kw):
    name = args[0]
    fromlist = args[3] if len(args) > 3 else kw.get('fromlist', ())
    level = args[4] if len(args) > 4 else kw.get('level', 0)
    if name.__class__ is not str:
        raise Unsupported('import of unknown name')
    if fromlist.__class__ is Ref:
        fromlist = tuple(st.get(fromlist).data)
    r = yield from import_gen(vm, st, (name, '', fromlist, level), {})
    return r


# ================================================================ bootstrap
def bootstrap(vm):
    st = vm.st0
    ty = vm.types

    def alloc_class(name, bases, lay, mro=None):
        r = st.alloc(None, {}, None)
        o = st.get(r)
        o.data = ClassData(name, bases, (), lay, 'builtin')
        m = []
        for b in bases:
            m = list(st.get(b).data.mro)
        o.data.mro = (r,) + tuple(m)
        ty[name] = r
        return r
    obj = alloc_class('object', (), 'object')
    typ = alloc_class('type', (obj,), 'type')
    st.get(obj).cls = typ
    st.get(typ).cls = typ

    def mk(name, lay=None, base=None):
        r = alloc_class(name, (base or obj,), lay or name)
        st.get(r).cls = typ
        return r
    for n in ('int', 'float', 'complex', 'str', 'bytes', 'tuple', 'list', 'dict', 'set', 'frozenset', 'slice', 'range',
              'function', 'method', 'builtin_function_or_method', 'module', 'cell', 'code', 'generator', 'property',
              'classmethod', 'staticmethod', 'iterator', 'super', 'mappingproxy', 'NoneType',
              'ellipsis', 'NotImplementedType', 'bytearray', 'frame', 'traceback'):
        mk(n)
    mk('bool', 'bool', ty['int'])
    mk('member_descriptor', 'member')
    for n in ('dict_keys', 'dict_values', 'dict_items'):
        mk(n, 'dictview')
    # exceptions
    todo = [c for c in vars(HB).values() if isinstance(c, type) and issubclass(c, BaseException)]
    done = {object}

    def exc(c):
        if c.__name__ in ty:
            return ty[c.__name__]
        b = c.__bases__[0]
        br = ty['object'] if b is object else exc(b)
        return mk(c.__name__, 'exc', br)
    for c in todo:
        exc(c)
    vm.mods_ref = st.alloc(ty['module'], {}, None)
    from . import nat_types, nat_builtins
    nat_types.install(vm)
    nat_builtins.install(vm)
    st.freeze()


from .nat_str import format_value  # noqa
