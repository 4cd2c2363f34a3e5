"""Methods and constructors of the built-in types."""
from .values import *
from . import facts as F
from . import strings as S
from .vm import (AbsRaise, Call, Do, PUSHED, NeedFork, PathEnd, ClassData, FuncData, DData, Frame, NFrame, CellV)
from . import natives as N
from . import nat_str as NS


def install(vm):
    st = vm.st0
    ty = vm.types

    def put(tname, name, fn, gen=False, binds=True):
        st.get(ty[tname]).attrs[name] = Native('%s.%s' % (tname, name), fn, gen, binds)

    def cm(tname, name, fn, gen=False):
        r = st.alloc(ty['classmethod'], {}, (Native('%s.%s' % (tname, name), fn, gen),))
        st.get(ty[tname]).attrs[name] = r

    # ------------------------------------------------------------ object / type
    put('object', '__new__', N.object_new, False, False)
    put('object', '__init__', N.object_init)
    put('object', '__repr__', NS.repr_gen_default, True)
    put('object', '__str__', NS.repr_gen_any, True)
    put('object', '__hash__', lambda vm, st, a, k: ivar(T('hash', (a[0],), 'int')))
    put('object', '__eq__', lambda vm, st, a, k: True if a[0].__class__ is Ref and a[0] == a[1] else
        prim_eq(vm, st, a[0], a[1]))
    put('object', '__ne__', object_ne, True)
    put('object', '__setattr__', setattr_raw, True)
    put('object', '__getattribute__', getattribute_raw, True)
    put('object', '__delattr__', delattr_raw, True)
    put('object', '__format__', NS.format_gen, True)
    put('object', '__reduce__', unsupported('__reduce__'))
    cm('object', '__init_subclass__', lambda vm, st, a, k: None)
    st.get(ty['object']).attrs['__class__'] = None
    del st.get(ty['object']).attrs['__class__']
    put('object', '__dir__', lambda vm, st, a, k: N.new_list(vm, st, dir_names(vm, st, a[0])))
    put('type', '__new__', type_new, True, False)
    put('type', '__init__', lambda vm, st, a, k: None)
    put('type', '__call__', N.type_call, True)
    put('type', 'mro', lambda vm, st, a, k: N.new_list(vm, st, st.get(a[0]).data.mro))
    put('type', '__instancecheck__', lambda vm, st, a, k: vm.isinst(st, a[1], a[0]))
    put('type', '__subclasses__', unsupported('__subclasses__'))

    # ------------------------------------------------------------ immutable constructors
    put('int', '__new__', int_new, True, False)
    put('float', '__new__', float_new, True, False)
    put('bool', '__new__', bool_new, True, False)
    put('str', '__new__', str_new, True, False)
    put('bytes', '__new__', bytes_new, True, False)
    put('tuple', '__new__', tuple_new, True, False)
    put('complex', '__new__', unsupported('complex'), False, False)
    put('NoneType', '__new__', lambda vm, st, a, k: None, False, False)
    put('slice', '__new__', slice_new, False, False)
    put('slice', 'indices', lambda vm, st, a, k: N.slice_indices(vm, st, a[0], N.as_int(N.unwrap(st, a[1]), vm, st)), False)
    put('range', '__new__', range_new, False, False)
    for n in ('int', 'float', 'bool', 'str', 'bytes', 'tuple', 'slice', 'range', 'complex', 'NoneType', 'frozenset'):
        put(n, '__init__', lambda vm, st, a, k: None)
    for n in ('int', 'float'):
        install_num(put, n)
    put('int', 'bit_length', lambda vm, st, a, k: host_int(a[0], 'bit_length'))
    put('int', 'to_bytes', int_to_bytes)
    cm('int', 'from_bytes', int_from_bytes)
    put('float', 'is_integer', lambda vm, st, a, k: host_int(a[0], 'is_integer'))
    NS.install(vm)
    for n in ('str', 'bytes', 'tuple', 'list', 'dict', 'set', 'frozenset', 'int', 'float', 'range', 'bool'):
        install_common(put, n)
    cm('str', 'maketrans', maketrans)
    cm('bytes', 'fromhex', lambda vm, st, a, k: bytes.fromhex(a[1]))

    # ------------------------------------------------------------ tuple / list
    put('tuple', 'index', seq_index, True)
    put('tuple', 'count', seq_count, True)
    put('list', '__new__', lambda vm, st, a, k: N.new_instance(vm, st, a[0]), False, False)
    put('list', '__init__', list_init, True)
    put('list', 'append', lambda vm, st, a, k: st.mut(a[0]).data.append(a[1]))
    put('list', 'extend', list_extend, True)
    put('list', 'insert', list_insert)
    put('list', 'pop', list_pop)
    put('list', 'remove', list_remove, True)
    put('list', 'reverse', lambda vm, st, a, k: st.mut(a[0]).data.reverse())
    put('list', 'clear', lambda vm, st, a, k: st.mut(a[0]).data.clear())
    put('list', 'copy', lambda vm, st, a, k: N.new_list(vm, st, st.get(a[0]).data))
    put('list', 'index', seq_index, True)
    put('list', 'count', seq_count, True)
    put('list', 'sort', list_sort, True)

    # ------------------------------------------------------------ dict / set
    put('dict', '__new__', lambda vm, st, a, k: N.new_instance(vm, st, a[0]), False, False)
    put('dict', '__init__', dict_update, True)
    put('dict', 'update', dict_update, True)
    put('dict', 'get', dict_get, True)
    put('dict', 'setdefault', dict_setdefault, True)
    put('dict', 'pop', dict_pop, True)
    put('dict', 'popitem', dict_popitem)
    put('dict', 'clear', lambda vm, st, a, k: H(vm, st, a[0]).clear())
    put('dict', 'copy', lambda vm, st, a, k: copy_dict(vm, st, a[0]))
    for v in ('keys', 'values', 'items'):
        def mkview(v):
            put('dict', v, lambda vm, st, a, k: st.alloc(vm.types['dict_' + v], None, (v, a[0])))
        mkview(v)
    cm('dict', 'fromkeys', dict_fromkeys, True)
    for n in ('get', 'keys', 'values', 'items', 'copy'):
        st.get(ty['mappingproxy']).attrs[n] = st.get(ty['dict']).attrs[n]
    put('set', '__new__', lambda vm, st, a, k: N.new_instance(vm, st, a[0]), False, False)
    put('set', '__init__', set_init, True)
    put('frozenset', '__new__', frozenset_new, True, False)
    put('set', 'add', set_add, True)
    put('set', 'discard', set_discard, True)
    put('set', 'remove', set_remove, True)
    put('set', 'pop', set_pop)
    put('set', 'clear', lambda vm, st, a, k: H(vm, st, a[0]).clear())
    put('set', 'update', set_update, True)
    for n in ('set', 'frozenset'):
        put(n, 'copy', lambda vm, st, a, k: N.new_set(vm, st, H(vm, st, a[0]).keys(), st.get(a[0]).cls))
        for m, o in (('union', '|'), ('intersection', '&'), ('difference', '-'), ('symmetric_difference', '^')):
            put(n, m, set_method(o), True)
        put(n, 'issubset', set_cmp('<='), True)
        put(n, 'issuperset', set_cmp('>='), True)
        put(n, 'isdisjoint', set_disjoint, True)
    put('set', 'difference_update', set_imethod('-'), True)
    put('set', 'intersection_update', set_imethod('&'), True)

    # ------------------------------------------------------------ exceptions
    put('BaseException', '__new__', exc_new, False, False)
    put('BaseException', '__init__', exc_init)
    put('BaseException', '__str__', NS.str_gen_base, True)
    put('BaseException', '__repr__', NS.repr_gen_default, True)
    put('BaseException', 'with_traceback', lambda vm, st, a, k: a[0])
    put('BaseException', 'add_note', lambda vm, st, a, k: None)

    # ------------------------------------------------------------ descriptors
    put('property', '__new__', property_new, False, False)
    put('property', '__init__', property_init)
    put('property', 'getter', prop_with(0))
    put('property', 'setter', prop_with(1))
    put('property', 'deleter', prop_with(2))
    put('property', '__get__', property_get, True)
    put('property', '__set__', property_set, True)
    put('property', '__delete__', property_del, True)
    for n in ('classmethod', 'staticmethod'):
        put(n, '__new__', lambda vm, st, a, k: st.alloc(a[0], {}, (a[1] if len(a) > 1 else None,)), False, False)
        put(n, '__init__', wrap_init)
        put(n, '__get__', lambda vm, st, a, k: vm.descr_get(st, a[0], a[1], a[2] if len(a) > 2 else
                                                           vm.type_of(st, a[1])))
    put('super', '__new__', super_new, False, False)
    put('super', '__init__', lambda vm, st, a, k: None)
    put('super', '__getattribute__', lambda vm, st, a, k: None)
    st.get(ty['super']).attrs.pop('__getattribute__')
    put('super', '__getattr__', super_ga, True)
    put('module', '__new__', lambda vm, st, a, k: st.alloc(a[0], {}, None), False, False)
    put('module', '__init__', module_init)
    put('function', '__call__', call_gen, True)
    put('function', '__new__', function_new, False, False)
    put('method', '__new__', lambda vm, st, a, k: BM(a[1], a[2]), False, False)
    put('method', '__call__', call_gen, True)
    put('mappingproxy', '__new__', lambda vm, st, a, k: st.alloc(a[0], None, a[1]), False, False)

    # ------------------------------------------------------------ generators / iterators
    put('generator', '__iter__', lambda vm, st, a, k: a[0])
    put('generator', '__next__', N.next_native)
    put('generator', 'send', gen_send)
    put('generator', 'throw', gen_throw)
    put('generator', 'close', gen_close, True)
    put('iterator', '__iter__', lambda vm, st, a, k: a[0])
    put('iterator', '__next__', N.next_native)
    put('bytearray', '__new__', bytearray_new, False, False)
    put('bytearray', '__init__', lambda vm, st, a, k: None)
    put('bytearray', 'append', bytearray_append)
    put('bytearray', 'extend', bytearray_extend)


def unsupported(what):
    def f(vm, st, a, k):
        raise Unsupported(what)
    return f


def prim_eq(vm, st, a, b):
    if a.__class__ is Ref and b.__class__ is Ref:
        return NotImplemented
    return NotImplemented


def object_ne(vm, st, args, kw):
    m = vm.user_special(st, args[0], '__eq__')
    if m is not None:
        r = yield Call(m, args)
        if r is NotImplemented:
            return r
        t = yield Call(N.N_BOOL, (r,))
        return not t
    return NotImplemented if not (args[0].__class__ is Ref and args[0] == args[1]) else False


def H(vm, st, v):
    h = N.handle(vm, st, v)
    if h is None:
        raise Unsupported('dict method on %r' % (v,))
    return h


NO_SUCH = '<no attribute of that name>'


def attr_name(vm, st, v, obj=None, has=None):
    v = N.unwrap(st, v)
    if v.__class__ is SStr and has is not None:
        # one of the names the object has, or none of them
        for n in dir_names(vm, st, obj):
            c = N.compare(vm, st, '==', v, n)
            if vm.decide(st, c):
                return n
        if vm.special(st, obj, '__getattr__') is None:
            return NO_SUCH
    if v.__class__ is SStr:
        raise Unsupported('attribute of unknown name %r' % (v,))
    if v.__class__ is not str:
        vm.throw(st, 'TypeError', 'attribute name must be string')
    return v


def setattr_raw(vm, st, args, kw):
    o, n, v = args
    n = attr_name(vm, st, n)
    if o.__class__ is not Ref:
        vm.throw(st, 'AttributeError', n)
    r = vm.setattr_raw(st, o, n, v)
    if r is not None:
        yield r
    return None


def delattr_raw(vm, st, args, kw):
    r = vm.delattr_raw(st, args[0], attr_name(vm, st, args[1]))
    if r is not None:
        yield r
    return None


def getattribute_raw(vm, st, args, kw):
    v, name = args
    name = attr_name(vm, st, name)
    if v.__class__ is Ref and st.get(v).data.__class__ is not ClassData:
        o = st.get(v)
        cls = o.cls
        r = vm.lookup_cls(st, cls, name)
        if r is not None and vm.is_data_descr(st, r[0]):
            x = vm.descr_get(st, r[0], v, cls)
        elif o.attrs is not None and name in o.attrs:
            return o.attrs[name]
        else:
            sp = vm.special_attr(st, v, o, name)
            if sp is not NULL:
                return sp
            if r is None:
                return vm.no_attr(st, v, cls, name)
            x = vm.descr_get(st, r[0], v, cls)
    else:
        x = vm.getattr_(st, v, name)
    if x.__class__ is Call:
        x = yield x
    return x


def dir_names(vm, st, v):
    out = set()
    if v.__class__ is Ref:
        o = st.get(v)
        if o.attrs:
            out.update(k for k in o.attrs if k not in ('__origin__', '__where__'))
        k = v if o.data.__class__ is ClassData else o.cls
        if o.data.__class__ is not ClassData and st.get(o.cls).data.layout == 'module':
            return sorted(out)
        for c in st.get(k).data.mro:
            out.update(st.get(c).attrs)
    return sorted(out)


def type_new(vm, st, args, kw):
    if len(args) == 2 and args[0] == vm.types['type']:
        return vm.type_of(st, args[1])
    r = yield from N.type_new(vm, st, args, kw)
    return r


# ---------------------------------------------------------------- numbers
def wrapcls(vm, st, cls, name, v):
    if cls == vm.types[name]:
        return v
    return st.alloc(cls, {}, v)


def int_new(vm, st, args, kw):
    cls = args[0]
    v = yield from int_value(vm, st, args[1:], kw)
    return wrapcls(vm, st, cls, 'int', v)


def int_value(vm, st, args, kw):
    if not args:
        return 0
    v = args[0]
    base = args[1] if len(args) > 1 else kw.get('base', 10)
    if v.__class__ is Ref:
        for n in ('__int__', '__index__', '__trunc__'):
            m = vm.user_special(st, v, n)
            if m is not None:
                r = yield Call(m, (v,))
                return r
    v = N.unwrap(st, v)
    if N.is_txt(v):
        return NS.int_of_text(vm, st, v, base)
    if v.__class__ is bool:
        return int(v)
    if v.__class__ in (int, Lin):
        return v
    if v.__class__ is Term:
        if v.ty == 'bool':
            return 1 if vm.decide(st, v) else 0
        if v.ty == 'int':
            return ivar(v)
        if v.ty == 'float':
            if v.op == 'tofloat':
                return v.args[0]
            neg = N.FL.less(st, v, 0.0)
            if neg is not None:
                neg = vm.decide(st, neg)
                r = N.FL.to_floor(st, T('fneg', (v,), 'float') if neg else v, lambda L, d: N.floordiv(vm, st, L, d))
                if r is not None:
                    return lmul(r, -1) if neg else r
            r = N.FL.to_trunc(st, v)
            return ivar(T('trunc', (v,), 'int')) if r is None else r
        raise Unsupported('int(%r)' % (v,))
    if v.__class__ is float:
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            vm.throw(st, type(e).__name__, str(e))
    vm.throw(st, 'TypeError', "int() argument must be a string, a bytes-like object or a real number, not '%s'"
             % vm.cname(st, vm.type_of(st, v)))


def float_new(vm, st, args, kw):
    cls = args[0]
    if len(args) == 1:
        return wrapcls(vm, st, cls, 'float', 0.0)
    v = args[1]
    if v.__class__ is Ref:
        m = vm.user_special(st, v, '__float__')
        if m is not None:
            r = yield Call(m, (v,))
            return r
    v = N.unwrap(st, v)
    if v.__class__ in (str, bytes, int, bool, float):
        try:
            return wrapcls(vm, st, cls, 'float', float(v))
        except (ValueError, OverflowError) as e:
            vm.throw(st, type(e).__name__, str(e))
    if v.__class__ is Lin or v.__class__ is Term and v.ty in ('int', 'float'):
        return N.fnorm(v if v.__class__ is not Term or v.ty == 'float' else ivar(v))
    if v.__class__ is SStr:
        return float_of_text(vm, st, v)
    if v.__class__ is Term and v.ty not in vm.types:
        raise Unsupported('float(%r)' % (v,))
    vm.throw(st, 'TypeError', 'float() argument must be a string or a real number')


def float_of_text(vm, st, v):
    sg = list(v.segs)
    if len(sg) == 1 and sg[0].op == 'repr' and sg[0].args[0].__class__ is Term and sg[0].args[0].ty == 'float':
        return sg[0].args[0]
    # digits [. digits]
    txt = [s if s.__class__ is not Term else None for s in sg]
    if all(s.__class__ is not Term and all(c in '0123456789.' for c in (s if isinstance(s, str) else s.decode('latin-1'))) or
           s.__class__ is Term and (s.op == 'dec' or props(s).get('digits') and isinstance(props(s).get('len'), int))
           for s in sg):
        parts = S.ssplit(vm, st, v, '.' if v.kind == 'str' else b'.')
        if len(parts) <= 2:
            whole = parts[0]
            frac = parts[1] if len(parts) == 2 else S.lit0(v.kind)
            n = S.slen(frac)
            if n.__class__ is int:
                both = S.mk(v.kind, [whole, frac])
                if S.slen(both) != 0:
                    val = NS.int_of_text(vm, st, both)
                    if n == 0:
                        return N.fnorm(val)
                    if val.__class__ is int:
                        return val / 10 ** n
                    return T('fdiv', (val, 10 ** n), 'float')
    if vm.decide(st, T('isfloat', (v,), 'bool')):
        return T('float', (v,), 'float')
    vm.throw(st, 'ValueError', 'could not convert string to float')


def bool_new(vm, st, args, kw):
    if len(args) == 1:
        return False
    r = yield Call(N.N_BOOL, (args[1],))
    return r


def str_new(vm, st, args, kw):
    cls = args[0]
    if cls == vm.types['str']:
        r = yield Call(NS.N_STR, args[1:], kw)
        return r
    r = yield Call(NS.N_STR, args[1:2], {})
    return st.alloc(cls, {}, r)


def bytes_new(vm, st, args, kw):
    cls = args[0]
    if len(args) == 1:
        return wrapcls(vm, st, cls, 'bytes', b'')
    v = N.unwrap(st, args[1])
    if S.kind_of(v) == 'str':
        if len(args) < 3 and 'encoding' not in kw:
            vm.throw(st, 'TypeError', 'string argument without an encoding')
        return wrapcls(vm, st, cls, 'bytes', NS.do_encode(vm, st, v, args[2] if len(args) > 2 else kw['encoding']))
    if S.kind_of(v) == 'bytes':
        return wrapcls(vm, st, cls, 'bytes', v)
    if v.__class__ is Ref:
        m = vm.user_special(st, v, '__bytes__')
        if m is not None:
            r = yield Call(m, (v,))
            return r
        if N.layout(vm, st, v) == 'bytearray':
            return st.get(v).data[0]
    if N.is_int(v):
        if v.__class__ is int:
            if v < 0:
                vm.throw(st, 'ValueError', 'negative count')
            return bytes(v)
        raise Unsupported('bytes(n)')
    seq = yield Call(N.N_TUPLE, (v,))
    out = []
    for x in seq:
        if x.__class__ in (int, bool):
            if not 0 <= x < 256:
                vm.throw(st, 'ValueError', 'bytes must be in range(0, 256)')
            out.append(bytes([x]))
        elif x.__class__ is Lin and len(x.ts) == 1 and x.c == 0 and x.ts[0][1] == 1 and x.ts[0][0].op == 'byteat':
            out.append(x.ts[0][0].args[0])
        elif x.__class__ is Ref or N.is_txt(x):
            vm.throw(st, 'TypeError', "'%s' object cannot be interpreted as an integer" %
                     vm.cname(st, vm.type_of(st, x)))
        else:
            raise Unsupported('bytes of unknown numbers')
    return wrapcls(vm, st, cls, 'bytes', S.mk('bytes', out))


def bytearray_new(vm, st, args, kw):
    v = args[1] if len(args) > 1 else b''
    if S.kind_of(v) != 'bytes':
        raise Unsupported('bytearray')
    return st.alloc(args[0], None, [v])


def bytearray_append(vm, st, args, kw):
    if args[1].__class__ is not int:
        raise Unsupported('bytearray.append')
    d = st.mut(args[0]).data
    d[0] = S.concat(d[0], bytes([args[1]]))


def bytearray_extend(vm, st, args, kw):
    if S.kind_of(args[1]) != 'bytes':
        raise Unsupported('bytearray.extend')
    d = st.mut(args[0]).data
    d[0] = S.concat(d[0], args[1])


def tuple_new(vm, st, args, kw):
    cls = args[0]
    v = ()
    if len(args) > 1:
        v = yield Call(N.N_TUPLE, (args[1],))
    return wrapcls(vm, st, cls, 'tuple', v)


def slice_new(vm, st, args, kw):
    a = args[1:]
    if len(a) == 1:
        return VSlice(None, a[0], None)
    return VSlice(a[0], a[1], a[2] if len(a) > 2 else None)


def range_new(vm, st, args, kw):
    a = [N.as_int(N.unwrap(st, x), vm, st) for x in args[1:]]
    for x in a:
        if x.__class__ not in (int, Lin):
            vm.throw(st, 'TypeError', 'range() integer argument expected')
    if len(a) == 1:
        r = (0, a[0], 1)
    elif len(a) == 2:
        r = (a[0], a[1], 1)
    else:
        r = tuple(a)
    if r[2] == 0:
        vm.throw(st, 'ValueError', 'range() arg 3 must not be zero')
    if r[2].__class__ is not int:
        raise Unsupported('range step')
    return st.alloc(args[0], None, r)


def host_int(v, m):
    if v.__class__ in (int, bool, float):
        return getattr(v, m)()
    raise Unsupported('int.%s' % m)


def int_to_bytes(vm, st, args, kw):
    v = args[0]
    if v.__class__ is int:
        try:
            return v.to_bytes(*args[1:], **kw)
        except OverflowError as e:
            vm.throw(st, 'OverflowError', str(e))
    n = args[1]
    order = args[2] if len(args) > 2 else kw.get('byteorder', 'big')
    t = T('tobytes', (v, n, order), 'bytes')
    PROPS[t] = dict(len=n)
    return S.atom(t)


def int_from_bytes(vm, st, args, kw):
    v = args[1]
    order = args[2] if len(args) > 2 else kw.get('byteorder', 'big')
    if v.__class__ is bytes:
        return int.from_bytes(v, order)
    if v.__class__ is SStr and len(v.segs) == 1 and v.segs[0].op == 'tobytes' and v.segs[0].args[2] == order:
        return v.segs[0].args[0]
    return ivar(T('frombytes', (v, order), 'int'))


def install_num(put, n):
    for op, name in N.OPNAME.items():
        if op == '@':
            continue

        def mk(op):
            def f(vm, st, a, k):
                x, y = N.unwrap(st, a[0]), N.unwrap(st, a[1])
                if not (N.is_int(y) or N.is_float(y)):
                    return NotImplemented
                return N.binop(vm, st, op, x, y)

            def g(vm, st, a, k):
                x, y = N.unwrap(st, a[0]), N.unwrap(st, a[1])
                if not (N.is_int(y) or N.is_float(y)):
                    return NotImplemented
                return N.binop(vm, st, op, y, x)
            return f, g
        f, g = mk(op)
        put(n, '__%s__' % name, f)
        put(n, '__r%s__' % name, g)
    put(n, '__int__', lambda vm, st, a, k: int(a[0]) if a[0].__class__ in (int, float, bool) else a[0])
    put(n, '__float__', lambda vm, st, a, k: N.fnorm(a[0]))
    put(n, '__index__', lambda vm, st, a, k: a[0])
    put(n, '__neg__', lambda vm, st, a, k: lmul(N.unwrap(st, a[0]), -1))
    put(n, '__abs__', lambda vm, st, a, k: abs(a[0]))
    put(n, '__bool__', N.bool_gen, True)


def install_common(put, n):
    """explicit calls such as dict.__setitem__(self, k, v), str.__eq__..."""
    def cmpf(op):
        def f(vm, st, args, kw):
            a, b = N.unwrap(st, args[0]), N.unwrap(st, args[1])
            la, lb = N.layout(vm, st, a), N.layout(vm, st, b)
            num = ('int', 'bool', 'float')
            if la != lb and not (la in num and lb in num) and not {la, lb} <= {'set', 'frozenset'}:
                return NotImplemented
            if op in ('==', '!='):
                r = prim_compare(vm, st, op, a, b)
                if r is N.DEFER:
                    r = yield from native_container_eq(vm, st, op, a, b)
                return r
            r = N.compare(vm, st, op, a, b)
            if r is N.DEFER:
                r = yield Call(Native('cmp', N.compare_gen, True), (op, a, b))
            return r
        return f
    for op, d in N.DUNDER.items():
        if op in ('<', '<=', '>', '>=') and n == 'dict':
            continue
        put(n, d, cmpf(op), True)
    if n in ('list', 'dict', 'set'):
        # unhashable
        pass
    else:
        put(n, '__hash__', N.hash_gen, True)
    if n not in ('int', 'float', 'bool'):
        put(n, '__len__', lambda vm, st, a, k: raw_len(vm, st, a[0]))
        put(n, '__iter__', lambda vm, st, a, k: raw_iter(vm, st, a[0]))
        put(n, '__contains__', raw_contains, True)
    if n in ('str', 'bytes', 'tuple', 'list'):
        put(n, '__add__', lambda vm, st, a, k: N.binop(vm, st, '+', N.unwrap(st, a[0]), N.unwrap(st, a[1])))
        put(n, '__mul__', lambda vm, st, a, k: N.binop(vm, st, '*', N.unwrap(st, a[0]), N.unwrap(st, a[1])))
    if n in ('str', 'bytes'):
        def mod(vm, st, args, kw):
            r = yield from NS.percent_gen(vm, st, N.unwrap(st, args[0]), args[1])
            return r
        put(n, '__mod__', mod, True)
    if n in ('str', 'bytes', 'tuple', 'list', 'dict', 'range'):
        put(n, '__getitem__', raw_getitem, True)
    if n in ('list', 'dict'):
        put(n, '__setitem__', raw_setitem, True)
        put(n, '__delitem__', raw_delitem, True)
    if n in ('set', 'frozenset'):
        for o, m in (('|', '__or__'), ('&', '__and__'), ('-', '__sub__'), ('^', '__xor__')):
            def mk(o):
                return lambda vm, st, a, k: N.set_op(vm, st, o, a[0], a[1])
            put(n, m, mk(o))
    put(n, '__repr__', NS.repr_gen_raw, True)
    if n == 'str':
        put(n, '__str__', lambda vm, st, a, k: N.unwrap(st, a[0]))
        put(n, '__format__', NS.format_gen, True)


def prim_compare(vm, st, op, a, b):
    """== on the builtin layout ignoring overrides on the objects themselves"""
    la = N.layout(vm, st, a)
    if la == 'dict':
        r = N.dict_eq(vm, st, a, b)
    elif la == 'list':
        r = N.seq_eq(vm, st, st.get(a).data, st.get(b).data)
    elif la == 'tuple':
        r = N.seq_eq(vm, st, a, b)
    else:
        r = N.c_eq(vm, st, a, b)
    if r is N.DEFER:
        return r
    return r if op == '==' else N.cnot(r)


def native_container_eq(vm, st, op, a, b):
    la = N.layout(vm, st, a)
    if la in ('list', 'tuple'):
        x = N.listlike(st, a)
        y = N.listlike(st, b)
        r = len(x) == len(y)
        if r:
            for p, q in zip(tuple(x), tuple(y)):
                e = yield Call(N.N_EQ, (p, q))
                e = yield Call(N.N_BOOL, (e,))
                if not e:
                    r = False
                    break
        return r if op == '==' else not r
    if la == 'dict':
        ia = yield Do(lambda: N.handle(vm, st, a).items())
        r = len(ia) == len(N.handle(vm, st, b))
        if r:
            for k, v in ia:
                s = yield Call(Native('slot', N.slot_gen, True), (b, k))
                if s is None:
                    r = False
                    break
                e = yield Call(N.N_EQ, (v, N.H(vm, st, b).d.e[s][1]))
                e = yield Call(N.N_BOOL, (e,))
                if not e:
                    r = False
                    break
        return r if op == '==' else not r
    raise Unsupported('container comparison')


class raw:
    """Operate on an instance as if its class did not override anything."""


def raw_view(vm, st, v):
    """(layout, data) of the builtin part"""
    if v.__class__ is Ref:
        return st.get(st.get(v).cls).data.layout, st.get(v).data
    return N.layout(vm, st, v), v


def raw_len(vm, st, v):
    lay, d = raw_view(vm, st, v)
    if lay in ('dict', 'set', 'frozenset'):
        return len(N.handle(vm, st, v))
    if lay in ('list', 'tuple'):
        return len(d)
    if lay == 'range':
        return N.range_len(vm, st, d)
    return S.slen(d)


def raw_iter(vm, st, v):
    lay, d = raw_view(vm, st, v)
    if lay in ('dict', 'set', 'frozenset') and v.__class__ is Ref:
        return N.new_iter(vm, st, 'dict', v, tuple(d.e), 0, 'keys')
    if lay == 'list':
        return N.new_iter(vm, st, 'list', v, 0)
    if lay == 'tuple':
        return N.new_iter(vm, st, 'tuple', d, 0)
    if lay in ('str', 'bytes'):
        return N.new_iter(vm, st, 'str', d, 0)
    return N.get_iter(vm, st, v)


def raw_contains(vm, st, args, kw):
    b, a = args
    lay, d = raw_view(vm, st, b)
    if lay in ('dict', 'set', 'frozenset'):
        h = N.handle(vm, st, b)
        if N.needs_gen(vm, st, h, a):
            s = yield Call(Native('slot', N.slot_gen, True), (b, a))
            return s is not None
        return h.find(a) is not None
    if lay in ('list', 'tuple'):
        r = N.seq_contains(vm, st, d, a)
        if r is N.DEFER:
            r = yield from N.contains_any(vm, st, tuple(d), a)
        return r
    return N.contains(vm, st, d, a)


def raw_getitem(vm, st, args, kw):
    a, k = args
    lay, d = raw_view(vm, st, a)
    if lay == 'dict':
        h = N.handle(vm, st, a)
        if N.needs_gen(vm, st, h, k):
            r = yield Call(Native('gi', N.getitem_gen, True), (a, k))
            return r
        e = h.find(k)
        if e is None:
            m = vm.user_special(st, a, '__missing__')
            if m is not None:
                r = yield Call(m, (a, k))
                return r
            vm.throw(st, 'KeyError', k)
        return e[1]
    if lay == 'list':
        if k.__class__ is VSlice:
            return N.new_list(vm, st, N.seq_slice(vm, st, d, k))
        return N.seq_get(vm, st, d, k, 'list')
    return N.getitem(vm, st, d if lay != 'range' else a, k)


def raw_setitem(vm, st, args, kw):
    a, k, v = args
    lay, d = raw_view(vm, st, a)
    if lay == 'dict':
        h = N.handle(vm, st, a)
        if N.needs_gen(vm, st, h, k):
            yield Call(Native('si', N.setitem_gen, True), (a, k, v))
            return None
        h.set(k, v)
        return None
    if k.__class__ is VSlice:
        raise Unsupported('list.__setitem__(slice)')
    i = N.norm_index(vm, st, k, len(d))
    if i is None:
        vm.throw(st, 'IndexError', 'list assignment index out of range')
    st.mut(a).data[N.concrete_index(vm, st, i, len(d))] = v


def raw_delitem(vm, st, args, kw):
    a, k = args
    lay, d = raw_view(vm, st, a)
    if lay == 'dict':
        h = N.handle(vm, st, a)
        if N.needs_gen(vm, st, h, k):
            yield Call(Native('di', N.delitem_gen, True), (a, k))
            return None
        s = h.slot(k)
        if s is None:
            vm.throw(st, 'KeyError', k)
        h.remove(s)
        return None
    raise Unsupported('list.__delitem__')


def maketrans(vm, st, args, kw):
    if len(args) == 3 and args[1].__class__ is str and args[2].__class__ is str:
        d = str.maketrans(args[1], args[2])
        return N.new_dict(vm, st, list(d.items()))
    raise Unsupported('maketrans')


# ---------------------------------------------------------------- list
def list_init(vm, st, args, kw):
    if len(args) > 1:
        x = yield Call(N.N_TUPLE, (args[1],))
        st.mut(args[0]).data[:] = list(x)
    return None


def list_extend(vm, st, args, kw):
    x = yield Call(N.N_TUPLE, (args[1],))
    st.mut(args[0]).data.extend(x)
    return None


def list_insert(vm, st, args, kw):
    l, i, v = args
    i = N.as_int(i, vm, st)
    if i.__class__ is not int:
        raise Unsupported('insert at unknown position')
    st.mut(l).data.insert(i, v)


def list_pop(vm, st, args, kw):
    l = args[0]
    d = st.get(l).data
    if not d:
        vm.throw(st, 'IndexError', 'pop from empty list')
    i = N.norm_index(vm, st, args[1] if len(args) > 1 else -1, len(d))
    if i is None:
        vm.throw(st, 'IndexError', 'pop index out of range')
    i = N.concrete_index(vm, st, i, len(d))
    return st.mut(l).data.pop(i)


def find_in(vm, st, seq, v):
    for i, x in enumerate(seq):
        if x.__class__ is Ref and v.__class__ is Ref and x == v:
            return i
        r = yield Call(N.N_EQ, (x, v))
        r = yield Call(N.N_BOOL, (r,))
        if r:
            return i
    return None


def list_remove(vm, st, args, kw):
    l, v = args
    seq = yield Do(lambda: tuple(st.get(l).data))
    i = yield from find_in(vm, st, seq, v)
    if i is None:
        vm.throw(st, 'ValueError', 'list.remove(x): x not in list')
    del st.mut(l).data[i]
    return None


def seq_index(vm, st, args, kw):
    l, v = args[:2]
    start = args[2] if len(args) > 2 else 0
    seq = yield Do(lambda: tuple(N.listlike(st, l)))
    i = yield from find_in(vm, st, seq[start:], v)
    if i is None:
        vm.throw(st, 'ValueError', 'x not in sequence')
    return i + start


def seq_count(vm, st, args, kw):
    l, v = args
    seq = yield Do(lambda: tuple(N.listlike(st, l)))
    n = 0
    for x in seq:
        r = yield Call(N.N_EQ, (x, v))
        r = yield Call(N.N_BOOL, (r,))
        n += bool(r)
    return n


def list_sort(vm, st, args, kw):
    l = args[0]
    if len(args) > 1:
        vm.throw(st, 'TypeError', 'sort() takes no positional arguments')
    seq = yield Do(lambda: tuple(st.get(l).data))
    out = yield Call(vm.py('sorted_'), (seq,), dict(kw))
    new = yield Call(N.N_TUPLE, (out,))
    st.mut(l).data[:] = list(new)
    return None


# ---------------------------------------------------------------- dict
def dict_update(vm, st, args, kw):
    d = args[0]
    pairs = ()
    if len(args) > 1:
        src = args[1]
        h = N.handle(vm, st, src)
        if h is not None and (src.__class__ is not Ref or vm.user_special(st, src, 'keys') is None):
            pairs = yield Do(lambda: tuple(N.handle(vm, st, src).items()))
        elif src.__class__ is Ref and vm.lookup_cls(st, st.get(src).cls, 'keys') is not None:
            ks = yield Call(vm.getattr_(st, src, 'keys'), ())
            ks = yield Call(N.N_TUPLE, (ks,))
            out = []
            for k in ks:
                v = yield Call(Native('gi', NS.item_gen, True), (src, k))
                out.append((k, v))
            pairs = tuple(out)
        else:
            seq = yield Call(N.N_TUPLE, (src,))
            out = []
            for x in seq:
                x = yield Call(N.N_TUPLE, (x,))
                if len(x) != 2:
                    vm.throw(st, 'ValueError', 'dictionary update sequence element has length %d; 2 is required' % len(x))
                out.append(x)
            pairs = tuple(out)
    for k, v in tuple(pairs) + tuple(kw.items()):
        yield Call(Native('si', raw_setitem, True), (d, k, v))
    return None


def slot_of(vm, st, d, k):
    h = H(vm, st, d)
    if N.needs_gen(vm, st, h, k):
        s = yield Call(Native('slot', N.slot_gen, True), (d, k))
        return s
    return h.slot(k)


def entry(vm, st, d, s):
    h = H(vm, st, d)
    if h.ns:
        return h._names()[s[1]]
    return h.d.e[s][1]


def dict_get(vm, st, args, kw):
    d, k = args[:2]
    s = yield from slot_of(vm, st, d, k)
    if s is None:
        return args[2] if len(args) > 2 else kw.get('default')
    return entry(vm, st, d, s)


def dict_setdefault(vm, st, args, kw):
    d, k = args[:2]
    v = args[2] if len(args) > 2 else None
    s = yield from slot_of(vm, st, d, k)
    if s is not None:
        return entry(vm, st, d, s)
    H(vm, st, d).put(None, k, v)
    return v


def dict_pop(vm, st, args, kw):
    d, k = args[:2]
    s = yield from slot_of(vm, st, d, k)
    if s is None:
        if len(args) > 2:
            return args[2]
        vm.throw(st, 'KeyError', k)
    v = entry(vm, st, d, s)
    H(vm, st, d).remove(s)
    return v


def dict_popitem(vm, st, args, kw):
    h = H(vm, st, args[0])
    if not len(h):
        vm.throw(st, 'KeyError', 'popitem(): dictionary is empty')
    if h.ns:
        raise Unsupported('popitem')
    ck = list(h.d.e)[-1]
    k, v = h.d.e[ck]
    h.remove(ck)
    return (k, v)


def copy_dict(vm, st, d):
    if d.__class__ is NSProxy:
        return N.new_dict(vm, st, N.handle(vm, st, d).items())
    return st.alloc(vm.types['dict'], None, st.get(d).data.copy())


def dict_fromkeys(vm, st, args, kw):
    cls = args[0]
    keys = yield Call(N.N_TUPLE, (args[1],))
    v = args[2] if len(args) > 2 else None
    d = yield Call(cls, ())
    for k in keys:
        yield Call(Native('si', raw_setitem, True), (d, k, v))
    return d


# ---------------------------------------------------------------- set
def add_all(vm, st, s, items):
    for x in items:
        yield Call(Native('set.add', set_add, True), (s, x))


def set_init(vm, st, args, kw):
    if len(args) > 1:
        x = yield Call(N.N_TUPLE, (args[1],))
        yield from add_all(vm, st, args[0], x)
    return None


def frozenset_new(vm, st, args, kw):
    s = yield Do(lambda: N.new_instance(vm, st, args[0]))
    if len(args) > 1:
        x = yield Call(N.N_TUPLE, (args[1],))
        yield from add_all(vm, st, s, x)
    return s


def set_add(vm, st, args, kw):
    s, v = args
    sl = yield from slot_of(vm, st, s, v)
    if sl is None:
        H(vm, st, s).put(None, v, None)
    return None


def set_discard(vm, st, args, kw):
    s, v = args
    sl = yield from slot_of(vm, st, s, v)
    if sl is not None:
        H(vm, st, s).remove(sl)
    return None


def set_remove(vm, st, args, kw):
    s, v = args
    sl = yield from slot_of(vm, st, s, v)
    if sl is None:
        vm.throw(st, 'KeyError', v)
    H(vm, st, s).remove(sl)
    return None


def set_pop(vm, st, args, kw):
    h = H(vm, st, args[0])
    if not len(h):
        vm.throw(st, 'KeyError', 'pop from an empty set')
    ck = list(h.d.e)[0]
    k = h.d.e[ck][0]
    h.remove(ck)
    return k


def set_update(vm, st, args, kw):
    for o in args[1:]:
        x = yield Call(N.N_TUPLE, (o,))
        yield from add_all(vm, st, args[0], x)
    return None


def as_set(vm, st, o):
    x = yield Call(N.N_TUPLE, (o,))
    r = yield Do(lambda: N.new_set(vm, st, x))
    return r


def set_method(op):
    def f(vm, st, args, kw):
        cur = args[0]
        if len(args) == 1:
            return N.new_set(vm, st, H(vm, st, cur).keys(), st.get(cur).cls)
        for o in args[1:]:
            s = yield from as_set(vm, st, o)
            cur0 = cur
            cur = yield Do(lambda: N.set_op(vm, st, op, cur0, s))
        return cur
    return f


def set_imethod(op):
    def f(vm, st, args, kw):
        for o in args[1:]:
            s = yield from as_set(vm, st, o)
            yield Do(lambda: N.set_op(vm, st, op, args[0], s, True))
        return None
    return f


def set_cmp(op):
    def f(vm, st, args, kw):
        s = yield from as_set(vm, st, args[1])
        return N.compare(vm, st, op, args[0], s)
    return f


def set_disjoint(vm, st, args, kw):
    s = yield from as_set(vm, st, args[1])
    h = H(vm, st, args[0])
    return all(h.find(k) is None for k in H(vm, st, s).keys())


# ---------------------------------------------------------------- exceptions
def exc_new(vm, st, args, kw):
    cls = args[0]
    return st.alloc(cls, {'args': tuple(args[1:])}, None)


def exc_init(vm, st, args, kw):
    if kw:
        vm.throw(st, 'TypeError', '%s() takes no keyword arguments' % vm.cname(st, vm.type_of(st, args[0])))
    if not args or args[0].__class__ is not Ref:
        vm.throw(st, 'TypeError', "descriptor '__init__' requires a 'BaseException' object")
    st.mut(args[0]).attrs['args'] = tuple(args[1:])


# ---------------------------------------------------------------- descriptors
def property_new(vm, st, args, kw):
    return st.alloc(args[0], {}, [None, None, None])


def property_init(vm, st, args, kw):
    a = list(args[1:4])
    a += [None] * (3 - len(a))
    for i, n in enumerate(('fget', 'fset', 'fdel')):
        if n in kw:
            a[i] = kw[n]
    o = st.mut(args[0])
    o.data = a
    doc = args[4] if len(args) > 4 else kw.get('doc')
    if doc is None and a[0].__class__ is Ref and st.get(a[0]).data.__class__ is FuncData:
        c = st.get(a[0]).data.code.co_consts
        doc = c[0] if c and isinstance(c[0], str) else None
    o.attrs['__doc__'] = doc


def prop_with(i):
    def f(vm, st, args, kw):
        o = st.get(args[0])
        d = list(o.data)
        d[i] = args[1]
        return st.alloc(o.cls, dict(o.attrs), d)
    return f


def property_get(vm, st, args, kw):
    p, obj = args[:2]
    if obj is None:
        return p
    f = st.get(p).data[0]
    if f is None:
        vm.throw(st, 'AttributeError', 'property has no getter')
    r = yield Call(f, (obj,))
    return r


def property_set(vm, st, args, kw):
    f = st.get(args[0]).data[1]
    if f is None:
        vm.throw(st, 'AttributeError', 'property has no setter')
    yield Call(f, args[1:])
    return None


def property_del(vm, st, args, kw):
    f = st.get(args[0]).data[2]
    if f is None:
        vm.throw(st, 'AttributeError', 'property has no deleter')
    yield Call(f, args[1:])
    return None


def wrap_init(vm, st, args, kw):
    if len(args) > 1:
        st.mut(args[0]).data = (args[1],)


def super_new(vm, st, args, kw):
    a = args[1:]
    if not a:
        for f in reversed(st.frames):
            if f.__class__ is Frame:
                c = f.slots.get('__class__')
                if c is None:
                    vm.throw(st, 'RuntimeError', 'super(): __class__ cell not found')
                cls = st.get(c.ref).data[0]
                first = f.slots.get(f.ci.co.co_varnames[0])
                if first.__class__ is CellV:
                    first = st.get(first.ref).data[0]
                return st.alloc(vm.types['super'], {}, (cls, first))
    if len(a) == 1:
        return st.alloc(vm.types['super'], {}, (a[0], None))
    return st.alloc(vm.types['super'], {}, (a[0], a[1]))


def super_ga(vm, st, args, kw):
    cls, obj = st.get(args[0]).data
    if obj is None:
        vm.throw(st, 'AttributeError', "'super' object has no attribute %r" % (args[1],))
    r = N.super_getattr(vm, st, cls, obj, args[1])
    if r.__class__ is Call:
        r = yield r
    return r


def module_init(vm, st, args, kw):
    a = st.mut(args[0]).attrs
    a['__name__'] = args[1]
    a['__doc__'] = args[2] if len(args) > 2 else None
    a['__origin__'] = 'dynamic'


def function_new(vm, st, args, kw):
    raise Unsupported('types.FunctionType()')


def call_gen(vm, st, args, kw):
    r = yield Call(args[0], args[1:], kw)
    return r


# ---------------------------------------------------------------- generators
def gen_send(vm, st, args, kw):
    g, v = args
    d = st.get(g).data
    if d.state == 'new' and v is not None:
        vm.throw(st, 'TypeError', "can't send non-None value to a just-started generator")
    vm.gen_resume(st, g, v)
    return PUSHED


def gen_throw(vm, st, args, kw):
    g = args[0]
    e = args[1]
    if vm.is_class(st, e):
        v = args[2] if len(args) > 2 else None
        if v is not None and v.__class__ is Ref and vm.isinst(st, v, vm.types['BaseException']):
            e = v
        else:
            e = st.alloc(e, {'args': () if v is None else (v,)}, None)
    vm.gen_resume(st, g, None, e)
    return PUSHED


def gen_close(vm, st, args, kw):
    g = args[0]
    d = st.get(g).data
    state = yield Do(lambda: d.state)
    if state == 'done':
        return None
    if state == 'new':
        st.mut(g).data.state = 'done'
        return None
    e = yield Do(lambda: vm.exc(st, 'GeneratorExit'))
    try:
        yield Call(Native('throw', gen_throw), (g, e))
    except AbsRaise as x:
        c = st.get(x.value).cls
        if vm.subclass(st, c, vm.types['GeneratorExit']) or vm.subclass(st, c, vm.types['StopIteration']):
            return None
        raise
    vm.throw(st, 'RuntimeError', 'generator ignored GeneratorExit')
