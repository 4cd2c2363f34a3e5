"""Transfer functions of the bytecode instructions."""
import dis
from .values import *
from . import facts as F
from . import strings as S

OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


def _v():
    from . import vm
    return vm


def _n():
    from . import natives
    return natives


@op('NOP', 'RESUME', 'CACHE', 'PRECALL', 'EXTENDED_ARG')
def _(vm, st, fr, i):
    pass


@op('SETUP_ANNOTATIONS')
def _(vm, st, fr, i):
    if vm.ns_get(st, fr.ns, '__annotations__') is NULL:
        vm.ns_set(st, fr.ns, '__annotations__', _n().new_dict(vm, st, []))


@op('PUSH_NULL')
def _(vm, st, fr, i):
    fr.stack.append(NULL)


@op('POP_TOP')
def _(vm, st, fr, i):
    fr.stack.pop()


@op('COPY')
def _(vm, st, fr, i):
    fr.stack.append(fr.stack[-i[1]])


@op('SWAP')
def _(vm, st, fr, i):
    s = fr.stack
    s[-1], s[-i[1]] = s[-i[1]], s[-1]


@op('LOAD_CONST')
def _(vm, st, fr, i):
    v = i[2]
    if v.__class__ is frozenset:
        v = _n().const_frozenset(vm, st, v)
    fr.stack.append(v)


@op('RETURN_CONST')
def _(vm, st, fr, i):
    do_return(vm, st, fr, i[2])


@op('RETURN_VALUE')
def _(vm, st, fr, i):
    do_return(vm, st, fr, fr.stack[-1])


def do_return(vm, st, fr, v):
    st.frames.pop()
    if fr.gen is not None:
        g = st.mut(fr.gen)
        g.data.state = 'done'
        g.data.frame = None
        e = vm.exc(st, 'StopIteration', *(() if v is None else (v,)))
        vm.unwind(st, e)
        return
    vm.deliver(st, v)


# ---------------------------------------------------------------- names
@op('LOAD_FAST', 'LOAD_FAST_CHECK')
def _(vm, st, fr, i):
    v = fr.slots.get(i[2], NULL)
    if v is NULL:
        vm.throw(st, 'UnboundLocalError', "cannot access local variable '%s'" % i[2])
    fr.stack.append(v)


@op('LOAD_FAST_AND_CLEAR')
def _(vm, st, fr, i):
    fr.stack.append(fr.slots.get(i[2], NULL))
    fr.slots.pop(i[2], None)


@op('STORE_FAST', 'STORE_FAST_MAYBE_NULL')
def _(vm, st, fr, i):
    v = fr.stack.pop()
    if v is NULL:
        fr.slots.pop(i[2], None)
    else:
        fr.slots[i[2]] = v


@op('DELETE_FAST')
def _(vm, st, fr, i):
    if i[2] not in fr.slots:
        vm.throw(st, 'UnboundLocalError', i[2])
    del fr.slots[i[2]]


@op('MAKE_CELL')
def _(vm, st, fr, i):
    v = fr.slots.get(i[2], NULL)
    fr.slots[i[2]] = _v().CellV(st.alloc(vm.types['cell'], None, [v]))


@op('COPY_FREE_VARS')
def _(vm, st, fr, i):
    d = st.get(fr.func).data
    for n, c in zip(d.code.co_freevars, d.closure):
        fr.slots[n] = c


@op('LOAD_CLOSURE')
def _(vm, st, fr, i):
    fr.stack.append(fr.slots[i[2]])


@op('LOAD_DEREF')
def _(vm, st, fr, i):
    v = st.get(fr.slots[i[2]].ref).data[0]
    if v is NULL:
        vm.throw(st, 'NameError', "cannot access free variable '%s'" % i[2])
    fr.stack.append(v)


@op('STORE_DEREF')
def _(vm, st, fr, i):
    st.mut(fr.slots[i[2]].ref).data[0] = fr.stack.pop()


@op('DELETE_DEREF')
def _(vm, st, fr, i):
    st.mut(fr.slots[i[2]].ref).data[0] = NULL


@op('LOAD_LOCALS')
def _(vm, st, fr, i):
    fr.stack.append(fr.ns)


@op('LOAD_FROM_DICT_OR_DEREF')
def _(vm, st, fr, i):
    ns = fr.stack[-1]
    v = vm.ns_get(st, ns, i[2])
    if v is NULL:
        v = st.get(fr.slots[i[2]].ref).data[0]
        if v is NULL:
            vm.throw(st, 'NameError', i[2])
    fr.stack[-1] = v


def load_global(vm, st, fr, name):
    v = st.get(fr.glob).attrs.get(name, NULL)
    if v is NULL:
        v = vm.builtins.get(name, NULL)
        if v is NULL:
            if hasattr(_v().host_builtins, name):
                raise Unsupported('builtin %s is not modelled' % name)
            vm.throw(st, 'NameError', "name '%s' is not defined" % name)
    return v


@op('LOAD_FROM_DICT_OR_GLOBALS')
def _(vm, st, fr, i):
    v = vm.ns_get(st, fr.stack[-1], i[2])
    if v is NULL:
        v = load_global(vm, st, fr, i[2])
    fr.stack[-1] = v


@op('LOAD_GLOBAL')
def _(vm, st, fr, i):
    v = load_global(vm, st, fr, i[2])
    if i[1] & 1:
        fr.stack.append(NULL)
    fr.stack.append(v)


@op('LOAD_NAME')
def _(vm, st, fr, i):
    v = vm.ns_get(st, fr.ns, i[2])
    if v is NULL:
        v = load_global(vm, st, fr, i[2])
    fr.stack.append(v)


@op('STORE_NAME')
def _(vm, st, fr, i):
    vm.ns_set(st, fr.ns, i[2], fr.stack.pop())


@op('DELETE_NAME')
def _(vm, st, fr, i):
    if not vm.ns_del(st, fr.ns, i[2]):
        vm.throw(st, 'NameError', i[2])


@op('STORE_GLOBAL')
def _(vm, st, fr, i):
    st.mut(fr.glob).attrs[i[2]] = fr.stack.pop()


@op('DELETE_GLOBAL')
def _(vm, st, fr, i):
    del st.mut(fr.glob).attrs[i[2]]


# ---------------------------------------------------------------- attributes
@op('LOAD_ATTR')
def _(vm, st, fr, i):
    v = fr.stack[-1]
    r = vm.getattr_(st, v, i[2])
    fr.stack.pop()
    if i[1] & 1:
        fr.stack.append(NULL)
    push_result(vm, st, fr, r)


def push_result(vm, st, fr, r):
    """push value, or start the Call which will deliver it"""
    if r.__class__ is _v().Call:
        x = vm.call(st, r.f, r.args, r.kw)
        if x is not _v().PUSHED:
            fr.stack.append(x)
    else:
        fr.stack.append(r)


@op('STORE_ATTR')
def _(vm, st, fr, i):
    r = vm.setattr_(st, fr.stack[-1], i[2], fr.stack[-2])
    fr.stack.pop()
    fr.stack.pop()
    _drop_call(vm, st, fr, r)


def _drop_call(vm, st, fr, r):
    if r is not None:
        x = vm.call(st, r.f, r.args, r.kw)
        if x is _v().PUSHED:
            fr.wait = ('drop',)


@op('DELETE_ATTR')
def _(vm, st, fr, i):
    r = vm.delattr_(st, fr.stack[-1], i[2])
    fr.stack.pop()
    _drop_call(vm, st, fr, r)


@op('LOAD_SUPER_ATTR')
def _(vm, st, fr, i):
    sup, cls, self_ = fr.stack[-3:]
    r = _n().super_getattr(vm, st, cls, self_, i[2])
    del fr.stack[-3:]
    if i[1] & 1:
        fr.stack.append(NULL)
    push_result(vm, st, fr, r)


# ---------------------------------------------------------------- calls
@op('KW_NAMES')
def _(vm, st, fr, i):
    fr.kwnames = i[2]


@op('CALL')
def _(vm, st, fr, i):
    n = i[1]
    s = fr.stack
    base = len(s) - n - 2
    args = tuple(s[base + 2:])
    if s[base] is NULL:
        f = s[base + 1]
    else:
        f = s[base]
        args = (s[base + 1],) + args
    kn = fr.kwnames
    kw = {}
    if kn:
        kw = dict(zip(kn, args[-len(kn):]))
        args = args[:-len(kn)]
    try:
        r = vm.call(st, f, args, kw)
    except _v().AbsRaise:
        fr.kwnames = ()
        raise
    fr.kwnames = ()
    del s[base:]
    if r is not _v().PUSHED:
        s.append(r)


@op('CALL_FUNCTION_EX')
def _(vm, st, fr, i):
    s = fr.stack
    has = i[1] & 1
    kwd = s[-1] if has else None
    args = s[-2] if has else s[-1]
    pos = -2 if has else -1
    if args.__class__ is not tuple:
        if args.__class__ is Ref and st.get(args).data.__class__ is list and st.get(st.get(args).cls).data.layout == 'list':
            args = tuple(st.get(args).data)
        else:
            coerce(vm, st, fr, i, pos, _n().to_tuple)
            return
    kw = {}
    if has:
        h = _n().handle(vm, st, kwd)
        for k, v in h.items():
            if k.__class__ is not str:
                vm.throw(st, 'TypeError', 'keywords must be strings')
            kw[k] = v
    base = len(s) - (4 if has else 3)
    f = s[base + 1]
    if s[base] is not NULL:
        raise Unsupported('CALL_FUNCTION_EX layout')
    r = vm.call(st, f, args, kw)
    del s[base:]
    if r is not _v().PUSHED:
        s.append(r)


def coerce(vm, st, fr, i, pos, native):
    """Replace operand stack[pos] by native(operand), then re-execute the instruction."""
    v = fr.stack[pos]
    fr.pc -= 1
    fr.wait = ('coerce', pos)
    _start(vm, st, fr, native, (v,))


def _start(vm, st, fr, native, args):
    try:
        r = vm.call(st, native, args, {})
    except BaseException:
        raise
    if r is not _v().PUSHED:
        vm.deliver(st, r)


@op('MAKE_FUNCTION')
def _(vm, st, fr, i):
    s = fr.stack
    code = s.pop()
    d = _v().FuncData()
    d.code = code
    d.globals = fr.glob
    d.name = code.co_name
    d.qualname = code.co_qualname
    d.closure = s.pop() if i[1] & 8 else ()
    ann = s.pop() if i[1] & 4 else None
    d.kwdefaults = s.pop() if i[1] & 2 else None
    d.defaults = s.pop() if i[1] & 1 else None
    s.append(st.alloc(vm.types['function'], {}, d))


@op('LOAD_BUILD_CLASS')
def _(vm, st, fr, i):
    fr.stack.append(vm.builtins['__build_class__'])


@op('CALL_INTRINSIC_1')
def _(vm, st, fr, i):
    a = i[1]
    if a == 1:
        raise Unsupported('print expr')
    if a == 2:      # import *
        m = fr.stack[-1]
        o = st.get(m)
        allv = o.attrs.get('__all__', NULL)
        names = None
        if allv is not NULL:
            names = list(st.get(allv).data) if allv.__class__ is Ref else list(allv)
        else:
            names = [k for k in o.attrs if not k.startswith('_')]
        for k in names:
            vm.ns_set(st, fr.ns, k, o.attrs[k])
        fr.stack[-1] = None
        return
    if a == 3:      # stopiteration error
        return
    if a == 5:      # unary positive
        return
    if a == 6:      # list to tuple
        fr.stack[-1] = tuple(st.get(fr.stack[-1]).data)
        return
    raise Unsupported('CALL_INTRINSIC_1 %d' % a)


# ---------------------------------------------------------------- building
@op('BUILD_TUPLE')
def _(vm, st, fr, i):
    n = i[1]
    v = tuple(fr.stack[len(fr.stack) - n:])
    del fr.stack[len(fr.stack) - n:]
    fr.stack.append(v)


@op('BUILD_LIST')
def _(vm, st, fr, i):
    n = i[1]
    v = list(fr.stack[len(fr.stack) - n:])
    del fr.stack[len(fr.stack) - n:]
    fr.stack.append(st.alloc(vm.types['list'], None, v))


@op('BUILD_SET')
def _(vm, st, fr, i):
    n = i[1]
    vals = fr.stack[len(fr.stack) - n:]
    if any(_n().custom(vm, st, x) for x in vals):
        del fr.stack[len(fr.stack) - n:]
        st.frames.append(_v().NFrame(_n().build_set_gen, tuple(vals), {}, 'set'))
        return
    r = _n().new_set(vm, st, vals)
    del fr.stack[len(fr.stack) - n:]
    fr.stack.append(r)


@op('BUILD_MAP')
def _(vm, st, fr, i):
    n = i[1]
    vals = fr.stack[len(fr.stack) - 2 * n:]
    if any(_n().custom(vm, st, x) for x in vals[::2]):
        del fr.stack[len(fr.stack) - 2 * n:]
        st.frames.append(_v().NFrame(_n().build_dict_gen, tuple(zip(vals[::2], vals[1::2])), {}, 'dict'))
        return
    r = _n().new_dict(vm, st, list(zip(vals[::2], vals[1::2])))
    del fr.stack[len(fr.stack) - 2 * n:]
    fr.stack.append(r)


@op('BUILD_CONST_KEY_MAP')
def _(vm, st, fr, i):
    n = i[1]
    keys = fr.stack[-1]
    vals = fr.stack[-1 - n:-1]
    r = _n().new_dict(vm, st, list(zip(keys, vals)))
    del fr.stack[len(fr.stack) - n - 1:]
    fr.stack.append(r)


@op('BUILD_STRING')
def _(vm, st, fr, i):
    n = i[1]
    v = S.mk('str', fr.stack[len(fr.stack) - n:])
    del fr.stack[len(fr.stack) - n:]
    fr.stack.append(v)


@op('BUILD_SLICE')
def _(vm, st, fr, i):
    n = i[1]
    c = fr.stack.pop() if n == 3 else None
    b = fr.stack.pop()
    a = fr.stack.pop()
    fr.stack.append(VSlice(a, b, c))


@op('FORMAT_VALUE')
def _(vm, st, fr, i):
    fl = i[1]
    spec = None
    if fl & 4:
        spec = fr.stack[-1]
        v = fr.stack[-2]
    else:
        v = fr.stack[-1]
    conv = fl & 3
    args = (v, {0: None, 1: 's', 2: 'r', 3: 'a'}[conv], spec if spec is not None else '')
    vmm = _v()
    if fl & 4:
        fr.stack.pop()
    fr.stack.pop()
    st.frames.append(vmm.NFrame(_n().format_value, args, {}, 'format'))


@op('LIST_APPEND')
def _(vm, st, fr, i):
    v = fr.stack.pop()
    st.mut(fr.stack[-i[1]]).data.append(v)


@op('SET_ADD')
def _(vm, st, fr, i):
    h = _n().handle(vm, st, fr.stack[-i[1] - 1])
    k = fr.stack[-1]
    if _n().needs_gen(vm, st, h, k):
        fr.stack.pop()
        fr.wait = ('drop',)
        st.frames.append(_v().NFrame(_n().setitem_gen, (h.v, k, None), {}, 'setitem'))
        return
    h.set(k, None)
    fr.stack.pop()


@op('MAP_ADD')
def _(vm, st, fr, i):
    k, v = fr.stack[-2:]
    h = _n().handle(vm, st, fr.stack[-i[1] - 2])
    if _n().needs_gen(vm, st, h, k):
        del fr.stack[-2:]
        fr.wait = ('drop',)
        st.frames.append(_v().NFrame(_n().setitem_gen, (h.v, k, v), {}, 'setitem'))
        return
    h.set(k, v)
    del fr.stack[-2:]


@op('LIST_EXTEND')
def _(vm, st, fr, i):
    v = fr.stack[-1]
    if v.__class__ is not tuple:
        coerce(vm, st, fr, i, -1, _n().to_tuple)
        return
    fr.stack.pop()
    st.mut(fr.stack[-i[1]]).data.extend(v)


@op('SET_UPDATE')
def _(vm, st, fr, i):
    v = fr.stack[-1]
    if v.__class__ is not tuple:
        coerce(vm, st, fr, i, -1, _n().to_tuple)
        return
    h = _n().handle(vm, st, fr.stack[-i[1] - 1])
    for x in v:
        h.set(x, None)
    fr.stack.pop()


@op('DICT_UPDATE', 'DICT_MERGE')
def _(vm, st, fr, i):
    src = _n().handle(vm, st, fr.stack[-1])
    dst = _n().handle(vm, st, fr.stack[-i[1] - 1])
    if src is None:
        raise Unsupported('dict update from object')
    for k, v in list(src.items()):
        if i[0] == 'DICT_MERGE' and dst.find(k) is not None:
            vm.throw(st, 'TypeError', 'got multiple values for keyword argument %r' % (k,))
        dst.set(k, v)
    fr.stack.pop()


@op('UNPACK_SEQUENCE')
def _(vm, st, fr, i):
    v = fr.stack[-1]
    if v.__class__ is not tuple:
        if v.__class__ is Ref and st.get(v).data.__class__ is list and st.get(st.get(v).cls).data.layout == 'list':
            v = tuple(st.get(v).data)
        else:
            coerce(vm, st, fr, i, -1, _n().to_tuple)
            return
    if len(v) != i[1]:
        vm.throw(st, 'ValueError', 'unpack: expected %d values, got %d' % (i[1], len(v)))
    fr.stack.pop()
    fr.stack.extend(reversed(v))


@op('UNPACK_EX')
def _(vm, st, fr, i):
    v = fr.stack[-1]
    if v.__class__ is not tuple:
        coerce(vm, st, fr, i, -1, _n().to_tuple)
        return
    before, after = i[1] & 0xff, i[1] >> 8
    if len(v) < before + after:
        vm.throw(st, 'ValueError', 'not enough values to unpack')
    fr.stack.pop()
    mid = list(v[before:len(v) - after])
    tail = v[len(v) - after:]
    fr.stack.extend(reversed(tail))
    fr.stack.append(st.alloc(vm.types['list'], None, mid))
    fr.stack.extend(reversed(v[:before]))


# ---------------------------------------------------------------- control
@op('JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT', 'JUMP')
def _(vm, st, fr, i):
    fr.pc = i[2]


def truth_jump(vm, st, fr, i, want):
    v = fr.stack[-1]
    t = _n().truth(vm, st, v)
    if t is None:
        coerce(vm, st, fr, i, -1, _n().N_BOOL)
        return
    fr.stack.pop()
    if t == want:
        fr.pc = i[2]


@op('POP_JUMP_IF_FALSE')
def _(vm, st, fr, i):
    truth_jump(vm, st, fr, i, False)


@op('POP_JUMP_IF_TRUE')
def _(vm, st, fr, i):
    truth_jump(vm, st, fr, i, True)


@op('POP_JUMP_IF_NONE')
def _(vm, st, fr, i):
    if fr.stack.pop() is None:
        fr.pc = i[2]


@op('POP_JUMP_IF_NOT_NONE')
def _(vm, st, fr, i):
    if fr.stack.pop() is not None:
        fr.pc = i[2]


@op('GET_ITER')
def _(vm, st, fr, i):
    r = _n().get_iter(vm, st, fr.stack[-1])
    fr.stack.pop()
    push_result(vm, st, fr, r)


@op('FOR_ITER')
def _(vm, st, fr, i):
    it = fr.stack[-1]
    fr.wait = ('foriter', i[2])
    try:
        r = _n().iter_next(vm, st, it)
    except _v().NeedFork:
        fr.wait = None
        raise
    except Unsupported:
        fr.wait = None
        raise
    if r is _v().PUSHED:
        return
    fr.wait = None
    if r is _n().STOP:
        fr.stack.pop()
        fr.pc = i[2] + 1
        return
    fr.stack.append(r)


@op('END_FOR')
def _(vm, st, fr, i):
    fr.stack.pop()
    fr.stack.pop()


# ---------------------------------------------------------------- generators
@op('RETURN_GENERATOR')
def _(vm, st, fr, i):
    st.frames.pop()
    fl = fr.ci.co.co_flags
    if fl & 0x280:
        raise Unsupported('async')
    g = st.alloc(vm.types['generator'], None, _v().GenData(fr, 'new', fr.ci.co.co_name))
    vm.deliver(st, g)


@op('YIELD_VALUE')
def _(vm, st, fr, i):
    v = fr.stack.pop()
    st.frames.pop()
    g = fr.gen
    fr.gen = None
    d = st.mut(g).data
    d.frame = fr
    d.state = 'susp'
    vm.deliver(st, v)


@op('GET_YIELD_FROM_ITER')
def _(vm, st, fr, i):
    OPS['GET_ITER'](vm, st, fr, i)


@op('SEND')
def _(vm, st, fr, i):
    it, v = fr.stack[-2:]
    fr.wait = ('send', i[2])
    try:
        r = _n().iter_send(vm, st, it, v)
    except _v().NeedFork:
        fr.wait = None
        raise
    if r is _v().PUSHED:
        return
    fr.wait = None
    if r is _n().STOP:
        fr.stack[-1] = None
        fr.pc = i[2]
        return
    fr.stack[-1] = r


@op('END_SEND')
def _(vm, st, fr, i):
    v = fr.stack.pop()
    fr.stack[-1] = v


@op('CLEANUP_THROW')
def _(vm, st, fr, i):
    e = fr.stack[-1]
    if vm.stop_iteration(st, e):
        a = st.get(e).attrs.get('args', ())
        v = a[0] if a else None
        del fr.stack[-3:]
        fr.stack.append(None)
        fr.stack.append(v)
        return
    raise _v().AbsRaise(e)


# ---------------------------------------------------------------- exceptions
@op('RAISE_VARARGS')
def _(vm, st, fr, i):
    n = i[1]
    if n == 0:
        if st.exc is None:
            vm.throw(st, 'RuntimeError', 'No active exception to reraise')
        raise _v().AbsRaise(st.exc)
    cause = fr.stack[-1] if n == 2 else NULL
    e = fr.stack[-2] if n == 2 else fr.stack[-1]
    if vm.is_class(st, e):
        if not vm.subclass(st, e, vm.types['BaseException']):
            vm.throw(st, 'TypeError', 'exceptions must derive from BaseException')
        st.frames.append(_v().NFrame(_n().raise_class, (e, cause), {}, 'raise'))
        return
    if e.__class__ is not Ref or not vm.isinst(st, e, vm.types['BaseException']):
        vm.throw(st, 'TypeError', 'exceptions must derive from BaseException')
    if cause is not NULL:
        st.mut(e).attrs['__cause__'] = cause
    if st.exc is not None and st.exc != e:
        st.mut(e).attrs['__context__'] = st.exc
    raise _v().AbsRaise(e)


@op('RERAISE')
def _(vm, st, fr, i):
    e = fr.stack.pop()
    if i[1]:
        # lasti: for exception table lookups the current pc is used; keep it
        pass
    raise _v().AbsRaise(e)


@op('PUSH_EXC_INFO')
def _(vm, st, fr, i):
    e = fr.stack.pop()
    fr.stack.append(st.exc)
    fr.stack.append(e)
    st.exc = e


@op('POP_EXCEPT')
def _(vm, st, fr, i):
    st.exc = fr.stack.pop()


@op('CHECK_EXC_MATCH')
def _(vm, st, fr, i):
    cls = fr.stack.pop()
    e = fr.stack[-1]
    fr.stack.append(_n().exc_match(vm, st, e, cls))


@op('LOAD_ASSERTION_ERROR')
def _(vm, st, fr, i):
    fr.stack.append(vm.types['AssertionError'])


@op('BEFORE_WITH')
def _(vm, st, fr, i):
    v = fr.stack.pop()
    st.frames.append(_v().NFrame(_n().before_with, (v,), {}, 'with'))
    fr.wait = ('with',)


@op('WITH_EXCEPT_START')
def _(vm, st, fr, i):
    e = fr.stack[-1]
    ex = fr.stack[-4]
    r = vm.call(st, ex, (st.get(e).cls, e, None), {})
    if r is not _v().PUSHED:
        fr.stack.append(r)


# ---------------------------------------------------------------- operators
@op('BINARY_OP')
def _(vm, st, fr, i):
    a, b = fr.stack[-2:]
    sym = dis._nb_ops[i[1]][1]
    inplace = sym.endswith('=')
    o = sym[:-1] if inplace else sym
    r = _n().binop(vm, st, o, a, b, inplace)
    if r is _n().DEFER:
        del fr.stack[-2:]
        st.frames.append(_v().NFrame(_n().binop_gen, (o, a, b, inplace), {}, 'binop' + o))
        return
    del fr.stack[-2:]
    fr.stack.append(r)


@op('COMPARE_OP')
def _(vm, st, fr, i):
    a, b = fr.stack[-2:]
    r = _n().compare(vm, st, i[2], a, b)
    del fr.stack[-2:]
    if r is _n().DEFER:
        st.frames.append(_v().NFrame(_n().compare_gen, (i[2], a, b), {}, 'compare'))
        return
    fr.stack.append(r)


@op('IS_OP')
def _(vm, st, fr, i):
    a, b = fr.stack[-2:]
    r = _n().is_(vm, st, a, b)
    del fr.stack[-2:]
    fr.stack.append(r != bool(i[1]))


@op('CONTAINS_OP')
def _(vm, st, fr, i):
    a, b = fr.stack[-2:]
    r = _n().contains(vm, st, b, a)
    if r.__class__ is Term:
        r = vm.decide(st, r)
    del fr.stack[-2:]
    if r is _n().DEFER:
        st.frames.append(_v().NFrame(_n().contains_gen, (b, a, bool(i[1])), {}, 'contains'))
        return
    fr.stack.append(r != bool(i[1]))


@op('UNARY_NOT')
def _(vm, st, fr, i):
    t = _n().truth(vm, st, fr.stack[-1])
    if t is None:
        coerce(vm, st, fr, i, -1, _n().N_BOOL)
        return
    fr.stack[-1] = not t


@op('UNARY_NEGATIVE')
def _(vm, st, fr, i):
    v = fr.stack[-1]
    if v.__class__ in (int, float, bool):
        fr.stack[-1] = -v
    elif v.__class__ is Lin:
        fr.stack[-1] = lmul(v, -1)
    elif v.__class__ is Ref:
        m = vm.special(st, v, '__neg__')
        if m is None:
            vm.throw(st, 'TypeError', 'bad operand type for unary -')
        r = vm.call(st, m, (v,), {})
        fr.stack.pop()
        if r is not _v().PUSHED:
            fr.stack.append(r)
    elif v.__class__ is Term and v.ty == 'float':
        fr.stack[-1] = T('fneg', (v,), 'float')
    else:
        vm.throw(st, 'TypeError', 'bad operand type for unary -')


@op('UNARY_INVERT')
def _(vm, st, fr, i):
    v = fr.stack[-1]
    if v.__class__ in (int, bool):
        fr.stack[-1] = ~v
    else:
        raise Unsupported('~')


@op('BINARY_SUBSCR')
def _(vm, st, fr, i):
    a, k = fr.stack[-2:]
    r = _n().getitem(vm, st, a, k)
    del fr.stack[-2:]
    if r is _n().DEFER:
        st.frames.append(_v().NFrame(_n().getitem_gen, (a, k), {}, 'getitem'))
        return
    push_result(vm, st, fr, r)


@op('BINARY_SLICE')
def _(vm, st, fr, i):
    a, x, y = fr.stack[-3:]
    r = _n().getitem(vm, st, a, VSlice(x, y, None))
    del fr.stack[-3:]
    if r is _n().DEFER:
        st.frames.append(_v().NFrame(_n().getitem_gen, (a, VSlice(x, y, None)), {}, 'getitem'))
        return
    push_result(vm, st, fr, r)


@op('STORE_SUBSCR')
def _(vm, st, fr, i):
    v, a, k = fr.stack[-3:]
    r = _n().setitem(vm, st, a, k, v)
    del fr.stack[-3:]
    if r is not None:
        if r is _n().DEFER:
            st.frames.append(_v().NFrame(_n().setitem_gen, (a, k, v), {}, 'setitem'))
            fr.wait = ('drop',)
        else:
            _drop_call(vm, st, fr, r)


@op('STORE_SLICE')
def _(vm, st, fr, i):
    v, a, x, y = fr.stack[-4:]
    if not (v.__class__ is tuple or v.__class__ is Ref and st.get(v).data.__class__ is list) \
            and _n().layout(vm, st, a) == 'list':
        raise Unsupported('slice store')
    r = _n().setitem(vm, st, a, VSlice(x, y, None), v)
    del fr.stack[-4:]
    if r is not None:
        _drop_call(vm, st, fr, r)


@op('DELETE_SUBSCR')
def _(vm, st, fr, i):
    a, k = fr.stack[-2:]
    r = _n().delitem(vm, st, a, k)
    del fr.stack[-2:]
    if r is not None:
        if r is _n().DEFER:
            st.frames.append(_v().NFrame(_n().delitem_gen, (a, k), {}, 'delitem'))
            fr.wait = ('drop',)
        else:
            _drop_call(vm, st, fr, r)


@op('GET_LEN')
def _(vm, st, fr, i):
    r = _n().length(vm, st, fr.stack[-1])
    if r is None:
        raise Unsupported('len')
    fr.stack.append(r)


@op('MATCH_SEQUENCE')
def _(vm, st, fr, i):
    v = fr.stack[-1]
    fr.stack.append(v.__class__ is tuple or _n().layout(vm, st, v) in ('list', 'tuple', 'range'))


@op('MATCH_MAPPING')
def _(vm, st, fr, i):
    fr.stack.append(_n().layout(vm, st, fr.stack[-1]) == 'dict')


def _helper_gen(vm, st, args, kw):
    r = yield _v().Call(vm.helpers[args[0]], args[1:])
    return r


@op('MATCH_KEYS')
def _(vm, st, fr, i):
    st.frames.append(_v().NFrame(_helper_gen, ('_match_keys', fr.stack[-2], fr.stack[-1]), {}, 'match keys'))


@op('MATCH_CLASS')
def _(vm, st, fr, i):
    subject, cls, names = fr.stack[-3:]
    del fr.stack[-3:]
    st.frames.append(_v().NFrame(_helper_gen, ('_match_class', subject, cls, i[1], names), {}, 'match class'))


# ---------------------------------------------------------------- imports
@op('IMPORT_NAME')
def _(vm, st, fr, i):
    level, fromlist = fr.stack[-2:]
    pkg = st.get(fr.glob).attrs.get('__package__', '')
    del fr.stack[-2:]
    st.frames.append(_v().NFrame(_n().import_gen, (i[2], pkg, fromlist, level), {}, 'import'))


@op('IMPORT_FROM')
def _(vm, st, fr, i):
    m = fr.stack[-1]
    o = st.get(m)
    v = o.attrs.get(i[2], NULL)
    if v is NULL:
        full = '%s.%s' % (o.attrs['__name__'], i[2])
        mods = vm.mods(st)
        if full in mods:
            v = mods[full]
        elif o.attrs.get('__origin__') == 'unknown' or \
                o.attrs.get('__origin__') == 'model' and vm.real_mod_has(st, o.attrs['__name__'], i[2]):
            from .vm import _real_constant
            v = _real_constant(o.attrs['__name__'], i[2])
            if v is None:
                v = T('unknown', (full,), 'unknown')
        else:
            vm.throw(st, 'ImportError', "cannot import name '%s' from '%s'" % (i[2], o.attrs['__name__']))
    fr.stack.append(v)
