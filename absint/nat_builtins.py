"""Built-in functions and the intrinsics available to specification programs."""
import builtins as HB

from .values import *
from . import facts as F
from . import strings as S
from .vm import (AbsRaise, Call, Do, PUSHED, NeedFork, PathEnd, ClassData, FuncData, DData, Frame, NFrame, CellV,
                 Park, Violation, GenData)
from . import natives as N
from . import nat_str as NS
from . import nat_types as NT


def install(vm):
    st = vm.st0
    b = vm.builtins
    for n in ('object type int float complex str bytes tuple list dict set frozenset slice range property classmethod '
              'staticmethod super bool bytearray').split():
        b[n] = vm.types[n]
    for n, r in vm.types.items():
        h = getattr(HB, n, None)
        if isinstance(h, type) and issubclass(h, BaseException):
            b[n] = r
    b['EnvironmentError'] = b['IOError'] = vm.types['OSError']
    for n in ('list', 'dict', 'set'):
        st.get(vm.types[n]).attrs['__hash__'] = None
    b['NotImplemented'] = NotImplemented
    b['Ellipsis'] = Ellipsis
    b['__debug__'] = True
    b['__name__'] = 'builtins'

    def put(name, fn, gen=False):
        b[name] = Native(name, fn, gen, False)
    put('len', b_len, True)
    b['iter'] = N.N_ITER
    put('next', b_next, True)
    b['hash'] = N.N_HASH
    b['repr'] = NS.N_REPR
    b['ascii'] = NS.N_REPR
    b['format'] = NS.N_FORMAT
    put('getattr', NS.getattr_gen, True)
    put('setattr', b_setattr, True)
    put('delattr', b_delattr, True)
    put('hasattr', b_hasattr, True)
    put('isinstance', b_isinstance, True)
    put('issubclass', b_issubclass, True)
    put('callable', b_callable)
    put('id', b_id)
    put('ord', b_ord)
    put('chr', b_chr)
    put('hex', lambda vm, st, a, k: conc1(hex, a[0]))
    put('oct', lambda vm, st, a, k: conc1(oct, a[0]))
    put('bin', lambda vm, st, a, k: conc1(bin, a[0]))
    put('abs', b_abs, True)
    put('round', b_round)
    put('pow', lambda vm, st, a, k: N.binop(vm, st, '**', a[0], a[1]) if len(a) == 2 else pow(*a))
    put('vars', b_vars)
    put('globals', b_globals)
    put('locals', b_locals)
    put('dir', lambda vm, st, a, k: N.new_list(vm, st, NT.dir_names(vm, st, a[0])))
    put('__build_class__', N.build_class, True)
    put('__import__', N.import_builtin, True)
    for n in ('eval', 'exec', 'compile', 'input', 'open', 'memoryview', 'breakpoint'):
        put(n, NT.unsupported(n))
    install_intrinsics(vm)
    import os
    vm.py_ready = False


def conc1(f, v):
    if v.__class__ in (int, bool, str, float):
        return f(v)
    raise Unsupported('%s of unknown value' % f.__name__)


def b_len(vm, st, args, kw):
    v = args[0]
    n = N.length(vm, st, v)
    if n is None:
        n = yield Call(vm.user_special(st, v, '__len__'), (v,))
        if not N.is_int(n):
            vm.throw(st, 'TypeError', 'object cannot be interpreted as an integer')
        if N.compare(vm, st, '<', n, 0) is True:
            vm.throw(st, 'ValueError', '__len__() should return >= 0')
    if n.__class__ is Lin:
        n = st.facts.fold(n)
    return n


def b_next(vm, st, args, kw):
    try:
        v = yield Call(N.N_NEXT, args[:1])
        return v
    except AbsRaise as e:
        if len(args) > 1 and N.is_stop(vm, st, e):
            return args[1]
        raise


def b_setattr(vm, st, args, kw):
    r = vm.setattr_(st, args[0], NT.attr_name(vm, st, args[1]), args[2])
    if r is not None:
        yield r
    return None


def b_delattr(vm, st, args, kw):
    r = vm.delattr_(st, args[0], NT.attr_name(vm, st, args[1]))
    if r is not None:
        yield r
    return None


def b_hasattr(vm, st, args, kw):
    try:
        r = vm.getattr_(st, args[0], NT.attr_name(vm, st, args[1], args[0], True))
        if r.__class__ is Call:
            yield r
        return True
    except AbsRaise as e:
        if vm.subclass(st, st.get(e.value).cls, vm.types['AttributeError']):
            return False
        raise


def b_isinstance(vm, st, args, kw):
    v, c = args
    if c.__class__ is tuple:
        for x in c:
            r = yield Call(vm.builtins['isinstance'], (v, x))
            if r:
                return True
        return False
    if not vm.is_class(st, c):
        if c.__class__ is Term:
            raise Unsupported('isinstance(…, %r)' % (c,))
        vm.throw(st, 'TypeError', 'isinstance() arg 2 must be a type')
    m = vm.lookup_cls(st, st.get(c).cls, '__instancecheck__')
    if m is not None and m[0].__class__ is not Native:
        r = yield Call(m[0], (c, v))
        r = yield Call(N.N_BOOL, (r,))
        return r
    if v.__class__ is Ref:
        k = vm.lookup_cls(st, st.get(v).cls, '__class__')
        if k is not None and k[0].__class__ is not Native:
            kk = vm.getattr_(st, v, '__class__')
            if kk.__class__ is Call:
                kk = yield kk
            if vm.subclass(st, kk, c):
                return True
    return vm.isinst(st, v, c)


def b_issubclass(vm, st, args, kw):
    v, c = args
    if c.__class__ is tuple:
        for x in c:
            r = yield Call(vm.builtins['issubclass'], (v, x))
            if r:
                return True
        return False
    if not vm.is_class(st, v) or not vm.is_class(st, c):
        if c.__class__ is Term or v.__class__ is Term and v.ty not in vm.types:
            raise Unsupported('issubclass')
        vm.throw(st, 'TypeError', 'issubclass() arg 1 must be a class')
    m = vm.lookup_cls(st, st.get(c).cls, '__subclasscheck__')
    if m is not None and m[0].__class__ is not Native:
        r = yield Call(m[0], (c, v))
        r = yield Call(N.N_BOOL, (r,))
        return r
    return vm.subclass(st, v, c)


def b_callable(vm, st, args, kw):
    v = args[0]
    if v.__class__ in (BM, Native):
        return True
    if v.__class__ is Ref:
        o = st.get(v)
        if o.data.__class__ in (ClassData, FuncData):
            return True
        return vm.lookup_cls(st, o.cls, '__call__') is not None
    if v.__class__ is Term and v.ty not in vm.types:
        raise Unsupported('callable(%r)' % (v,))
    return False


def b_id(vm, st, args, kw):
    v = args[0]
    if v.__class__ is Ref:
        return NS.obj_id(v)
    if v.__class__ is BM and v.self.__class__ is Ref:
        return 50000000 + v.self.id * 16
    if v.__class__ in (Term, SStr, Lin):
        t = T('id', (v,), 'int')
        if t not in PROPS:
            PROPS[t] = {'lo': 1 << 48}      # (apart from the objects and constants with known numbers)
        return ivar(t)
    try:
        i = CONSTIDS.setdefault((v.__class__, v), len(CONSTIDS))
    except TypeError:
        return ivar(T('id', (v,), 'int'))
    return (1 << 40) + 16 * i


CONSTIDS = {}


def b_ord(vm, st, args, kw):
    v = N.unwrap(st, args[0])
    if v.__class__ in (str, bytes):
        try:
            return ord(v)
        except TypeError as e:
            vm.throw(st, 'TypeError', str(e))
    if v.__class__ is SStr:
        n = st.facts.fold(S.slen(v)) if S.slen(v).__class__ is Lin else S.slen(v)
        if n.__class__ is int and n == 1:
            t = T('ord', (v,), 'int')
            PROPS[t] = dict(lo=0, hi=0x10ffff)
            return ivar(t)
    if N.is_int(v) or v is None or v.__class__ is Ref:
        vm.throw(st, 'TypeError', 'ord() expected string of length 1')
    raise Unsupported('ord of unknown text')


def b_chr(vm, st, args, kw):
    v = N.as_int(args[0], vm, st)
    if v.__class__ is Lin:
        v = st.facts.fold(v)
    if v.__class__ is int:
        try:
            return chr(v)
        except (ValueError, OverflowError) as e:
            vm.throw(st, type(e).__name__, str(e))
    if v.__class__ is Lin and v.c == 0 and len(v.ts) == 1 and v.ts[0][1] == 1 and v.ts[0][0].op == 'ord':
        return v.ts[0][0].args[0]
    if v.__class__ is Lin:
        t = T('chr', (v,), 'str')
        PROPS[t] = dict(len=1)
        return S.atom(t)
    vm.throw(st, 'TypeError', 'an integer is required')


def b_abs(vm, st, args, kw):
    v = args[0]
    if v.__class__ in (int, float, bool):
        return abs(v)
    if v.__class__ is Lin:
        return lmul(v, -1) if vm.decide(st, F.c_lt(v, 0)) else v
    if v.__class__ is Term and v.ty == 'float':
        r = N.FL.less(st, v, 0.0)
        if r is not None:
            return T('fneg', (v,), 'float') if vm.decide(st, r) else v
        return T('fabs', (v,), 'float')
    if v.__class__ is Ref:
        m = vm.special(st, v, '__abs__')
        if m is not None:
            r = yield Call(m, (v,))
            return r
    vm.throw(st, 'TypeError', 'bad operand type for abs()')


def b_round(vm, st, args, kw):
    v = args[0]
    nd = args[1] if len(args) > 1 else kw.get('ndigits')
    if v.__class__ in (int, float, bool) and (nd is None or nd.__class__ is int):
        return round(v) if nd is None else round(v, nd)
    if v.__class__ is Lin and nd is None:
        return v
    if v.__class__ is Term and v.ty == 'float':
        if nd is None:
            if v.op == 'tofloat':
                return v.args[0]
            r = N.FL.to_round(st, v)
            return ivar(T('round', (v,), 'int')) if r is None else r
        return T('roundn', (v, nd), 'float')
    raise Unsupported('round')


def b_vars(vm, st, args, kw):
    if not args:
        return b_locals(vm, st, args, kw)
    r = vm.getattr_(st, args[0], '__dict__')
    if r.__class__ is Call:
        raise Unsupported('vars')
    return r


def top_frame(st):
    for f in reversed(st.frames):
        if f.__class__ is Frame:
            return f


def b_globals(vm, st, args, kw):
    return NSProxy(top_frame(st).glob)


def b_locals(vm, st, args, kw):
    f = top_frame(st)
    if f.ns is not None:
        if st.get(f.ns).data.__class__ is DData:
            return f.ns
        return NSProxy(f.ns)
    items = []
    for k, v in f.slots.items():
        if v.__class__ is CellV:
            v = st.get(v.ref).data[0]
            if v is NULL:
                continue
        items.append((k, v))
    return N.new_dict(vm, st, items)


# ================================================================ intrinsics
def cprops(vm, st, kw):
    out = {}
    for k, v in kw.items():
        if k in ('excl', 'nofirst', 'nopfx', 'ne', 'alts'):
            seq = N.listlike(st, v)
            if seq is None:
                seq = (v,) if v.__class__ in (str, bytes) and k in ('ne', 'nopfx') else list(v) if v.__class__ is str else \
                    [v[i:i + 1] for i in range(len(v))]
            v = frozenset(seq)
        out[k] = v
    return out


def i_sym_text(kind):
    def f(vm, st, args, kw):
        t = T('sym', (args[0],), kind)
        p = cprops(vm, st, kw)
        if p:
            PROPS[t] = p
        return S.atom(t)
    return f


def i_sym_int(vm, st, args, kw):
    t = T('sym', (args[0],), 'int')
    lo = args[1] if len(args) > 1 else kw.get('lo')
    hi = args[2] if len(args) > 2 else kw.get('hi')
    PROPS[t] = dict(lo=lo, hi=hi)
    return ivar(t)


def i_sym_bool(vm, st, args, kw):
    return T('sym', (args[0],), 'bool')


def i_sym_float(vm, st, args, kw):
    return T('sym', (args[0],), 'float')


def i_fresh(vm, st, args, kw):
    """fresh(name, type, **props): a new unknown, distinct on every call"""
    name, ty = args
    st.nsym += 1
    t = T('sym', ('%s~%d' % (name, st.nsym),), ty)
    p = cprops(vm, st, kw)
    if p:
        PROPS[t] = p
    if ty in ('str', 'bytes'):
        return S.atom(t)
    if ty == 'int':
        return ivar(t)
    return t


def i_term(vm, st, args, kw):
    """term(op, type, *args, **props): uninterpreted function application"""
    op, ty = args[:2]
    a = []
    for x in args[2:]:
        x = N.unwrap(st, x)
        if x.__class__ is SStr and len(x.segs) == 1:
            pass
        a.append(x)
    t = T(op, tuple(a), ty)
    p = cprops(vm, st, kw)
    if p and t not in PROPS:
        PROPS[t] = p
    if ty in ('str', 'bytes'):
        return S.atom(t)
    if ty == 'int':
        return ivar(t)
    return t


def i_match_term(vm, st, args, kw):
    """match_term(v, op) -> tuple of the arguments if v is op(...), else None"""
    v, op = args
    v = N.unwrap(st, v)
    if v.__class__ is SStr and len(v.segs) == 1:
        v = v.segs[0]
    if v.__class__ is Lin and v.c == 0 and len(v.ts) == 1 and v.ts[0][1] == 1:
        v = v.ts[0][0]
    if v.__class__ is Term and v.op == op:
        return tuple(S.atom(x) if x.__class__ is Term and x.ty in ('str', 'bytes') else x for x in v.args)
    return None


def i_offset_of(vm, st, args, kw):
    """offset_of(n): (the unknown part of n, its known addend)"""
    v = st.facts.fold(args[0])
    if v.__class__ is Lin:
        return (Lin(0, v.ts), v.c)
    return (0, v) if v.__class__ is int else (v, 0)


def i_find_atom(vm, st, args, kw):
    """find_atom(n, op): x if op(x) is the only summand of that kind in n, else None"""
    v, op = args
    if v.__class__ is Lin:
        hit = [t for t, k in v.ts if t.op == op and k == 1]
        if len(hit) == 1 and not any(t.op == op and k != 1 for t, k in v.ts):
            return hit[0].args[0]
        # m * ((x + c) // m) moves with x
        for t, k in v.ts:
            if t.op == 'floordiv' and t.args[1] == k:
                r = i_find_atom(vm, st, (t.args[0], op), kw)
                if r is not None:
                    return r
    return None


def i_fold(vm, st, args, kw):
    """fold(n): n, as a known number if the facts determine it"""
    return st.facts.fold(args[0]) if args[0].__class__ is Lin else args[0]


def i_bounds(vm, st, args, kw):
    """bounds(n): (smallest, largest) value n can have as far as known, None if unbounded"""
    return st.facts.bounds(args[0])


def i_choose(vm, st, args, kw):
    n = args[0]
    if n.__class__ is not int:
        n = N.listlike(st, n)
    seq = n if n.__class__ is not int else range(n)
    label = args[1] if len(args) > 1 else 'choice'
    if len(seq) == 1:
        return seq[0]
    t = T('sym', ('%s#%d' % (label, st.nchoice),), 'int')
    PROPS[t] = dict(lo=0, hi=len(seq) - 1)
    v = ivar(t)
    lo, hi = st.facts.bounds(v)
    if lo == hi:
        st.nchoice += 1
        return seq[lo]
    nf = NeedFork([(lambda s, i=i: s.facts.assume(F.c_eq_int(v, i), True)) for i in range(len(seq))], label)
    nf.descs = ['%s: %s' % (label, show(x)) for x in seq]
    raise nf


def fail(vm, st, msg, kind='expect'):
    if not st.facts.contradictory():
        vm.violations.append(Violation(msg, st, vm, kind))
    raise PathEnd('violation', msg)


def i_expect(vm, st, args, kw):
    c = args[0]
    msg = args[1] if len(args) > 1 else 'expectation'
    msg = msg if msg.__class__ is str else show(msg)
    t = yield Call(N.N_BOOL, (c,))
    if not t:
        fail(vm, st, msg)
    vm.obligations[msg] = vm.obligations.get(msg, 0) + 1
    return None


def i_expect_eq(vm, st, args, kw):
    a, b = args[:2]
    msg = args[2] if len(args) > 2 else 'values are equal'
    msg = msg if msg.__class__ is str else show(msg)
    ta, tb = N.unwrap(st, a), N.unwrap(st, b)
    ka, kb = S.kind_of(ta), S.kind_of(tb)
    r = yield Call(N.N_EQ, (a, b))
    t = yield Call(N.N_BOOL, (r,))
    if not t:
        ra = yield Call(NS.N_REPR, (a,))
        rb = yield Call(NS.N_REPR, (b,))
        vm.note(st, 'got %s, required %s' % (show(ra), show(rb)))
        fail(vm, st, '%s' % msg)
    vm.obligations[msg] = vm.obligations.get(msg, 0) + 1
    return None


def i_fail(vm, st, args, kw):
    fail(vm, st, args[0] if args[0].__class__ is str else show(args[0]))


def i_assume(vm, st, args, kw):
    t = yield Call(N.N_BOOL, (args[0],))
    if not t:
        raise PathEnd('assumed away')
    return None


def i_cover(vm, st, args, kw):
    vm.covered[args[0]] = vm.covered.get(args[0], 0) + 1
    return None


def i_note(vm, st, args, kw):
    vm.note(st, ' '.join(x if x.__class__ is str else show(x) for x in args))


def i_stop(vm, st, args, kw):
    raise PathEnd('stop')


def i_merge(vm, st, args, kw):
    """merge(label, order): join abstract states that reach this point"""
    key = (args[1] if len(args) > 1 else 0, args[0])
    if st.spec_pc == ('merged', key, id(top_frame(st)), st.nmerge):
        pass
    if getattr(st, 'just_merged', False):
        st.just_merged = False
        return None
    raise Park(key)


def walk(vm, st, v, acc, seen, barriers, refs):
    """terms occurring in v, through the heap, not below barrier operators"""
    stack = [v]
    while stack:
        x = stack.pop()
        c = x.__class__
        if c is Term:
            if x in acc:
                continue
            acc.add(x)
            if x.op in barriers:
                continue
            stack.extend(x.args)
        elif c is Lin:
            stack.extend(t for t, _ in x.ts)
        elif c is SStr:
            stack.extend(s for s in x.segs if s.__class__ is Term)
        elif c in (tuple, list):
            stack.extend(x)
        elif c is BM:
            stack.append(x.self)
        elif c is Ref:
            if x.id in seen:
                continue
            seen.add(x.id)
            refs.add(x.id)
            o = st.get(x)
            if o.data.__class__ is ClassData or o.data.__class__ is FuncData and False:
                continue
            if st.get(o.cls).data.layout == 'module':
                continue
            if o.attrs:
                stack.extend(o.attrs.values())
            d = o.data
            if d.__class__ is DData:
                for k, y in d.e.values():
                    stack.append(k)
                    stack.append(y)
            elif d.__class__ is FuncData:
                stack.extend(d.closure or ())
                stack.extend(d.defaults or ())
            elif d.__class__ is GenData:
                if d.frame is not None:
                    stack.extend(d.frame.slots.values())
                    stack.extend(d.frame.stack)
            elif d.__class__ in (list, tuple):
                stack.extend(d)
        elif c is CellV:
            stack.append(x.ref)
        elif c is NSProxy:
            stack.append(x.ref)
    return acc


def i_mentions(vm, st, args, kw):
    """mentions(value, unknown, *barrier_ops)"""
    target = args[1]
    if target.__class__ is SStr:
        target = target.segs[0]
    if target.__class__ is Lin:
        target = target.ts[0][0]
    acc = set()
    walk(vm, st, args[0], acc, set(), set(args[2:]), set())
    return target in acc


def i_reaches(vm, st, args, kw):
    """reaches(value, object): object is reachable through the heap"""
    refs = set()
    walk(vm, st, args[0], set(), set(), set(), refs)
    return args[1].__class__ is Ref and args[1].id in refs


def i_symbols(vm, st, args, kw):
    """symbols(value, prefix): names of the unknowns (fresh ones with that prefix) occurring in value"""
    acc = set()
    walk(vm, st, args[0], acc, set(), set(args[2:]), set())
    pre = args[1]
    names = sorted({t.args[0] for t in acc if t.op == 'sym' and t.args[0].startswith(pre)})
    return tuple(names)


def i_is_sym(vm, st, args, kw):
    v = args[0]
    return v.__class__ in (SStr, Lin, Term)


def i_show(vm, st, args, kw):
    return show(args[0])


def i_same(vm, st, args, kw):
    return same(args[0], args[1])


def i_known(vm, st, args, kw):
    """known(cond): True if provably true, False if provably false, None otherwise (no split)"""
    c = args[0]
    if c.__class__ is bool:
        return c
    if c.__class__ is Term and c.ty == 'bool':
        return st.facts.decide(c)
    return None


def i_type_name(vm, st, args, kw):
    return vm.cname(st, vm.type_of(st, args[0]))


def i_where(vm, st, args, kw):
    return st.get(args[0]).attrs.get('__where__', '')


def i_unsupported(vm, st, args, kw):
    raise Unsupported(show(args[0]))


def i_new_property_like(vm, st, args, kw):
    raise Unsupported('x')


def i_setprops(vm, st, args, kw):
    return None


def i_split_text(vm, st, args, kw):
    """cut(text, pos): (left, right) at an affine position"""
    return S.cut(vm, st, args[0], args[1])


def i_frame_globals(vm, st, args, kw):
    """caller_globals(n): globals of the n-th Python frame below the caller"""
    n = args[0]
    fs = [f for f in reversed(st.frames) if f.__class__ is Frame]
    if n >= len(fs):
        return None
    return NSProxy(fs[n].glob)


def i_caller(vm, st, args, kw):
    """caller(n): (module name, function name, locals dict) of the n-th frame"""
    n = args[0]
    fs = [f for f in reversed(st.frames) if f.__class__ is Frame]
    if n >= len(fs):
        return None
    f = fs[n]
    return (st.get(f.glob).attrs.get('__name__'), f.ci.co.co_name)


def i_raising(vm, st, args, kw):
    """current exception or None"""
    return st.exc


def i_func_info(vm, st, args, kw):
    """(argnames, defaults, varargs, varkw, argcount) of a function value"""
    f = args[0]
    while f.__class__ is BM:
        f = f.func
    if f.__class__ is not Ref or st.get(f).data.__class__ is not FuncData:
        return None
    d = st.get(f).data
    co = d.code
    n = co.co_argcount
    i = n + co.co_kwonlyargcount
    va = vk = None
    if co.co_flags & 4:
        va = co.co_varnames[i]
        i += 1
    if co.co_flags & 8:
        vk = co.co_varnames[i]
    return (co.co_varnames[:n], d.defaults, va, vk, bool(co.co_flags & 0x20))


def i_mods(vm, st, args, kw):
    return NSProxy(vm.mods_ref)


INTR = {}


def install_intrinsics(vm):
    from . import nat_re
    st = vm.st0
    fns = dict(sym_str=i_sym_text('str'), sym_bytes=i_sym_text('bytes'), sym_int=i_sym_int, sym_bool=i_sym_bool,
               sym_float=i_sym_float, fresh=i_fresh, term=i_term, match_term=i_match_term, choose=i_choose, fold=i_fold, bounds=i_bounds,
               fail=i_fail, cover=i_cover, note=i_note, stop=i_stop, merge=i_merge, mentions=i_mentions,
               reaches=i_reaches, symbols=i_symbols, is_sym=i_is_sym, show=i_show, same=i_same, known=i_known,
               type_name=i_type_name, unsupported=i_unsupported, cut=i_split_text, where=i_where,
               caller_globals=i_frame_globals, caller=i_caller, current_exception=i_raising, func_info=i_func_info,
               loaded_modules=i_mods, offset_of=i_offset_of, find_atom=i_find_atom, re_match=nat_re.n_re_match, re_info=nat_re.n_re_info)
    gens = dict(expect=i_expect, expect_eq=i_expect_eq, assume=i_assume)
    attrs = {'__name__': 'verif', '__origin__': 'spec'}
    for k, f in fns.items():
        attrs[k] = Native('verif.' + k, f, False, False)
    for k, f in gens.items():
        attrs[k] = Native('verif.' + k, f, True, False)
    for k in ('function', 'method', 'module', 'generator', 'code', 'builtin_function_or_method', 'cell', 'frame',
              'traceback', 'NoneType', 'mappingproxy', 'iterator'):
        attrs['type_' + k] = vm.types[k]
    m = st.alloc(vm.types['module'], attrs, None)
    st.mut(vm.mods_ref).attrs['verif'] = m
    bm = st.alloc(vm.types['module'], {'__name__': 'builtins', '__origin__': 'model'}, None)
    st.mut(vm.mods_ref).attrs['builtins'] = bm
    vm.builtins_mod = bm


def finish(vm):
    """called after the Python-level builtins module has been loaded"""
    st = vm.st0
    m = vm.mods(st)['_pybuiltins']
    vm.helpers = {k: v for k, v in st.get(m).attrs.items() if k.startswith('_m')}
    for k, v in st.get(m).attrs.items():
        if not k.startswith('_'):
            vm.builtins[k] = v
    a = st.mut(vm.builtins_mod).attrs
    for k, v in vm.builtins.items():
        a[k] = v
