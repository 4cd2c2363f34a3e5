"""Abstract interpreter over CPython 3.12 bytecode (the compiler's IR).

The code under analysis is compiled (never executed) and its bytecode is
interpreted over abstract values (values.py).  An abstract state is a stack of
frames, a heap of allocations and a fact store; a branch on an unknown
condition splits the state in two.  The set of abstract states is explored
exhaustively; equal states are merged at merge points.
"""
import dis
import os
import sys
import time
import types
import builtins as host_builtins

from .values import *
from . import facts as F
from . import strings as S


class NeedFork(Exception):
    def __init__(self, options, desc=''):
        self.options = options      # list of callables(state) -> bool feasible
        self.desc = desc


class AbsRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, value):
        self.value = value


class PathEnd(Exception):
    """Stop this abstract path."""

    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Call:
    __slots__ = ('f', 'args', 'kw', 'ns')

    def __init__(self, f, args=(), kw=None, ns=None):
        self.f = f
        self.args = tuple(args)
        self.kw = kw or {}
        self.ns = ns


class Do:
    __slots__ = ('thunk',)

    def __init__(self, thunk):
        self.thunk = thunk


class _Pushed:
    pass


PUSHED = _Pushed()


# ---------------------------------------------------------------- heap objects
class Obj:
    __slots__ = ('cls', 'attrs', 'data', 'owner')

    def __init__(self, cls, attrs=None, data=None):
        self.cls = cls
        self.attrs = attrs
        self.data = data
        self.owner = None

    def clone(self):
        o = Obj(self.cls, None if self.attrs is None else dict(self.attrs),
                self.data.copy() if hasattr(self.data, 'copy') else self.data)
        return o


class DData:
    """dict/set storage: canonical key -> (key, value)"""
    __slots__ = ('e', 'sym')

    def __init__(self):
        self.e = {}
        self.sym = 0        # number of symbolic/custom keys

    def copy(self):
        d = DData()
        d.e = dict(self.e)
        d.sym = self.sym
        return d

    def __len__(self):
        return len(self.e)


class ClassData:
    __slots__ = ('name', 'bases', 'mro', 'layout', 'origin', 'qualname')

    def __init__(self, name, bases, mro, layout, origin, qualname=None):
        self.name = name
        self.qualname = qualname or name
        self.bases = bases
        self.mro = mro
        self.layout = layout
        self.origin = origin       # 'builtin' | 'model' | 'repo' | 'spec' | 'stdlib'


class FuncData:
    __slots__ = ('code', 'globals', 'defaults', 'kwdefaults', 'closure', 'name', 'qualname')

    def copy(self):
        f = FuncData()
        for s in self.__slots__:
            setattr(f, s, getattr(self, s))
        return f


class GenData:
    __slots__ = ('frame', 'state', 'name')       # state: 'new','susp','run','done'

    def __init__(self, frame, state, name):
        self.frame = frame
        self.state = state
        self.name = name

    def copy(self):
        return GenData(self.frame.copy() if self.frame is not None else None, self.state, self.name)


class CellV:
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return o.__class__ is CellV and o.ref == self.ref

    def __hash__(self):
        return hash(self.ref)


# ---------------------------------------------------------------- code
class CodeInfo:
    cache = {}

    @classmethod
    def of(cls, co):
        ci = cls.cache.get(co)
        if ci is None:
            ci = cls.cache[co] = CodeInfo(co)
        return ci

    def __init__(self, co):
        self.co = co
        self.ins = []
        off = {}
        line = co.co_firstlineno
        for i in dis.get_instructions(co):
            if i.positions and i.positions.lineno:
                line = i.positions.lineno
            off[i.offset] = len(self.ins)
            self.ins.append([i.opname, i.arg, i.argval, line, i.offset])
        ends = sorted(off)

        def idx(o):
            while o not in off:
                o += 2
                if o > len(co.co_code) + 4:
                    return len(self.ins)
            return off[o]
        for x in self.ins:
            if dis.opmap.get(x[0]) in dis.hasjrel or dis.opmap.get(x[0]) in dis.hasjabs:
                x[2] = idx(x[2])
        self.exc = []
        for e in dis._parse_exception_table(co):
            self.exc.append((idx(e.start), idx(e.end), idx(e.target), e.depth, e.lasti))
        self.ins = [tuple(x) for x in self.ins]
        fn = co.co_filename
        self.origin = ('repo' if fn.startswith('repo:') else 'model' if fn.startswith('model:') else
                       'spec' if fn.startswith('spec:') else 'stdlib')
        self.file = fn.split(':', 1)[1] if ':' in fn else fn

    def handler(self, pc):
        for s, e, t, d, l in self.exc:
            if s <= pc < e:
                return t, d, l
        return None


class Frame:
    __slots__ = ('ci', 'pc', 'slots', 'stack', 'glob', 'ns', 'gen', 'func', 'kwnames', 'wait', 'classcell')

    def __init__(self, ci, glob):
        self.ci = ci
        self.pc = 0
        self.slots = {}
        self.stack = []
        self.glob = glob
        self.ns = None
        self.gen = None
        self.func = None
        self.kwnames = ()
        self.wait = None

    def copy(self):
        f = Frame(self.ci, self.glob)
        f.pc = self.pc
        f.slots = dict(self.slots)
        f.stack = list(self.stack)
        f.ns = self.ns
        f.gen = self.gen
        f.func = self.func
        f.kwnames = self.kwnames
        f.wait = self.wait
        return f

    @property
    def line(self):
        i = min(max(self.pc - 1, 0), len(self.ci.ins) - 1)
        return self.ci.ins[i][3]


class NFrame:
    __slots__ = ('fn', 'args', 'kw', 'results', 'name')

    def __init__(self, fn, args, kw, name):
        self.fn = fn
        self.args = args
        self.kw = kw
        self.results = []
        self.name = name

    def copy(self):
        f = NFrame(self.fn, self.args, self.kw, self.name)
        f.results = list(self.results)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.heap = {}
        self.base = {}
        self.facts = F.Facts()
        self.token = object()
        self.next_id = 1
        self.exc = None
        self.nsym = 0
        self.nchoice = 0
        self.path = None          # linked list of (location, description)
        self.calls = None         # linked list of entered repo functions
        self.notes = None
        self.merged = 0
        self.spec_pc = None
        self.steps = 0

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.base = self.base
        s.facts = self.facts.copy()
        self.token = object()
        s.token = object()
        s.next_id = self.next_id
        s.exc = self.exc
        s.nsym = self.nsym
        s.nchoice = self.nchoice
        s.path = self.path
        s.calls = self.calls
        s.notes = self.notes
        s.merged = self.merged
        s.spec_pc = self.spec_pc
        s.steps = self.steps
        return s

    def get(self, ref):
        o = self.heap.get(ref.id)
        if o is None:
            o = self.base[ref.id]
        return o

    def mut(self, ref):
        o = self.heap.get(ref.id)
        if o is None:
            o = self.base[ref.id].clone()
            o.owner = self.token
            self.heap[ref.id] = o
        elif o.owner is not self.token:
            o = o.clone()
            o.owner = self.token
            self.heap[ref.id] = o
        return o

    def alloc(self, cls, attrs=None, data=None):
        i = self.next_id
        self.next_id = i + 1
        o = Obj(cls, attrs, data)
        o.owner = self.token
        self.heap[i] = o
        return Ref(i)

    def freeze(self):
        """Make the current heap the shared base."""
        b = dict(self.base)
        b.update(self.heap)
        self.base = b
        self.heap = {}
        self.token = object()


class Violation:
    def __init__(self, msg, st, vm, kind='expect'):
        self.msg = msg
        self.kind = kind
        self.path = []
        p = st.path
        while p is not None:
            self.path.append(p[1])
            p = p[0]
        self.path.reverse()
        self.calls = []
        p = st.calls
        while p is not None:
            self.calls.append(p[1])
            p = p[0]
        self.calls.reverse()
        self.notes = []
        p = st.notes
        while p is not None:
            self.notes.append(p[1])
            p = p[0]
        self.notes.reverse()
        self.facts = st.facts.describe()
        self.where = vm.where(st)


class VM:
    MAX_PATH_STEPS = 600000
    deadline = float('inf')
    MAX_STATES = 60000
    MAX_DEPTH = 220

    def __init__(self, roots, repo_pkg='epsilon'):
        """roots: list of (origin, directory)"""
        self.roots = roots
        self.types = {}
        self.builtins = {}
        self.violations = []
        self.undecided = []
        self.covered = {}
        self.funcs = {}            # (file, qualname) -> times entered
        self.callsites = set()
        self.branches = set()
        self.obligations = {}
        self.nstates = 0
        self.nsteps = 0
        self.npruned = 0
        self.nmerged = 0
        self.ends = {}
        self.modules = {}          # name -> Ref, in initial state only
        self.st0 = State()
        self.ext_names = {}
        from . import natives
        natives.bootstrap(self)
        from . import nat_builtins
        self.helpers = {}
        self.run_to_value(self.st0, self.builtins['__import__'], ('_pybuiltins', None, None, (), 0))
        nat_builtins.finish(self)
        self.st0.freeze()

    def py(self, name):
        return self.builtins[name]

    # ------------------------------------------------------------ util
    def where(self, st):
        out = []
        for f in reversed(st.frames):
            if f.__class__ is Frame:
                out.append('%s:%d in %s' % (f.ci.file, f.line, f.ci.co.co_qualname))
        return out

    def repo_loc(self, st):
        for f in reversed(st.frames):
            if f.__class__ is Frame and f.ci.origin == 'repo':
                return '%s:%d %s' % (f.ci.file, f.line, f.ci.co.co_qualname)
        return None

    def decide(self, st, cond, desc=None):
        if cond is True or cond is False:
            return cond
        if cond.__class__ is Term:
            if cond.op == 'truthy':
                pass
            r = st.facts.decide(cond)
            if r is not None:
                return r
            c2 = self.resolve_cond(st, cond)
            if c2 is not None:
                return self.decide(st, c2, desc)

            def yes(s):
                return s.facts.assume(cond, True)

            def no(s):
                return s.facts.assume(cond, False)
            raise NeedFork([yes, no], repr(cond))
        raise Unsupported('undecidable condition %r' % (cond,))

    # ---- conditions over terms whose unknowns have become known
    def resolve_cond(self, st, cond):
        """an equivalent condition with known integers put in, or None if that changes nothing"""
        pins = {}
        for ts, (lo, hi) in st.facts.iv.items():
            if lo is not None and lo == hi and len(ts) == 1 and ts[0][0].args and ts[0][1] == 1:
                pins[ts[0][0]] = lo
        if not pins:
            return None
        return self._rescond(st, cond, pins, {})

    def _rescond(self, st, cond, pins, memo):
        from . import natives as N
        op = cond.op
        if op == 'not':
            c = self._rescond(st, cond.args[0], pins, memo)
            return None if c is None else (not c) if c.__class__ is bool else N.cnot(c)
        if op == 'eq':
            a, b = (self.resolve(st, x, pins, memo) for x in cond.args)
            if a is cond.args[0] and b is cond.args[1]:
                return None
            c = N.c_eq(self, st, a, b)
            return c if c.__class__ is bool or c.__class__ is Term and c is not cond else None
        if op in ('ieq', 'ub', 'lb'):
            ts, v = cond.args
            x = self.resolve(st, Lin(0, ts), pins, memo)
            if x.__class__ is Lin and x.c == 0 and x.ts == ts:
                return None
            c = F.c_eq_int(x, v) if op == 'ieq' else F.c_le(x, v) if op == 'ub' else F.c_le(v, x)
            return c if c is not cond else None
        return None

    def resolve(self, st, v, pins, memo):
        from . import natives as N
        from . import strings as S
        c = v.__class__
        if c is Lin:
            out = v.c
            for t, k in v.ts:
                r = self.resolve(st, t, pins, memo)
                out = ladd(out, lmul(ivar(r) if r.__class__ is Term else r, k))
            return v if out.__class__ is Lin and out.c == v.c and out.ts == v.ts else out
        if c is SStr:
            new = [self.resolve(st, x, pins, memo) if x.__class__ is Term else x for x in v.segs]
            if all(a is b for a, b in zip(new, v.segs)):
                return v
            return S.mk(v.kind, new)
        if c is tuple:
            new = tuple(self.resolve(st, x, pins, memo) for x in v)
            return v if all(a is b for a, b in zip(new, v)) else new
        if c is not Term:
            return v
        r = memo.get(v)
        if r is None:
            r = memo[v] = self._resterm(st, v, pins, memo)
        return r

    def _resterm(self, st, v, pins, memo):
        from . import natives as N
        if v in pins:
            return pins[v]
        if v.op == 'sym' or not v.args:
            return v
        new = tuple(self.resolve(st, x, pins, memo) for x in v.args)
        if all(a is b for a, b in zip(new, v.args)):
            return v
        if v.op == 'floordiv':
            return N.floordiv(self, st, new[0], new[1])
        if v.op in ('dec', 'decv'):
            if new[0].__class__ is int:
                s = str(new[0]) if v.op == 'decv' else str(new[0]).zfill(new[1])
                return s if v.ty == 'str' else s.encode()
        elif all(x.__class__ is not Term and x.__class__ is not Lin and x.__class__ is not SStr for x in new):
            return v
        t = T(v.op, new, v.ty)
        if v in PROPS and t not in PROPS:
            PROPS[t] = PROPS[v]
        return t

    def fresh(self, st, name, ty, **pr):
        st.nsym += 1
        t = T('sym', ('%s' % name if pr.pop('exact', False) else '%s~%d' % (name, st.nsym),), ty)
        if pr:
            PROPS[t] = pr
        return t

    def note(self, st, text):
        st.notes = (st.notes, text)

    # ------------------------------------------------------------ exceptions
    def exc(self, st, name, *args):
        cls = self.types[name]
        return st.alloc(cls, {'args': tuple(args)}, None)

    def throw(self, st, name, *args):
        raise AbsRaise(self.exc(st, name, *args))

    # ------------------------------------------------------------ types
    def type_of(self, st, v):
        c = v.__class__
        if c is Ref:
            return st.get(v).cls
        if c is SStr:
            return self.types[v.kind]
        if c is Lin:
            return self.types['int']
        if c is Term:
            ty = v.ty
            if ty in self.types:
                return self.types[ty]
            raise Unsupported('type of %r' % (v,))
        n = _TN.get(c)
        if n is None:
            raise Unsupported('type of %r' % (v,))
        if c is NSProxy:
            return self.types['mappingproxy' if v.ro else 'dict']
        return self.types[n]

    def is_class(self, st, v):
        return v.__class__ is Ref and st.get(v).data.__class__ is ClassData

    def cname(self, st, cls):
        return st.get(cls).data.name

    def mro(self, st, cls):
        return st.get(cls).data.mro

    def subclass(self, st, a, b):
        return b in st.get(a).data.mro

    def isinst(self, st, v, cls):
        if v.__class__ is Term and v.ty not in self.types:
            raise Unsupported('isinstance of %r' % (v,))
        return self.subclass(st, self.type_of(st, v), cls)

    def lookup_cls(self, st, cls, name):
        """(value, owner class) through the MRO, or None"""
        for k in st.get(cls).data.mro:
            a = st.get(k).attrs
            if name in a:
                return a[name], k
        return None

    def special(self, st, v, name):
        """special method of the type, or None; user- or natively-defined"""
        r = self.lookup_cls(st, self.type_of(st, v), name)
        return None if r is None else r[0]

    def user_special(self, st, v, name):
        """special method defined in analysed Python code (function), else None"""
        if v.__class__ is not Ref:
            return None
        r = self.lookup_cls(st, st.get(v).cls, name)
        if r is None:
            return None
        if r[0].__class__ is Native:
            return None
        return r[0]

    def data_of(self, st, v):
        return st.get(v).data

    # ------------------------------------------------------------ namespaces
    def ns_get(self, st, ref, name):
        o = st.get(ref)
        if o.attrs is not None and o.data.__class__ is not DData:
            return o.attrs.get(name, NULL)
        e = o.data.e.get(('str', name))
        return NULL if e is None else e[1]

    def ns_set(self, st, ref, name, v):
        o = st.mut(ref)
        if o.attrs is not None and o.data.__class__ is not DData:
            o.attrs[name] = v
        else:
            o.data.e[('str', name)] = (name, v)

    def ns_del(self, st, ref, name):
        o = st.mut(ref)
        if o.attrs is not None and o.data.__class__ is not DData:
            if name not in o.attrs:
                return False
            del o.attrs[name]
        else:
            if ('str', name) not in o.data.e:
                return False
            del o.data.e[('str', name)]
        return True

    # ------------------------------------------------------------ attributes
    def descr_get(self, st, d, obj, cls):
        """Bind class attribute d for access on obj (None for class access).
        Returns value or Call."""
        c = d.__class__
        if c is Native:
            if obj is None or not d.binds:
                return d
            return BM(d, obj)
        if c is Ref:
            o = st.get(d)
            k = o.cls
            ty = self.types
            if k == ty['function']:
                return d if obj is None else BM(d, obj)
            lay = st.get(k).data.layout
            if lay == 'classmethod':
                f = o.data[0]
                if f.__class__ is Ref and st.get(f).cls != ty['function']:
                    r = self.descr_get(st, f, cls, self.type_of(st, cls))
                    return r
                return BM(f, cls)
            if lay == 'staticmethod':
                return o.data[0]
            if lay == 'property':
                g = self.lookup_cls(st, k, '__get__')
                if g is not None and g[0].__class__ is not Native:
                    return Call(g[0], (d, obj, cls))
                if obj is None:
                    return d
                if o.data[0] is None:
                    self.throw(st, 'AttributeError', 'unreadable attribute')
                return Call(o.data[0], (obj,))
            if lay == 'member':
                if obj is None:
                    return d
                v = st.get(obj).attrs.get(o.data[0], NULL)
                if v is NULL:
                    self.throw(st, 'AttributeError', o.data[0])
                return v
            g = self.lookup_cls(st, k, '__get__')
            if g is not None:
                return Call(g[0], (d, obj, cls))
        return d

    def is_data_descr(self, st, d):
        if d.__class__ is not Ref:
            return False
        k = st.get(d).cls
        lay = st.get(k).data.layout
        if lay in ('property', 'member'):
            return True
        return (self.lookup_cls(st, k, '__set__') is not None or
                self.lookup_cls(st, k, '__delete__') is not None)

    def getattr_(self, st, v, name):
        """Value or Call; raises AbsRaise(AttributeError)."""
        c = v.__class__
        if c is Ref:
            o = st.get(v)
            cls = o.cls
            if o.data.__class__ is ClassData:
                return self.class_getattr(st, v, o, name)
            ga = self.lookup_cls(st, cls, '__getattribute__')
            if ga is not None and ga[0].__class__ is not Native:
                return Call(ga[0], (v, name))
            r = self.lookup_cls(st, cls, name)
            if r is not None and self.is_data_descr(st, r[0]):
                return self.descr_get(st, r[0], v, cls)
            if o.attrs is not None and name in o.attrs and not (o.data.__class__ is FuncData and name in _FUNC_ATTRS):
                return o.attrs[name]
            sp = self.special_attr(st, v, o, name)
            if sp is not NULL:
                return sp
            if r is not None:
                return self.descr_get(st, r[0], v, cls)
            g = self.lookup_cls(st, cls, '__getattr__')
            if g is not None:
                return Call(g[0], (v, name))
            return self.no_attr(st, v, cls, name)
        if c is BM:
            if name == '__self__':
                return v.self
            if name == '__func__':
                return v.func
            if name == '__get__':
                return Native('method.__get__', lambda vm, st, a, k: v)
            if name == '__call__':
                return v
            return self.getattr_(st, v.func, name)
        if c is Native:
            if name in ('__name__', '__qualname__'):
                return v.name.split('.')[-1]
            if name == '__doc__':
                return None
            if name == '__get__':
                def bget(vm, st, a, k):
                    return BM(v, a[0]) if v.binds and a[0] is not None else v
                return Native('builtin.__get__', bget)
        cls = self.type_of(st, v)
        r = self.lookup_cls(st, cls, name)
        if r is not None:
            if name == '__class__':
                return cls
            return self.descr_get(st, r[0], v, cls)
        if name == '__class__':
            return cls
        if c is VSlice and name in ('start', 'stop', 'step'):
            return {'start': v.a, 'stop': v.b, 'step': v.c}[name]
        if name in ('real', 'numerator') and c in (int, Lin, bool):
            return v
        if name == '__doc__':
            return None
        return self.no_attr(st, v, cls, name)

    def special_attr(self, st, v, o, name):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            if o.data.__class__ is FuncData or o.attrs is None:
                return NULL if o.attrs is None else NSProxy(v)
            return NSProxy(v)
        d = o.data
        if d.__class__ is FuncData:
            if name in ('__name__',):
                return o.attrs.get('__name__', d.name)
            if name == '__qualname__':
                return o.attrs.get('__qualname__', d.qualname)
            if name == '__doc__':
                if '__doc__' in o.attrs:
                    return o.attrs['__doc__']
                c = d.code.co_consts
                return c[0] if c and isinstance(c[0], str) else None
            if name == '__module__':
                if '__module__' in o.attrs:
                    return o.attrs['__module__']
                return st.get(d.globals).attrs.get('__name__')
            if name == '__defaults__':
                return d.defaults
            if name == '__kwdefaults__':
                return d.kwdefaults
            if name == '__code__':
                return st.alloc(self.types['code'], {}, d.code)
            if name == '__closure__':
                return None
            if name == '__globals__':
                return NSProxy(d.globals)
            if name == '__wrapped__':
                return o.attrs.get('__wrapped__', NULL)
            if name == '__get__':
                def fget(vm, st2, a, k):
                    obj = a[0]
                    return v if obj is None else BM(v, obj)
                return Native('function.__get__', fget)
            if name == '__call__':
                return v
        if name == '__doc__' and '__doc__' not in (o.attrs or {}):
            r = self.lookup_cls(st, o.cls, '__doc__')
            if r is None:
                return None
        lay = st.get(o.cls).data.layout if o.cls is not None else None
        if lay == 'property' and name in ('fget', 'fset', 'fdel'):
            return o.data[('fget', 'fset', 'fdel').index(name)]
        if lay in ('classmethod', 'staticmethod') and name in ('__func__', '__wrapped__'):
            return o.data[0]
        if lay == 'code':
            return self.code_attr(st, o, name)
        if lay == 'exc':
            if name == 'args':
                return o.attrs.get('args', ())
            if name in ('__cause__', '__context__', '__traceback__'):
                return o.attrs.get(name)
            if name == '__suppress_context__':
                return False
            if name == 'value' and self.cname(st, o.cls) == 'StopIteration':
                a = o.attrs.get('args', ())
                return a[0] if a else None
            if name == 'code' and self.subclass(st, o.cls, self.types['SystemExit']):
                a = o.attrs.get('args', ())
                return a[0] if a else None
            if self.subclass(st, o.cls, self.types['OSError']) and name in ('errno', 'strerror', 'filename'):
                a = o.attrs.get('args', ())
                i = ('errno', 'strerror', 'filename').index(name)
                return a[i] if len(a) >= 2 and len(a) > i else None
        if lay == 'range' and name in ('start', 'stop', 'step'):
            return o.data[('start', 'stop', 'step').index(name)]
        if lay == 'module' and name == '__dict__':
            return NSProxy(v)
        return NULL

    def code_attr(self, st, o, name):
        co = o.data
        if name.startswith('co_') and hasattr(co, name):
            v = getattr(co, name)
            if isinstance(v, (int, str, bytes, tuple)):
                return v
        return NULL

    def class_getattr(self, st, v, o, name):
        meta = o.cls
        m = self.lookup_cls(st, meta, name)
        if m is not None and self.is_data_descr(st, m[0]):
            return self.descr_get(st, m[0], v, meta)
        if name == '__dict__':
            return NSProxy(v, True)
        if name == '__name__':
            return o.data.name if '__name__' not in o.attrs or True else None
        if name == '__qualname__':
            return o.data.qualname
        if name == '__bases__':
            return o.data.bases
        if name == '__base__':
            return o.data.bases[0] if o.data.bases else None
        if name == '__mro__':
            return o.data.mro
        if name == '__class__':
            return meta
        if name == '__doc__':
            return o.attrs.get('__doc__')
        if name == '__module__' and '__module__' in o.attrs:
            return o.attrs['__module__']
        r = self.lookup_cls(st, v, name)
        if r is not None:
            return self.descr_get(st, r[0], None, v)
        if m is not None:
            return self.descr_get(st, m[0], v, meta)
        if name == '__module__':
            return 'builtins'
        g = self.lookup_cls(st, meta, '__getattr__')
        if g is not None:
            return Call(g[0], (v, name))
        return self.no_attr(st, v, v, name, on_class=True)

    def no_attr(self, st, v, cls, name, on_class=False):
        # attribute missing: genuine, or missing from our models?
        for k in st.get(cls).data.mro:
            d = st.get(k).data
            if d.origin == 'builtin':
                h = getattr(host_builtins, d.name, None) or _HOST.get(d.name)
                if h is not None and hasattr(h, name) and not (d.name == 'object'):
                    raise Unsupported('attribute %s.%s is not modelled' % (d.name, name))
            elif d.origin == 'model' and self.real_has(st, k, name):
                raise Unsupported('attribute %s of library class %s is not modelled' % (name, d.name))
        if v.__class__ is Ref and st.get(st.get(v).cls).data.layout == 'module':
            o = st.get(v)
            if o.attrs.get('__origin__') == 'unknown':
                return T('unknown', ('%s.%s' % (o.attrs['__name__'], name),), 'unknown')
            if o.attrs.get('__origin__') in ('model',):
                if self.real_mod_has(st, o.attrs.get('__name__'), name):
                    c = _real_constant(o.attrs.get('__name__'), name)
                    if c is not None:
                        return c
                    raise Unsupported('name %s of library module %s is not modelled' % (name, o.attrs.get('__name__')))
            self.throw(st, 'AttributeError', "module '%s' has no attribute '%s'" % (o.attrs.get('__name__'), name))
        self.throw(st, 'AttributeError', "'%s' object has no attribute '%s'" % (self.cname(st, cls), name))

    def real_has(self, st, cls, name):
        """Does the real library class (approximately: its module) mention this attribute?"""
        m = st.get(cls).attrs.get('__module__')
        return self.real_mod_has(st, m, name)

    def real_mod_has(self, st, modname, name):
        if modname is None or modname.__class__ is not str:
            return False
        key = modname
        s = self.ext_names.get(key)
        if s is None:
            s = self.ext_names[key] = _real_names(modname)
        return s is None or name in s

    def setattr_(self, st, v, name, val):
        """None (done) or Call"""
        if v.__class__ is not Ref:
            if v.__class__ is BM:
                self.throw(st, 'AttributeError', "'method' object has no attribute %r" % name)
            self.throw(st, 'AttributeError', 'cannot set attribute %s' % name)
        o = st.get(v)
        cls = o.cls
        sa = self.lookup_cls(st, cls, '__setattr__')
        if sa is not None and sa[0].__class__ is not Native:
            return Call(sa[0], (v, name, val))
        return self.setattr_raw(st, v, name, val)

    def setattr_raw(self, st, v, name, val):
        o = st.get(v)
        cls = o.cls
        if cls is not None:
            r = self.lookup_cls(st, cls, name)
            if r is not None and r[0].__class__ is Ref:
                d = r[0]
                lay = st.get(st.get(d).cls).data.layout
                if lay == 'property':
                    s = self.lookup_cls(st, st.get(d).cls, '__set__')
                    if s is not None and s[0].__class__ is not Native:
                        return Call(s[0], (d, v, val))
                    if st.get(d).data[1] is None:
                        self.throw(st, 'AttributeError', "can't set attribute %s" % name)
                    return Call(st.get(d).data[1], (v, val))
                if lay == 'member':
                    st.mut(v).attrs[st.get(d).data[0]] = val
                    return None
                s = self.lookup_cls(st, st.get(d).cls, '__set__')
                if s is not None:
                    return Call(s[0], (d, v, val))
        if name == '__class__':
            st.mut(v).cls = val
            return None
        if o.data.__class__ is ClassData:
            if o.data.origin == 'builtin':
                self.throw(st, 'TypeError', "cannot set %r attribute of immutable type" % name)
            if name == '__name__':
                o = st.mut(v)
                cd = ClassData(val, o.data.bases, o.data.mro, o.data.layout, o.data.origin, o.data.qualname)
                o.data = cd
                return None
            st.mut(v).attrs[name] = val
            return None
        if o.attrs is None or (cls == self.types['property'] and name != '__doc__'):
            self.throw(st, 'AttributeError', "'%s' object has no attribute '%s'" % (self.cname(st, cls), name))
        if name == '__dict__':
            if val.__class__ is Ref and st.get(val).data.__class__ is DData:
                a = {}
                for k, x in st.get(val).data.e.values():
                    a[k] = x
                st.mut(v).attrs = a
                return None
            raise Unsupported('set __dict__')
        slots = self.slots_of(st, cls)
        if slots is not None and name not in slots:
            self.throw(st, 'AttributeError', "'%s' object has no attribute '%s'" % (self.cname(st, cls), name))
        st.mut(v).attrs[name] = val
        return None

    def slots_of(self, st, cls):
        """set of allowed names, or None if instances have a __dict__"""
        names = set()
        for k in st.get(cls).data.mro:
            d = st.get(k)
            if d.data.name == 'object' and d.data.origin == 'builtin':
                continue
            if '__slots__' not in d.attrs:
                return None
            s = d.attrs['__slots__']
            if s.__class__ is str:
                s = (s,)
            if s.__class__ is Ref:
                s = st.get(s).data
            for x in s:
                if x == '__dict__':
                    return None
                names.add(x)
        return names

    def delattr_(self, st, v, name):
        if v.__class__ is not Ref:
            self.throw(st, 'AttributeError', name)
        o = st.get(v)
        sa = self.lookup_cls(st, o.cls, '__delattr__')
        if sa is not None and sa[0].__class__ is not Native:
            return Call(sa[0], (v, name))
        return self.delattr_raw(st, v, name)

    def delattr_raw(self, st, v, name):
        o = st.get(v)
        r = self.lookup_cls(st, o.cls, name)
        if r is not None and r[0].__class__ is Ref:
            d = r[0]
            lay = st.get(st.get(d).cls).data.layout
            if lay == 'property':
                if st.get(d).data[2] is None:
                    self.throw(st, 'AttributeError', "can't delete attribute")
                return Call(st.get(d).data[2], (v,))
            s = self.lookup_cls(st, st.get(d).cls, '__delete__')
            if s is not None:
                return Call(s[0], (d, v))
        if o.attrs is None or name not in o.attrs:
            self.throw(st, 'AttributeError', name)
        del st.mut(v).attrs[name]
        return None

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, kw):
        """Immediate value, or PUSHED."""
        n = 0
        while f.__class__ is BM:
            args = (f.self,) + tuple(args)
            f = f.func
            n += 1
            if n > 20:
                raise Unsupported('bound method chain')
        c = f.__class__
        if c is Native:
            if f.gen:
                st.frames.append(NFrame(f.fn, tuple(args), kw, f.name))
                return PUSHED
            try:
                return f.fn(self, st, tuple(args), kw)
            except IndexError as e:
                self.too_few(st, e, f.fn, f.name)
        if c is Ref:
            o = st.get(f)
            d = o.data
            if d.__class__ is FuncData:
                self.push_function(st, f, d, args, kw)
                return PUSHED
            if d.__class__ is ClassData:
                m = self.lookup_cls(st, o.cls, '__call__')
                if m is not None and m[0].__class__ is not Native:
                    return self.call(st, m[0], (f,) + tuple(args), kw)
                from .natives import type_call
                st.frames.append(NFrame(type_call, (f,) + tuple(args), kw, 'type.__call__'))
                return PUSHED
            m = self.lookup_cls(st, o.cls, '__call__')
            if m is not None:
                b = self.descr_get(st, m[0], f, o.cls)
                if b.__class__ is Call:
                    from .natives import bound_call
                    st.frames.append(NFrame(bound_call, (b, tuple(args), dict(kw or {})), {}, '__call__'))
                    return PUSHED
                return self.call(st, b, args, kw)
            lay = st.get(o.cls).data.layout
            if lay in ('staticmethod',):
                return self.call(st, o.data[0], args, kw)
            self.throw(st, 'TypeError', "'%s' object is not callable" % self.cname(st, o.cls))
        if c is Term:
            raise Unsupported('call of unknown value %r' % (f,))
        self.throw(st, 'TypeError', "%r object is not callable" % (c.__name__,))

    def bind_args(self, st, co, d, args, kw):
        """-> dict of local slots"""
        name = d.qualname
        n = co.co_argcount
        nk = co.co_kwonlyargcount
        npos = co.co_posonlyargcount
        names = co.co_varnames
        slots = {}
        for i in range(min(n, len(args))):
            slots[names[i]] = args[i]
        extra = args[n:]
        idx = n + nk
        if co.co_flags & 4:
            slots[names[idx]] = tuple(extra)
            idx += 1
        elif extra:
            self.throw(st, 'TypeError', '%s() takes %d positional arguments but %d were given' % (d.name, n, len(args)))
        kwrest = {}
        for k, v in kw.items():
            if k in names[npos:n + nk] :
                if k in slots:
                    self.throw(st, 'TypeError', "%s() got multiple values for argument '%s'" % (d.name, k))
                slots[k] = v
            else:
                kwrest[k] = v
        if co.co_flags & 8:
            r = st.alloc(self.types['dict'], None, DData())
            for k, v in kwrest.items():
                st.get(r).data.e[('str', k)] = (k, v)
            slots[names[idx]] = r
        elif kwrest:
            self.throw(st, 'TypeError', "%s() got an unexpected keyword argument '%s'" % (d.name, list(kwrest)[0]))
        defs = d.defaults or ()
        missing = []
        for i in range(n):
            if names[i] not in slots:
                j = i - (n - len(defs))
                if j >= 0:
                    slots[names[i]] = defs[j]
                else:
                    missing.append(names[i])
        for i in range(n, n + nk):
            if names[i] not in slots:
                kd = d.kwdefaults
                v = NULL
                if kd is not None:
                    v = self.ns_get(st, kd, names[i])
                if v is NULL:
                    missing.append(names[i])
                else:
                    slots[names[i]] = v
        if missing:
            self.throw(st, 'TypeError', '%s() missing required arguments: %s' % (d.name, ', '.join(missing)))
        return slots

    def push_function(self, st, f, d, args, kw, ns=None):
        ci = CodeInfo.of(d.code)
        if len(st.frames) > self.MAX_DEPTH:
            self.throw(st, 'RecursionError', 'maximum recursion depth exceeded')
        fr = Frame(ci, d.globals)
        fr.slots = self.bind_args(st, d.code, d, args, kw)
        fr.func = f
        fr.ns = ns
        if ci.origin == 'repo':
            k = (ci.file, d.code.co_qualname)
            self.funcs[k] = self.funcs.get(k, 0) + 1
            caller = None
            for x in reversed(st.frames):
                if x.__class__ is Frame:
                    caller = '%s:%d' % (x.ci.file, x.line)
                    break
            self.callsites.add((caller, k))
            st.calls = (st.calls, '%s:%d %s (called from %s)' % (ci.file, d.code.co_firstlineno, d.code.co_qualname, caller))
        st.frames.append(fr)

    def deliver(self, st, v):
        """Give a value to the frame on top (result of a call)."""
        if not st.frames:
            raise PathEnd('done')
        fr = st.frames[-1]
        if fr.__class__ is NFrame:
            fr.results.append((True, v))
        else:
            w = fr.wait
            if w is not None:
                fr.wait = None
                if w[0] == 'foriter':
                    fr.stack.append(v)
                    return
                if w[0] == 'send':
                    fr.stack[-1] = v
                    return
                if w[0] == 'drop':
                    return
                if w[0] == 'coerce':
                    fr.stack[w[1]] = v
                    return
                if w[0] == 'with':
                    fr.stack.append(v[0])
                    fr.stack.append(v[1])
                    return
            fr.stack.append(v)

    def stop_iteration(self, st, e):
        o = st.get(e)
        return self.subclass(st, o.cls, self.types['StopIteration'])

    def unwind(self, st, e):
        """Propagate exception value e."""
        while st.frames:
            fr = st.frames[-1]
            if fr.__class__ is NFrame:
                fr.results.append((False, e))
                return
            w = fr.wait
            if w is not None:
                fr.wait = None
                if w[0] == 'coerce':
                    fr.pc += 1
                if w[0] == 'foriter' and self.stop_iteration(st, e):
                    fr.stack.pop()
                    fr.pc = w[1] + 1
                    return
                if w[0] == 'send' and self.stop_iteration(st, e):
                    a = st.get(e).attrs.get('args', ())
                    fr.stack[-1] = a[0] if a else None
                    fr.pc = w[1]
                    return
            h = fr.ci.handler(fr.pc - 1)
            if h is not None:
                t, depth, lasti = h
                del fr.stack[depth:]
                if lasti:
                    fr.stack.append(fr.pc - 1)
                fr.stack.append(e)
                fr.pc = t
                return
            st.frames.pop()
            if fr.gen is not None:
                g = st.mut(fr.gen)
                g.data.state = 'done'
                g.data.frame = None
                if self.stop_iteration(st, e):
                    e = self.exc(st, 'RuntimeError', 'generator raised StopIteration')
            if fr.ci.origin == 'repo':
                o = st.get(e)
                if '__where__' not in (o.attrs or {}):
                    st.mut(e).attrs['__where__'] = '%s:%d in %s' % (fr.ci.file, fr.line, fr.ci.co.co_qualname)
        raise PathEnd('uncaught', e)

    # ------------------------------------------------------------ running
    def run(self, st, on_end):
        """Explore all abstract paths from st; on_end(st, kind, payload)."""
        import gc
        work = [st]
        parked = {}
        while work or parked:
            if not work:
                key = min(parked, key=lambda k: k[0])
                group = parked.pop(key)
                work = self.merge_states(group)
                continue
            s = work.pop()
            self.nstates += 1
            if len(self.violations) >= 10:
                break       # decided
            if time.time() > self.deadline:
                self.undecided.append(('time budget exceeded', self.where(s)[:3], self.repo_loc(s)))
                break
            if self.nstates > self.MAX_STATES:
                self.undecided.append(('state budget exceeded', self.where(s)[:3], self.repo_loc(s)))
                break
            try:
                while True:
                    self.step(s)
                    if not s.steps & 8191 and time.time() > self.deadline:
                        raise Unsupported('time budget exceeded')
                    if s.steps > self.MAX_PATH_STEPS:
                        self.violations.append(Violation('the operation does not end (%d steps on one path)' % s.steps,
                                                         s, self, 'loop'))
                        raise PathEnd('loop', None)
            except NeedFork as nf:
                loc = self.repo_loc(s)
                here = self.where(s)
                if loc:
                    self.branches.add(loc)
                opts = []
                n = len(nf.options)
                for i, o in enumerate(nf.options):
                    s2 = s.fork() if i < n - 1 else s
                    opts.append((s2, o))
                for i, (s2, o) in enumerate(opts):
                    if o(s2):
                        ds = getattr(nf, 'descs', None)
                        s2.path = (s2.path, 'choose ' + ds[i] if ds else
                                   '%s: %s %s' % (loc or (here[0] if here else '?'), nf.desc,
                                                  ('is true', 'is false')[i] if n == 2 else 'case %d' % i))
                        work.append(s2)
                    else:
                        self.npruned += 1
            except Park as p:
                key = p.key
                parked.setdefault(key, []).append(s)
            except PathEnd as pe:
                self.ends[pe.kind] = self.ends.get(pe.kind, 0) + 1
                on_end(s, pe.kind, pe.msg)
            except Unsupported as u:
                if s.facts.contradictory():
                    continue
                self.ends['undecided'] = self.ends.get('undecided', 0) + 1
                self.undecided.append((str(u), self.where(s)[:4], self.repo_loc(s)))

    def merge_states(self, group):
        from .merge import merge
        out = merge(self, group)
        self.nmerged += len(group) - len(out)
        return out

    def step(self, st):
        st.steps += 1
        self.nsteps += 1
        fr = st.frames[-1]
        if fr.__class__ is NFrame:
            self.step_native(st, fr)
            return
        w = fr.wait
        if w is not None and w[0] == 'raise':
            fr.wait = None
            self.unwind(st, w[1])
            return
        idx = fr.pc
        ins = fr.ci.ins[idx]
        fr.pc = idx + 1
        try:
            OPS[ins[0]](self, st, fr, ins)
        except NeedFork:
            fr.pc = idx
            raise
        except AbsRaise as r:
            self.set_context(st, r.value)
            self.unwind(st, r.value)

    def set_context(self, st, e):
        pass

    def too_few(self, st, e, fn, name):
        """a built-in operation without one of its arguments: TypeError, as in the interpreter"""
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        if tb.tb_frame.f_code is not getattr(fn, '__code__', None):
            raise e
        self.throw(st, 'TypeError', '%s: too few arguments' % (name,))

    def step_native(self, st, fr):
        depth = len(st.frames)
        try:
            g = fr.fn(self, st, fr.args, fr.kw)
            req = next(g)
            i = 0
            while True:
                while i < len(fr.results):
                    ok, v = fr.results[i]
                    i += 1
                    if ok:
                        req = g.send(v)
                    else:
                        req = g.throw(AbsRaise(v))
                # perform req
                if req.__class__ is Do:
                    fr.results.append((True, req.thunk()))
                    continue
                if req.ns is not None:
                    d = st.get(req.f).data
                    self.push_function(st, req.f, d, req.args, req.kw, req.ns)
                    return
                try:
                    r = self.call(st, req.f, req.args, req.kw)
                except AbsRaise as e:
                    fr.results.append((False, e.value))
                    continue
                if r is PUSHED:
                    return
                fr.results.append((True, r))
        except StopIteration as s:
            st.frames.pop()
            self.deliver(st, s.value)
        except AbsRaise as r:
            st.frames.pop()
            self.unwind(st, r.value)
        except IndexError as e:
            try:
                self.too_few(st, e, fr.fn, fr.name)
            except AbsRaise as r:
                st.frames.pop()
                self.unwind(st, r.value)

    # ------------------------------------------------------------ generators
    def gen_resume(self, st, g, value, exc=None):
        """Push the generator's frame; result is delivered to the frame below."""
        o = st.mut(g)
        d = o.data
        if d.state == 'run':
            self.throw(st, 'ValueError', 'generator already executing')
        if d.state == 'done':
            if exc is not None:
                raise AbsRaise(exc)
            self.throw(st, 'StopIteration')
        if d.state == 'new' and exc is not None:
            d.state = 'done'
            raise AbsRaise(exc)
        fr = d.frame
        d.frame = None
        d.state = 'run'
        fr.gen = g
        st.frames.append(fr)
        if exc is not None:
            fr.wait = ('raise', exc)
        else:
            fr.stack.append(value)

    # ------------------------------------------------------------ modules
    def find_source(self, name):
        rel = name.replace('.', '/')
        for origin, d in self.roots:
            for p, pkg in ((rel + '.py', False), (rel + '/__init__.py', True)):
                full = os.path.join(d, p)
                if os.path.isfile(full):
                    return origin, full, p, pkg
        return None

    def import_module(self, st, name):
        """Ref if loaded, else pushes frames / returns PUSHED"""
        mods = self.mods(st)
        if name in mods:
            return mods[name]
        src = self.find_source(name)
        if src is None:
            std = name.split('.')[0]
            if not self.real_module_exists(name):
                self.throw(st, 'ModuleNotFoundError', "No module named '%s'" % name)
            raise Unsupported('library module %s is not modelled' % name)
        return src

    def real_module_exists(self, name):
        import importlib.util
        top = name.split('.')[0]
        if top in sys.stdlib_module_names:
            if '.' not in name:
                return True
            try:
                return importlib.util.find_spec(name) is not None
            except Exception:
                return False
        return _real_path(name) is not None

    def mods(self, st):
        return st.get(self.mods_ref).attrs

    def load(self, st, name):
        """Start executing module source; returns module Ref, frame pushed"""
        origin, full, rel, pkg = self.find_source(name)
        with open(full, encoding='utf-8') as f:
            text = f.read()
        fn = '%s:%s' % (origin, rel)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            co = compile(text, fn, 'exec', dont_inherit=True)
        m = st.alloc(self.types['module'], {'__name__': name, '__file__': rel, '__doc__': None,
                                            '__origin__': origin,
                                            '__package__': name if pkg else name.rpartition('.')[0],
                                            '__builtins__': None}, None)
        if pkg:
            st.get(m).attrs['__path__'] = rel
        st.mut(self.mods_ref).attrs[name] = m
        par, _, leaf = name.rpartition('.')
        fr = Frame(CodeInfo.of(co), m)
        fr.ns = m
        return m, fr

    def load_all(self, names):
        """Interpret module bodies concretely into the initial state."""
        st = self.st0
        for n in names:
            self.run_to_value(st, self.builtins['__import__'], (n, None, None, ('*x',), 0))
        st.freeze()

    def run_to_value(self, st, f, args, kw=None):
        """Deterministic call in state st; returns value; raises on fork."""
        box = []

        def fin(vm, s, a, k):
            v = yield Call(f, args, kw or {})
            box.append(v)
            return v
        st.frames.append(NFrame(fin, (), {}, 'run_to_value'))
        base = len(st.frames) - 1
        try:
            while len(st.frames) > base:
                self.step(st)
        except Unsupported as u:
            raise LoadError('%s at %s' % (u, self.where(st)[:3]))
        except NeedFork as u:
            raise LoadError('unknown condition %s at %s' % (u.desc, self.where(st)[:3]))
        except PathEnd as p:
            if p.kind == 'done':
                return box[0]
            if p.kind == 'uncaught':
                o = st.get(p.msg)
                raise LoadError('%s%s at %s' % (self.cname(st, o.cls), show(o.attrs.get('args')),
                                                o.attrs.get('__where__')))
            raise
        return box[0]


class LoadError(Exception):
    pass


class Park(Exception):
    def __init__(self, key):
        self.key = key


_TN = {type(None): 'NoneType', bool: 'bool', int: 'int', float: 'float', complex: 'complex', str: 'str', bytes: 'bytes',
       tuple: 'tuple', type(Ellipsis): 'ellipsis', type(NotImplemented): 'NotImplementedType',
       BM: 'method', Native: 'builtin_function_or_method', VSlice: 'slice', NSProxy: 'dict', CellV: 'cell',
       types.CodeType: 'code'}
_FUNC_ATTRS = ()
_HOST = {'function': types.FunctionType, 'method': types.MethodType, 'module': types.ModuleType,
         'generator': types.GeneratorType, 'NoneType': type(None), 'builtin_function_or_method': type(len),
         'mappingproxy': types.MappingProxyType, 'dict_items': type({}.items()), 'dict_keys': type({}.keys()),
         'dict_values': type({}.values()), 'code': types.CodeType}

SITE = ['/opt/venv/lib/python3.12/site-packages', '/usr/lib/python3.12']


def _real_path(modname):
    rel = modname.replace('.', '/')
    for s in SITE:
        for p in (rel + '.py', rel + '/__init__.py'):
            f = os.path.join(s, p)
            if os.path.isfile(f):
                return f
    return None


def _real_constant(mod, name):
    """an integer or text constant of the standard library (inspect.CO_VARARGS)"""
    if mod not in ('inspect', 'stat', 'errno', 'signal', 'socket', 'string', 'token', 'math', 're', 'calendar', 'keyword'):
        return None
    c = getattr(__import__(mod), name, None)
    return int(c) if isinstance(c, int) and not isinstance(c, bool) else c if c.__class__ in (str, bool) else None


def _real_names(modname):
    """identifiers occurring in the real library module; None = unknown (C module)"""
    import re
    import sys
    f = _real_path(modname)
    if modname.split('.')[0] in sys.stdlib_module_names and (f is None or modname == 'datetime'):
        import importlib
        try:
            m = importlib.import_module(modname)
        except ImportError:
            return None
        names = set(dir(m))
        for n in dir(m):
            if isinstance(getattr(m, n), type):
                names.update(dir(getattr(m, n)))
        return names
    if f is None:
        return None
    with open(f, encoding='utf-8', errors='replace') as fh:
        text = fh.read()
    names = set(re.findall(r'[A-Za-z_][A-Za-z_0-9]*', text))
    return names


from .ops import OPS  # noqa
