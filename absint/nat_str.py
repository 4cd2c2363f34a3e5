"""Text: conversion, formatting and methods."""
import re as _re

from .values import *
from . import facts as F
from . import strings as S
from .vm import AbsRaise, Call, Do, PUSHED, NeedFork, PathEnd, ClassData, FuncData, Frame


def N():
    from . import natives
    return natives


def obj_id(r):
    return 10000000 + 16 * r.id


# ---------------------------------------------------------------- str / repr
def str_of(vm, st, v):
    """text without running analysed code, or None"""
    n = N()
    if v.__class__ is SStr and v.kind == 'str' or v.__class__ is str:
        return v
    if v.__class__ is Ref:
        o = st.get(v)
        if o.data.__class__ is not ClassData and st.get(o.cls).data.layout == 'str' and \
                vm.user_special(st, v, '__str__') is None:
            return o.data
        return None
    return repr_of(vm, st, v)


def repr_of(vm, st, v):
    c = v.__class__
    if c in (int, float, bool, complex, str, bytes) or v is None or v is Ellipsis or v is NotImplemented:
        return repr(v)
    if c is Lin:
        return S.atom(T('decv', (v,), 'str'))
    if c is SStr:
        if len(v.segs) == 1 and v.segs[0].op in ('dec', 'decv') and v.kind == 'str':
            return S.mk('str', ["'", v, "'"])
        t = T('repr', (v,), 'str')
        return S.atom(t)
    if c is Term:
        if v.ty == 'bool':
            return 'True' if vm.decide(st, v) else 'False'
        if v.ty == 'int':
            return S.atom(T('decv', (ivar(v),), 'str'))
        if v.ty in vm.types:
            return S.atom(T('repr', (v,), 'str'))
        raise Unsupported('repr of %r' % (v,))
    if c is Native:
        return '<built-in function %s>' % v.name
    return None


def str_gen(vm, st, args, kw):
    """str(x): text value"""
    if not args:
        return ''
    v = args[0]
    if len(args) > 1 or 'encoding' in kw or 'errors' in kw:
        enc = args[1] if len(args) > 1 else kw.get('encoding', 'utf-8')
        return do_decode(vm, st, N().unwrap(st, v), enc)
    r = str_of(vm, st, v)
    if r is not None:
        return r
    if v.__class__ is Ref:
        if st.get(v).data.__class__ is not ClassData:
            m = vm.user_special(st, v, '__str__')
            if m is not None:
                r = yield Call(m, (v,))
                return check_str(vm, st, r, '__str__')
            if N().layout(vm, st, v) == 'exc':
                a = st.get(v).attrs.get('args', ())
                if vm.subclass(st, st.get(v).cls, vm.types['KeyError']) and len(a) == 1:
                    r = yield Call(N_REPR, (a[0],))
                    return r
                if not a:
                    return ''
                if len(a) == 1:
                    r = yield Call(N_STR, (a[0],))
                    return r
                if vm.subclass(st, st.get(v).cls, vm.types['OSError']) and len(a) == 2:
                    x = yield Call(N_STR, (a[0],))
                    y = yield Call(N_STR, (a[1],))
                    return S.mk('str', ['[Errno ', x, '] ', y])
                r = yield Call(N_REPR, (a,))
                return r
    r = yield Call(N_REPR, (v,))
    return r


def check_str(vm, st, r, what):
    r = N().unwrap(st, r)
    if S.kind_of(r) != 'str':
        vm.throw(st, 'TypeError', '%s returned non-string' % what)
    return r


def repr_gen(vm, st, args, kw):
    v = args[0]
    n = N()
    r = repr_of(vm, st, v)
    if r is not None:
        return r
    c = v.__class__
    if c is tuple:
        parts = []
        for x in v:
            s = yield Call(N_REPR, (x,))
            parts.append(s)
        return join_repr('(', parts, ')', tup=True)
    if c is n.BM if False else False:
        pass
    if c is BM:
        s = yield Call(N_REPR, (v.self,))
        nm = yield Call(Native('qn', qualname_of, True), (v.func,))
        return S.mk('str', ['<bound method ', nm, ' of ', s, '>'])
    if c is VSlice:
        out = []
        for x in (v.a, v.b, v.c):
            s = yield Call(N_REPR, (x,))
            out.append(s)
        return join_repr('slice(', out, ')')
    if c is NSProxy:
        r = yield from repr_dict(vm, st, v)
        return r
    if c is not Ref:
        raise Unsupported('repr of %r' % (v,))
    o = st.get(v)
    if o.data.__class__ is ClassData:
        m = vm.user_special(st, v, '__repr__') if False else None
        mm = vm.lookup_cls(st, o.cls, '__repr__')
        if mm is not None and mm[0].__class__ is not Native:
            r = yield Call(mm[0], (v,))
            return check_str(vm, st, r, '__repr__')
        mod = o.attrs.get('__module__', 'builtins')
        if o.data.origin == 'builtin':
            return "<class '%s'>" % o.data.name
        return S.mk('str', ["<class '", mod, '.', o.data.qualname, "'>"])
    m = vm.user_special(st, v, '__repr__')
    if m is not None:
        r = yield Call(m, (v,))
        return check_str(vm, st, r, '__repr__')
    lay = st.get(o.cls).data.layout
    nm = vm.cname(st, o.cls)
    if lay == 'list':
        parts = []
        items = yield Do(lambda: tuple(o.data))
        for x in items:
            if x == v:
                parts.append('[...]')
                continue
            s = yield Call(N_REPR, (x,))
            parts.append(s)
        return join_repr('[', parts, ']')
    if lay == 'dict':
        r = yield from repr_dict(vm, st, v)
        return r
    if lay in ('set', 'frozenset'):
        parts = []
        items = yield Do(lambda: tuple(k for k, _ in o.data.e.values()))
        for x in items:
            s = yield Call(N_REPR, (x,))
            parts.append(s)
        if not parts:
            return nm + '()'
        b = join_repr('{', parts, '}')
        return b if lay == 'set' and nm == 'set' else S.mk('str', [nm + '(', b, ')'])
    if lay in ('str', 'bytes', 'int', 'float', 'tuple'):
        r = yield Call(N_REPR, (o.data,))
        return r
    if lay == 'exc':
        a = o.attrs.get('args', ())
        parts = []
        for x in a:
            s = yield Call(N_REPR, (x,))
            parts.append(s)
        return join_repr(nm + '(', parts, ')')
    if lay == 'function':
        return S.mk('str', ['<function ', o.data.qualname, ' at 0x%x>' % obj_id(v)])
    if lay == 'module':
        return "<module '%s'>" % o.attrs.get('__name__')
    mod = st.get(o.cls).attrs.get('__module__', 'builtins')
    return S.mk('str', ['<', mod, '.', st.get(o.cls).data.qualname, ' object at 0x%x>' % obj_id(v)])


def repr_dict(vm, st, v):
    items = yield Do(lambda: N().handle(vm, st, v).items())
    parts = []
    for k, x in items:
        a = yield Call(N_REPR, (k,))
        b = yield Call(N_REPR, (x,))
        parts.append(S.mk('str', [a, ': ', b]))
    return join_repr('{', parts, '}')


def join_repr(a, parts, b, tup=False):
    out = [a]
    for i, p in enumerate(parts):
        if i:
            out.append(', ')
        out.append(p)
    if tup and len(parts) == 1:
        out.append(',')
    out.append(b)
    return S.mk('str', out)


def qualname_of(vm, st, args, kw):
    f = args[0]
    if f.__class__ is Ref and st.get(f).data.__class__ is FuncData:
        return st.get(f).data.qualname
    return getattr(f, 'name', '?')
    yield


N_STR = Native('str', str_gen, True, False)
N_REPR = Native('repr', repr_gen, True, False)


# ---------------------------------------------------------------- integers as text
def int_fmt(vm, st, v, flags, width, conv='d'):
    """%d with flags; v int or Lin"""
    n = N()
    v = n.as_int(v, vm, st)
    if v.__class__ is Lin:
        v = st.facts.fold(v)
    if v.__class__ is int:
        return ('%' + flags + (str(width) if width else '') + conv) % v
    if conv not in ('d', 'i', 'u'):
        return S.atom(T('fmt', ('%' + flags + (str(width) if width else '') + conv, v), 'str'))
    sign = ''
    if not flags and (width or 0) <= 1:
        lo, hi = st.facts.bounds(v)
        if lo is None or lo < 0:
            return S.atom(T('decv', (v,), 'str'))      # as str() states it
    if vm.decide(st, F.c_lt(v, 0)):
        sign = '-'
        v = lmul(v, -1)
    elif '+' in flags:
        sign = '+'
    elif ' ' in flags:
        sign = ' '
    w = (width or 0) - len(sign)
    if '0' in flags and w > 0 and '-' not in flags:
        if vm.decide(st, F.c_lt(v, 10 ** w)):
            return S.mk('str', [sign, T('dec', (v, w), 'str')])
        return S.mk('str', [sign, T('decv', (v,), 'str')])
    if w > 1:
        for k in range(1, w):
            if vm.decide(st, F.c_lt(v, 10 ** k)):
                body = S.mk('str', [sign, T('dec', (v, k), 'str')])
                pad = ' ' * (w - k)
                return S.mk('str', [body, pad] if '-' in flags else [pad, body])
    lo, hi = st.facts.bounds(v)
    if lo is not None and hi is not None and lo >= 0 and len(str(lo)) == len(str(hi)):
        return S.mk('str', [sign, T('dec', (v, len(str(lo))), 'str')])
    return S.mk('str', [sign, T('decv', (v,), 'str')])


def pad_text(vm, st, s, width, left, fill=' '):
    if not width:
        return s
    n = S.slen(s)
    if n.__class__ is not int:
        n = st.facts.fold(n)
    if n.__class__ is int:
        if n >= width:
            return s
        p = fill * (width - n)
        if S.kind_of(s) == 'bytes':
            p = p.encode() if isinstance(p, str) else p
        return S.mk(S.kind_of(s), [s, p] if left else [p, s])
    if vm.decide(st, F.c_le(width, n)):
        return s
    for k in range(width):
        if vm.decide(st, F.c_eq_int(n, k)):
            p = fill * (width - k)
            return S.mk(S.kind_of(s), [s, p] if left else [p, s])
    raise PathEnd('infeasible')


_SPEC = _re.compile(r'%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', _re.S)


def percent_gen(vm, st, fmt, b):
    n = N()
    kind = S.kind_of(fmt)
    out = []
    pos = [0]
    is_tuple = b.__class__ is tuple or n.layout(vm, st, b) == 'tuple'
    seq = n.listlike(st, b) if is_tuple else (b,)
    mapping = not is_tuple and n.layout(vm, st, b) not in ('str', 'bytes') and b.__class__ is not tuple
    used_map = False

    def nxt():
        if pos[0] >= len(seq):
            vm.throw(st, 'TypeError', 'not enough arguments for format string')
        v = seq[pos[0]]
        pos[0] += 1
        return v
    for seg in S.segs(fmt):
        if seg.__class__ is Term:
            if not S.excludes(seg, '%'):
                raise Unsupported('unknown text used as format')
            out.append(seg)
            continue
        text = seg.decode('latin-1') if kind == 'bytes' else seg
        i = 0
        while True:
            k = text.find('%', i)
            if k < 0:
                out.append(enc(text[i:], kind))
                break
            out.append(enc(text[i:k], kind))
            m = _SPEC.match(text, k)
            if m is None:
                vm.throw(st, 'ValueError', 'incomplete format')
            i = m.end()
            key, flags, width, prec, conv = m.groups()
            if conv == '%':
                out.append(enc('%', kind))
                continue
            if key is not None:
                if not mapping:
                    vm.throw(st, 'TypeError', 'format requires a mapping')
                used_map = True
                v = yield Call(Native('gi', item_gen, True), (b, enc(key, kind)))
            else:
                if width == '*':
                    width = nxt()
                if prec == '*':
                    prec = nxt()
                v = nxt()
            width = int(width) if width else 0
            uv = n.unwrap(st, v)
            if conv in 'sra':
                if kind == 'bytes':
                    if conv != 's' or S.kind_of(uv) != 'bytes':
                        vm.throw(st, 'TypeError', '%b requires a bytes-like object')
                    s = uv
                else:
                    s = yield Call(N_STR if conv == 's' else N_REPR, (v,))
                if prec is not None:
                    s = S.sslice(vm, st, s, 0, int(prec))
                s = pad_text(vm, st, s, width, '-' in flags)
            elif conv in 'diu':
                if n.is_int(uv):
                    s = int_fmt(vm, st, bool_num(vm, st, uv), flags, width)
                elif uv.__class__ is float:
                    s = ('%' + flags + (str(width) if width else '') + 'd') % uv
                elif n.is_float(uv):
                    s = S.atom(T('fmt', ('%' + flags + str(width) + 'd', uv), 'str'))
                else:
                    mi = vm.special(st, v, '__int__') if v.__class__ is Ref else None
                    mi = mi or (vm.special(st, v, '__index__') if v.__class__ is Ref else None)
                    if mi is None:
                        vm.throw(st, 'TypeError', '%d format: a real number is required')
                    x = yield Call(mi, (v,))
                    s = int_fmt(vm, st, x, flags, width)
                s = enc_v(s, kind)
            elif conv in 'xXo':
                if not n.is_int(uv):
                    vm.throw(st, 'TypeError', '%%%s format: an integer is required' % conv)
                s = enc_v(int_fmt(vm, st, uv, flags, width, conv), kind)
            elif conv in 'feEgGF':
                spec = '%' + flags + (str(width) if width else '') + ('.%s' % prec if prec is not None else '') + conv
                if uv.__class__ in (int, float, bool):
                    s = spec % uv
                elif n.is_int(uv) or n.is_float(uv):
                    s = S.atom(T('fmt', (spec, n.fnorm(uv)), 'str'))
                else:
                    vm.throw(st, 'TypeError', 'must be real number')
                s = enc_v(s, kind)
            elif conv == 'c':
                if uv.__class__ is int:
                    s = enc(chr(uv), kind)
                elif n.is_txt(uv) and S.slen(uv) == 1:
                    s = uv
                else:
                    vm.throw(st, 'TypeError', '%c requires int or char')
            else:
                vm.throw(st, 'ValueError', 'unsupported format character')
            out.append(s)
    if is_tuple and pos[0] < len(seq) or not is_tuple and not mapping and pos[0] == 0 or \
            mapping and not used_map and pos[0] == 0 and n.layout(vm, st, b) not in ('dict',) and False:
        vm.throw(st, 'TypeError', 'not all arguments converted during string formatting')
    if not is_tuple and mapping and not used_map and pos[0] == 0 and vm.special(st, b, '__getitem__') is None:
        vm.throw(st, 'TypeError', 'not all arguments converted during string formatting')
    return S.mk(kind, out)


def bool_num(vm, st, v):
    if v.__class__ is Term and v.ty == 'bool':
        return 1 if vm.decide(st, v) else 0
    return v


def enc(s, kind):
    return s.encode('latin-1') if kind == 'bytes' else s


def enc_v(s, kind):
    return S.encode_str(s, 'ascii') if kind == 'bytes' else s


def item_gen(vm, st, args, kw):
    n = N()
    r = n.getitem(vm, st, args[0], args[1])
    if r is n.DEFER:
        r = yield Call(Native('gi', n.getitem_gen, True), args)
        return r
    if r.__class__ is Call:
        r = yield r
    return r


# ---------------------------------------------------------------- format()
_FS = _re.compile(r'(?:(.)?([<>=^]))?([+\- ])?(z)?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$', _re.S)


def format_gen(vm, st, args, kw):
    """format(v, spec)"""
    n = N()
    v = args[0]
    spec = args[1] if len(args) > 1 else ''
    if spec.__class__ is not str:
        raise Unsupported('unknown format specification')
    if v.__class__ is Ref:
        m = vm.user_special(st, v, '__format__')
        if m is not None:
            r = yield Call(m, (v, spec))
            return r
    if spec == '':
        r = yield Call(N_STR, (v,))
        return r
    uv = n.unwrap(st, v)
    if uv.__class__ in (int, float, str, bool):
        try:
            return format(uv, spec)
        except ValueError as e:
            vm.throw(st, 'ValueError', str(e))
    m = _FS.match(spec)
    if m is None:
        vm.throw(st, 'ValueError', 'Invalid format specifier')
    fill, align, sign, z, alt, zero, width, comma, prec, conv = m.groups()
    width = int(width) if width else 0
    if n.is_int(uv) and uv.__class__ is not Term or uv.__class__ is Term and uv.ty == 'int':
        if comma or alt or prec or align or conv not in (None, 'd', 'n', 'x', 'X', 'o'):
            if align == '>' and fill == '0':
                zero = '0'
            else:
                return S.atom(T('fmt', (spec, uv), 'str'))
        return int_fmt(vm, st, uv, ('0' if zero else '') + (sign or '').replace('-', ''), width,
                       conv if conv in ('x', 'X', 'o') else 'd')
    if n.is_float(uv):
        return S.atom(T('fmt', ('{:%s}' % spec, uv), 'str'))
    if uv.__class__ is SStr and conv in (None, 's'):
        s = uv
        if prec:
            s = S.sslice(vm, st, s, 0, int(prec))
        if align in (None, '<', '>'):
            return pad_text(vm, st, s, width, align != '>', fill or ' ')
    if v.__class__ is Ref or v is None or v.__class__ is tuple:
        vm.throw(st, 'TypeError', 'unsupported format string passed to __format__')
    raise Unsupported('format %r' % (spec,))


N_FORMAT = Native('format', format_gen, True, False)


def format_value(vm, st, args, kw):
    v, conv, spec = args
    if conv == 's':
        v = yield Call(N_STR, (v,))
    elif conv in ('r', 'a'):
        v = yield Call(N_REPR, (v,))
    r = yield Call(N_FORMAT, (v, spec))
    return r


def str_format_gen(vm, st, args, kw):
    import string
    n = N()
    fmt = n.unwrap(st, args[0])
    if fmt.__class__ is not str:
        raise Unsupported('unknown text used as format')
    pos = args[1:]
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        m = _re.match(r'([^.\[]*)(.*)$', field, _re.S)
        first, rest = m.groups()
        if first == '':
            first = auto
            auto += 1
        elif first.isdigit():
            first = int(first)
        if first.__class__ is int:
            if first >= len(pos):
                vm.throw(st, 'IndexError', 'Replacement index out of range')
            v = pos[first]
        else:
            if first not in kw:
                vm.throw(st, 'KeyError', first)
            v = kw[first]
        for a in _re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
            if a[0]:
                v = yield Call(Native('ga', getattr_gen, True), (v, a[0]))
            else:
                v = yield Call(Native('gi', item_gen, True), (v, int(a[1]) if a[1].isdigit() else a[1]))
        if spec and '{' in spec:
            spec = yield Call(Native('fmt', str_format_gen, True), (spec,) + pos, kw)
        r = yield from format_value(vm, st, (v, conv, spec), {})
        out.append(r)
    return S.mk('str', out)


def getattr_gen(vm, st, args, kw):
    from . import nat_types as NT
    name = NT.attr_name(vm, st, args[1], args[0], True)
    try:
        r = vm.getattr_(st, args[0], name)
        if r.__class__ is Call:
            r = yield r
        return r
    except AbsRaise as e:
        if len(args) > 2 and vm.subclass(st, st.get(e.value).cls, vm.types['AttributeError']):
            return args[2]
        raise


# ---------------------------------------------------------------- encode / decode
ENC = {'utf8': 'utf-8', 'utf-8': 'utf-8', 'utf_8': 'utf-8', 'ascii': 'ascii', 'us-ascii': 'ascii',
       'latin-1': 'latin-1', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1', 'base64': 'base64', 'hex': 'hex'}


def norm_enc(vm, st, enc):
    enc = N().unwrap(st, enc)
    if S.kind_of(enc) != 'str':
        vm.throw(st, 'TypeError', 'encoding must be str')
    if enc.__class__ is SStr:
        return enc
    e = ENC.get(enc.lower().replace('_', '-'), None)
    if e is None:
        import codecs
        try:
            return codecs.lookup(enc).name
        except LookupError:
            vm.throw(st, 'LookupError', 'unknown encoding: ' + enc)
    return e


def do_encode(vm, st, v, enc='utf-8'):
    e = norm_enc(vm, st, enc)
    if e.__class__ is SStr:
        return sym_codec(vm, st, v, e, True)
    if e in ('base64', 'hex', 'rot13', 'zlib', 'bz2'):
        vm.throw(st, 'LookupError', "'%s' is not a text encoding; use codecs.encode() to handle arbitrary codecs" % e)
    if v.__class__ is str:
        try:
            return v.encode(e)
        except UnicodeError as x:
            raise AbsRaise(vm.exc(st, 'UnicodeEncodeError', e, v, x.start, x.end, x.reason))
    if e == 'utf-8':
        return S.encode_str(v, 'utf-8')
    # ascii / latin-1: may fail
    for s in v.segs:
        if s.__class__ is str:
            try:
                s.encode(e)
            except UnicodeError as x:
                raise AbsRaise(vm.exc(st, 'UnicodeEncodeError', e, v, 0, 1, x.reason))
        elif not is_ascii(s):
            if s.op == 'decode' and s.args[1] == e:
                continue
            c = T('encodable', (s, e), 'bool')
            if not vm.decide(st, c):
                raise AbsRaise(vm.exc(st, 'UnicodeEncodeError', e, v, 0, 1, 'ordinal not in range'))
    if e == 'ascii':
        return S.encode_str(v, 'utf-8' if all(not (x.__class__ is Term and x.op == 'decode' and x.args[1] == 'ascii')
                                              for x in v.segs) else 'ascii')
    if all(x.__class__ is str and x.isascii() or x.__class__ is Term and is_ascii(x) for x in v.segs):
        return S.encode_str(v, 'utf-8')
    return S.encode_str(v, e)


def is_ascii(t):
    p = props(t)
    return p.get('ascii') or p.get('digits') or p.get('intlit')


def do_decode(vm, st, v, enc='utf-8'):
    if S.kind_of(v) != 'bytes':
        vm.throw(st, 'TypeError', 'decoding to str: need a bytes-like object')
    e = norm_enc(vm, st, enc)
    if e.__class__ is SStr:
        return sym_codec(vm, st, v, e, False)
    if e in ('base64', 'hex', 'rot13', 'zlib', 'bz2'):
        vm.throw(st, 'LookupError', "'%s' is not a text encoding; use codecs.decode() to handle arbitrary codecs" % e)
    if v.__class__ is bytes:
        try:
            return v.decode(e)
        except UnicodeError as x:
            raise AbsRaise(vm.exc(st, 'UnicodeDecodeError', e, v, x.start, x.end, x.reason))
    if e == 'latin-1':
        if all(x.__class__ is bytes and x.isascii() or x.__class__ is Term and is_ascii(x) for x in v.segs):
            return S.decode_bytes(v, 'utf-8')
        return S.decode_bytes(v, 'latin-1')
    # utf-8 / ascii may fail for bytes atoms which are not encodings of text
    segs = v.segs
    for s in segs:
        if s.__class__ is bytes:
            if not s.isascii():
                try:
                    s.decode(e)
                except UnicodeError as x:
                    raise AbsRaise(vm.exc(st, 'UnicodeDecodeError', e, v, 0, 1, x.reason))
        elif is_ascii(s):
            pass
        elif s.op == 'encode' and s.args[1] == 'utf-8':
            if e == 'ascii' and not vm.decide(st, T('encodable', (s.args[0], 'ascii'), 'bool')):
                raise AbsRaise(vm.exc(st, 'UnicodeDecodeError', e, v, 0, 1, 'ordinal not in range'))
        else:
            if len(segs) > 1 and props(s).get('len') != 1 and s.op == 'ssub':
                # a cut through encoded text may split a character
                pass
            if not vm.decide(st, T('decodable', (s, e), 'bool')):
                raise AbsRaise(vm.exc(st, 'UnicodeDecodeError', e, v, 0, 1, 'invalid byte'))
    return S.decode_bytes(v, 'utf-8')


def sym_codec(vm, st, v, e, encoding):
    op = 'encode' if encoding else 'decode'
    kind = 'bytes' if encoding else 'str'
    segs = []
    inv = 'decode' if encoding else 'encode'
    if v.__class__ is SStr and len(v.segs) == 1 and v.segs[0].op == inv and v.segs[0].args[1] == e:
        return S.atom(v.segs[0].args[0]) if v.segs[0].args[0].__class__ is Term else v.segs[0].args[0]
    src = v.segs[0] if v.__class__ is SStr and len(v.segs) == 1 else v
    return S.atom(T(op, (src, e), kind))


# ---------------------------------------------------------------- methods
def conc(x):
    return x.__class__ in (str, bytes, int, bool, type(None), float) or x.__class__ is tuple and all(conc(y) for y in x)


HOST_METHODS = ('capitalize casefold center count endswith expandtabs find index isalnum isalpha isascii isdecimal '
                'isdigit isidentifier islower isnumeric isprintable isspace istitle isupper ljust lower lstrip '
                'partition replace rfind rindex rjust rpartition rsplit rstrip split splitlines startswith strip '
                'swapcase title upper zfill hex removeprefix removesuffix').split()


def host_result(vm, st, r):
    if isinstance(r, list):
        return N().new_list(vm, st, r)
    return r


def method(name):
    def fn(vm, st, args, kw):
        n = N()
        args = tuple(n.unwrap(st, a) for a in args)
        kw = {k: n.unwrap(st, v) for k, v in kw.items()}
        v = args[0]
        kind = S.kind_of(v)
        if kind is None:
            vm.throw(st, 'TypeError', "descriptor '%s' requires a 'str' object" % name)
        for a in args[1:]:
            k = S.kind_of(a)
            if k is not None and k != kind and name not in ('decode', 'encode'):
                vm.throw(st, 'TypeError', "a %s object is required, not '%s'" % (
                    'bytes-like' if kind == 'bytes' else 'str', k))
            if a.__class__ is Term and a.ty not in vm.types:
                raise Unsupported('%s(%r)' % (name, a))
        if v.__class__ is not SStr and all(conc(a) for a in args[1:]) and all(conc(a) for a in kw.values()):
            try:
                return host_result(vm, st, getattr(v, name)(*args[1:], **kw))
            except Exception as e:
                vm.throw(st, type(e).__name__, str(e))
        v = S.prune(st, v)
        if v is not args[0]:
            return fn(vm, st, (v,) + args[1:], kw)
        f = SYM.get(name)
        if f is None:
            raise Unsupported('str.%s on unknown text' % name)
        if kw:
            f2 = KWORDER.get(name)
            if f2 is None:
                raise Unsupported('keyword arguments of str.%s' % name)
            args = args + tuple(kw[k] for k in f2 if k in kw)
        return f(vm, st, *args)
    return Native('str.' + name, fn)


KWORDER = {'split': ('sep', 'maxsplit'), 'rsplit': ('sep', 'maxsplit'), 'encode': ('encoding', 'errors'),
           'splitlines': ('keepends',)}
SYM = {}


def sym(name):
    def d(f):
        SYM[name] = f
        return f
    return d


for _n in ('lower', 'upper', 'title', 'swapcase', 'capitalize', 'casefold'):
    def _mk(_n):
        SYM[_n] = lambda vm, st, v: S.scase(v, _n)
    _mk(_n)


def find_opaque(v, sub, a, b, last):
    """the position as an uninterpreted function of text, sought text and range"""
    if a is None:
        a = 0
    return TI('srfind' if last else 'sfind', (v, sub, a, b), -1)


def find_any(vm, st, v, sub, a, b, last):
    if not (a is None or is_num(a)) or not (b is None or is_num(b)) or S.kind_of(sub) is None:
        vm.throw(st, 'TypeError', 'must be str, not something else')
    if b is None and (a is None or a.__class__ is int and a >= 0 or
                      a.__class__ is Lin and (st.facts.bounds(a)[0] or 0) >= 0 and st.facts.decide_ge0(a)):
        try:
            if sub.__class__ is SStr:
                sg, sb = S.segs(v), sub.segs
                if not last and not a and sg[:len(sb)] == sb:
                    return 0
            elif len(sub):
                return S.sfind(vm, st, v, sub, a or 0, last)
            elif not a:
                return S.slen(v) if last else 0
        except Unsupported:
            pass
    return find_opaque(v, sub, a, b, last)


def is_num(a):
    return a.__class__ in (int, bool, Lin) or a.__class__ is Term and a.ty in ('int', 'bool')


@sym('find')
def _(vm, st, v, sub, a=None, b=None):
    return find_any(vm, st, v, sub, a, b, False)


@sym('rfind')
def _(vm, st, v, sub, a=None, b=None):
    return find_any(vm, st, v, sub, a, b, True)


@sym('index')
def _(vm, st, v, sub, a=None, b=None):
    r = SYM['find'](vm, st, v, sub, a, b)
    if vm.decide(st, F.c_eq_int(r, -1)):
        vm.throw(st, 'ValueError', 'substring not found')
    return r


@sym('rindex')
def _(vm, st, v, sub, a=None, b=None):
    r = SYM['rfind'](vm, st, v, sub, a, b)
    if vm.decide(st, F.c_eq_int(r, -1)):
        vm.throw(st, 'ValueError', 'substring not found')
    return r


@sym('replace')
def _(vm, st, v, a, b, count=-1):
    if count.__class__ is not int:
        raise Unsupported('replace with count')
    if count >= 0:
        if a.__class__ is S.SStr or not len(a):
            raise Unsupported('replace with count')
        out = []
        for i, p in enumerate(S.ssplit(vm, st, v, a, count)):
            if i:
                out.append(b)
            out.append(p)
        return S.mk(S.kind_of(v), out)
    return S.sreplace(v, a, b)


@sym('startswith')
def _(vm, st, v, p, a=None, b=None):
    if a is not None or b is not None:
        return affix(vm, st, 'startswith', v, p, a, b)
    if p.__class__ is tuple:
        for x in p:
            if vm.decide(st, SYM['startswith'](vm, st, v, x)):
                return True
        return False
    if p.__class__ is SStr:
        sg, sp = S.segs(v), p.segs
        if sg[:len(sp)] == sp:
            return True
        a, b = S._strip(list(sg), list(sp))
        if a is None:
            return False
        if not b:
            return True
        return T('startswith', (S.mk(S.kind_of(v), a), S.mk(S.kind_of(v), b)), 'bool')
    return S.startswith(vm, st, v, p)


def affix(vm, st, op, v, p, a, b):
    """startswith / endswith with a range"""
    if p.__class__ is tuple:
        for x in p:
            if vm.decide(st, affix(vm, st, op, v, x, a, b)):
                return True
        return False
    if S.kind_of(p) != S.kind_of(v):
        vm.throw(st, 'TypeError', op + ' first arg must be str or a tuple of str')
    if a is None:
        a = 0
    if b is None and a.__class__ is int and a == 0:
        return SYM[op](vm, st, v, p)
    return T(op, (v, p, a, b), 'bool')


@sym('endswith')
def _(vm, st, v, p, a=None, b=None):
    if a is not None or b is not None:
        return affix(vm, st, 'endswith', v, p, a, b)
    if p.__class__ is tuple:
        for x in p:
            if vm.decide(st, SYM['endswith'](vm, st, v, x)):
                return True
        return False
    sg, sp = list(S.segs(v)), list(S.segs(p))
    ra, rb = S._strip([S._rev(x) for x in reversed(sg)], [S._rev(x) for x in reversed(sp)])
    if ra is None:
        return False
    if not rb:
        return True
    A = S.mk(S.kind_of(v), [S._rev(x) for x in reversed(ra)])
    B = S.mk(S.kind_of(v), [S._rev(x) for x in reversed(rb)])
    if not ra:
        return False if any(x.__class__ in (str, bytes) for x in rb) else T('endswith', (A, B), 'bool')
    t = ra[0]
    if t.__class__ is Term and rb[0].__class__ in (str, bytes):
        p_ = props(t)
        if (p_.get('nonempty') or isinstance(p_.get('len'), int) and p_['len'] > 0) and \
                not S._atom_may_have(t, rb[0][:1]):
            return False
        if len(ra) == 1 and S.excl_sub(t, S._rev(rb[0])) and len(rb) == 1 and not S._may_partial(t):
            return False
    if len(rb) == 1 and rb[0].__class__ in (str, bytes):
        n, k = S.slen(A), len(rb[0])
        if vm.decide(st, F.c_lt(n, k)):
            return False
        return S.c_eq(S.prune(st, S.sslice(vm, st, A, ladd(n, -k), None)), B)
    return T('endswith', (A, B), 'bool')


def _may_partial(t):
    return False


S._may_partial = _may_partial


@sym('split')
def _(vm, st, v, sep=None, maxsplit=-1):
    if sep.__class__ is SStr:
        raise Unsupported('split by unknown text')
    if maxsplit == -1 and sep is not None and len(sep) == 1 and v.__class__ is SStr:
        try:
            S.find_all(v, sep)
        except Unsupported:
            return SplitV(v, sep)
    return N().new_list(vm, st, S.ssplit(vm, st, v, sep, maxsplit))


@sym('rsplit')
def _(vm, st, v, sep=None, maxsplit=-1):
    parts = S.ssplit(vm, st, v, sep, -1)
    if maxsplit >= 0 and len(parts) > maxsplit + 1:
        k = len(parts) - maxsplit
        head = parts[0]
        for p in parts[1:k]:
            head = S.mk(S.kind_of(v), [head, sep, p])
        parts = [head] + parts[k:]
    return N().new_list(vm, st, parts)


@sym('partition')
def _(vm, st, v, sep):
    p = S.find_known(vm, st, v, sep)
    z = S.lit0(S.kind_of(v))
    if p.__class__ is int and p == -1:
        return (v, z, z)
    return (S.sslice(vm, st, v, 0, p), sep, S.sslice(vm, st, v, ladd(p, len(sep)), None))


@sym('rpartition')
def _(vm, st, v, sep):
    p = S.find_known(vm, st, v, sep, True)
    z = S.lit0(S.kind_of(v))
    if p.__class__ is int and p == -1:
        return (z, z, v)
    return (S.sslice(vm, st, v, 0, p), sep, S.sslice(vm, st, v, ladd(p, len(sep)), None))


@sym('splitlines')
def _(vm, st, v, keepends=False):
    for s in v.segs:
        if s.__class__ is Term and not all(S.excludes(s, c) for c in '\r\n'):
            raise Unsupported('splitlines of unknown text')
    raise Unsupported('splitlines')


WS = ' \t\n\r\x0b\x0c'


def strip_side(vm, st, v, chars, left):
    kind = S.kind_of(v)
    if chars is None:
        chars = WS.encode() if kind == 'bytes' else WS
    sg = list(S.segs(v))
    if not left:
        sg.reverse()
    while sg:
        s = sg[0]
        if s.__class__ is not Term:
            t = s.lstrip(chars) if left else s.rstrip(chars)
            if t:
                sg[0] = t
                break
            sg.pop(0)
            continue
        cs = chars if isinstance(chars, str) else chars.decode('latin-1')
        if not any(S._atom_may_have(s, c) for c in cs) or props(s).get('stripped') and set(cs) <= set(WS):
            p = props(s)
            if not (p.get('nonempty') or isinstance(p.get('len'), int) and p['len'] > 0) and len(sg) > 1:
                if vm.decide(st, S.c_eq(S.atom(s), S.lit0(kind))):
                    sg.pop(0)
                    continue
            break
        if s.op == 'dec' and cs == '0':
            # trailing/leading zeros of a digit string
            x, w = s.args
            if left:
                if w == 0:
                    sg.pop(0)
                    continue
                k = w
                while k > 0 and vm.decide(st, F.c_lt(x, 10 ** (k - 1))):
                    k -= 1
                if k == 0:
                    sg.pop(0)
                    continue
                sg[0] = T('dec', (x, k), s.ty)
                break
            k = 0
            n = N()
            while k < w:
                q = n.floordiv(vm, st, x, 10 ** (k + 1)) if x.__class__ is Lin else x // 10 ** (k + 1)
                r = ladd(x, lmul(q, 10 ** (k + 1)), -1)
                if vm.decide(st, F.c_eq_int(r, 0)):
                    k += 1
                    continue
                break
            if k == w:
                sg.pop(0)
                continue
            q = x if k == 0 else n.floordiv(vm, st, x, 10 ** k)
            q = st.facts.fold(q) if q.__class__ is Lin else q
            sg[0] = T('dec', (q, w - k), s.ty)
            break
        if len(sg) == 1 or True:
            t = T('strip', (s, chars, 'l' if left else 'r'), s.ty)
            if len(sg) > 1 and not vm.decide(st, cnonempty(t)):
                sg.pop(0)
                continue
            sg[0] = t
            break
    if not left:
        sg.reverse()
    return S.mk(kind, sg)


def cnonempty(t):
    n = N()
    return n.cnot(S.c_eq(S.atom(t), S.lit0(t.ty)))


@sym('strip')
def _(vm, st, v, chars=None):
    return strip_side(vm, st, strip_side(vm, st, v, chars, True), chars, False)


@sym('lstrip')
def _(vm, st, v, chars=None):
    return strip_side(vm, st, v, chars, True)


@sym('rstrip')
def _(vm, st, v, chars=None):
    return strip_side(vm, st, v, chars, False)


@sym('removeprefix')
def _(vm, st, v, p):
    if vm.decide(st, SYM['startswith'](vm, st, v, p)):
        return S.sslice(vm, st, v, S.slen(p), None)
    return v


@sym('removesuffix')
def _(vm, st, v, p):
    if vm.decide(st, SYM['endswith'](vm, st, v, p)):
        return S.sslice(vm, st, v, 0, ladd(S.slen(v), S.slen(p), -1))
    return v


@sym('zfill')
def _(vm, st, v, w):
    n = S.slen(v)
    if n.__class__ is int:
        return v if n >= w else pad_text(vm, st, v, w, False, '0')
    if len(v.segs) == 1 and v.segs[0].op == 'decv':
        return int_fmt(vm, st, v.segs[0].args[0], '0', w)
    raise Unsupported('zfill')


@sym('ljust')
def _(vm, st, v, w, fill=' '):
    return pad_text(vm, st, v, w, True, fill)


@sym('rjust')
def _(vm, st, v, w, fill=' '):
    return pad_text(vm, st, v, w, False, fill)


@sym('count')
def _(vm, st, v, sub, a=None, b=None):
    if sub.__class__ is not SStr and a is None and b is None and len(sub):
        try:
            return len(S.find_all(v, sub))
        except Unsupported:
            pass
    return TI('scount', (v, sub, a or 0 if a.__class__ is not Lin else a, b), 0)


def pred(name):
    def f(vm, st, v):
        if name in ('isdigit', 'isdecimal', 'isnumeric') and all(
                x.__class__ is not Term and getattr(x, name)() or x.__class__ is Term and props(x).get('digits')
                and isinstance(props(x).get('len'), int) and props(x)['len'] > 0 for x in v.segs):
            return True
        for x in v.segs:
            if x.__class__ is not Term and name.startswith('is') and name not in ('istitle', 'islower', 'isupper', 'isidentifier') \
                    and not getattr(x, name)():
                return False
        return T('strpred', (name, v), 'bool')
    return f


for _n in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isdecimal', 'isnumeric', 'isascii', 'islower', 'isupper',
           'istitle', 'isprintable', 'isidentifier'):
    SYM[_n] = pred(_n)


def join_gen(vm, st, args, kw):
    n = N()
    sep = n.unwrap(st, args[0])
    kind = S.kind_of(sep)
    if args[1].__class__ is SplitV and kind == S.kind_of(args[1].text):
        return S.sreplace(args[1].text, args[1].sep, sep)
    items = yield Call(n.N_TUPLE, (args[1],))
    out = []
    for i, x in enumerate(items):
        x = n.unwrap(st, x)
        if x.__class__ is Term and x.ty not in vm.types:
            raise Unsupported('join %r' % (x,))
        if S.kind_of(x) != kind:
            vm.throw(st, 'TypeError', 'sequence item %d: expected %s instance' % (i, kind))
        if i:
            out.append(sep)
        out.append(x)
    return S.mk(kind, out)


def encode_m(vm, st, args, kw):
    n = N()
    v = n.unwrap(st, args[0])
    enc_ = args[1] if len(args) > 1 else kw.get('encoding', 'utf-8')
    errors = args[2] if len(args) > 2 else kw.get('errors', 'strict')
    if errors != 'strict':
        if v.__class__ is str:
            return v.encode(enc_, errors)
        if all(x.__class__ is str and x.isascii() or x.__class__ is Term and is_ascii(x) for x in v.segs):
            return do_encode(vm, st, v, enc_)
        return S.mk('bytes', [x.encode(enc_, errors) if x.__class__ is str else
                              T('encode_err', (x, enc_, errors), 'bytes') for x in v.segs])
    return do_encode(vm, st, v, enc_)


def decode_m(vm, st, args, kw):
    n = N()
    v = n.unwrap(st, args[0])
    enc_ = args[1] if len(args) > 1 else kw.get('encoding', 'utf-8')
    errors = args[2] if len(args) > 2 else kw.get('errors', 'strict')
    if errors != 'strict':
        if v.__class__ is bytes:
            return v.decode(enc_, errors)
        if all(x.__class__ is bytes and x.isascii() or x.__class__ is Term and is_ascii(x) for x in v.segs):
            return do_decode(vm, st, v, enc_)
        return S.mk('str', [x.decode(enc_, errors) if x.__class__ is bytes else
                            T('decode_err', (x, enc_, errors), 'str') for x in v.segs])
    return do_decode(vm, st, v, enc_)


def translate_m(vm, st, args, kw):
    n = N()
    v = n.unwrap(st, args[0])
    tab = args[1]
    if v.__class__ is not SStr:
        if tab.__class__ is bytes:
            return v.translate(tab, *args[2:])
        h = n.handle(vm, st, tab)
        if h is not None:
            d = {k: x for k, x in h.items()}
            if all(conc(x) for x in d.values()):
                return v.translate(d)
    elif S.kind_of(v) == 'str' and len(args) == 2:
        h = n.handle(vm, st, tab)
        d = {} if h is None else {k: x for k, x in h.items()}
        pairs = []
        for k, x in d.items():
            x = chr(x) if x.__class__ is int else '' if x is None else x
            if k.__class__ is not int or x.__class__ is not str:
                raise Unsupported('translate')
            pairs.append((chr(k), x))
        keys = {k for k, x in pairs}
        if pairs and not any(set(x) & keys for k, x in pairs):
            for k, x in pairs:
                v = S.sreplace(v, k, x)
            return v
    raise Unsupported('translate')


def install(vm):
    st = vm.st0
    for k in ('str', 'bytes'):
        a = st.get(vm.types[k]).attrs
        host = str if k == 'str' else bytes
        for m in HOST_METHODS:
            if hasattr(host, m):
                a[m] = method(m)
        a['join'] = Native('%s.join' % k, join_gen, True)
        a['translate'] = Native('%s.translate' % k, translate_m)
    st.get(vm.types['str']).attrs['encode'] = Native('str.encode', encode_m)
    st.get(vm.types['str']).attrs['format'] = Native('str.format', str_format_gen, True)
    st.get(vm.types['bytes']).attrs['decode'] = Native('bytes.decode', decode_m)


# ---------------------------------------------------------------- int() / float()
def int_of_text(vm, st, v, base=10):
    if v.__class__ in (str, bytes):
        try:
            return int(v, base)
        except ValueError as e:
            vm.throw(st, 'ValueError', str(e))
    sg = v.segs
    if base == 10 and all(s.__class__ is not Term and s.isdigit() or
                          s.__class__ is Term and (s.op == 'dec' or props(s).get('digits') and
                                                   isinstance(props(s).get('len'), int)) for s in sg):
        val = 0
        for s in sg:
            if s.__class__ is not Term:
                val = ladd(lmul(val, 10 ** len(s)), int(s))
            elif s.op == 'dec':
                val = ladd(lmul(val, 10 ** s.args[1]), s.args[0])
            else:
                w = props(s)['len']
                t = digits_int(s, w)
                val = ladd(lmul(val, 10 ** w), t)
        return val
    if base == 10 and len(sg) == 1 and sg[0].op == 'decv':
        return sg[0].args[0]
    if base == 10 and len(sg) == 2 and sg[0] in ('-', '+', b'-', b'+') and sg[1].__class__ is Term and \
            sg[1].op in ('dec', 'decv'):
        return lmul(sg[1].args[0], -1) if sg[0] in ('-', b'-') else sg[1].args[0]
    if base == 10 and sg and sg[0] in ('-', '+', b'-', b'+'):
        rest = S.mk(v.kind, sg[1:])
        if rest.__class__ is SStr and all(s.__class__ is not Term and s.isdigit() or s.__class__ is Term and
                                          props(s).get('digits') and isinstance(props(s).get('len'), int)
                                          for s in rest.segs):
            r = int_of_text(vm, st, rest)
            return lmul(r, -1) if sg[0] in ('-', b'-') else r
    # a string with a character that cannot occur in an integer literal
    for s in sg:
        if s.__class__ is not Term and base == 10:
            t = s if isinstance(s, str) else s.decode('latin-1')
            if any(not (c.isdigit() or c in '+-_' or c.isspace()) for c in t):
                vm.throw(st, 'ValueError', 'invalid literal for int()')
    if len(sg) == 1 and props(sg[0]).get('intlit'):
        return ivar(T('int', (v, base), 'int'))
    if vm.decide(st, T('isint', (v, base), 'bool')):
        return ivar(T('int', (v, base), 'int'))
    vm.throw(st, 'ValueError', 'invalid literal for int()')


def digits_int(s, w):
    t = T('int', (S.atom(s), 10), 'int')
    if t not in PROPS:
        PROPS[t] = dict(lo=0, hi=10 ** w - 1)
    return ivar(t)


def repr_gen_default(vm, st, args, kw):
    """object.__repr__ / BaseException.__repr__ called explicitly"""
    v = args[0]
    if v.__class__ is not Ref or st.get(v).data.__class__ is ClassData:
        r = yield Call(N_REPR, (v,))
        return r
    o = st.get(v)
    nm = vm.cname(st, o.cls)
    if st.get(o.cls).data.layout == 'exc':
        parts = []
        for x in o.attrs.get('args', ()):
            s = yield Call(N_REPR, (x,))
            parts.append(s)
        return join_repr(nm + '(', parts, ')')
    mod = st.get(o.cls).attrs.get('__module__', 'builtins')
    return S.mk('str', ['<', mod, '.', nm, ' object at 0x%x>' % obj_id(v)])


def repr_gen_any(vm, st, args, kw):
    r = yield Call(N_REPR, (args[0],))
    return r


def str_gen_base(vm, st, args, kw):
    v = args[0]
    a = st.get(v).attrs.get('args', ())
    if not a:
        return ''
    if len(a) == 1:
        r = yield Call(N_STR, (a[0],))
        return r
    r = yield Call(N_REPR, (a,))
    return r


def repr_gen_raw(vm, st, args, kw):
    """list.__repr__(x) etc. called explicitly"""
    v = args[0]
    n = N()
    if v.__class__ is Ref:
        lay = n.layout(vm, st, v)
        if lay == 'dict':
            r = yield from repr_dict(vm, st, v)
            return r
        if lay in ('list',):
            parts = []
            for x in (yield Do(lambda: tuple(st.get(v).data))):
                s = yield Call(N_REPR, (x,))
                parts.append(s)
            return join_repr('[', parts, ']')
        v = n.unwrap(st, v)
    r = yield Call(N_REPR, (v,))
    return r
