"""Segmented string domain."""
from .values import *
from . import facts as F


def lit0(kind):
    return b'' if kind == 'bytes' else ''


def kind_of(v):
    if v.__class__ is SStr:
        return v.kind
    if v.__class__ is str:
        return 'str'
    if v.__class__ is bytes:
        return 'bytes'
    return None


def segs(v):
    if v.__class__ is SStr:
        return v.segs
    return (v,) if v else ()


def mk(kind, parts):
    """normalise a list of segments into a value"""
    out = []
    for s in parts:
        if s.__class__ is SStr:
            for x in s.segs:
                _push(out, x)
        else:
            _push(out, s)
    if not out:
        return lit0(kind)
    if len(out) == 1 and out[0].__class__ in (str, bytes):
        return out[0]
    return SStr(kind, tuple(out))


def _push(out, s):
    if s.__class__ in (str, bytes):
        if not s:
            return
        if out and out[-1].__class__ is s.__class__:
            out[-1] = out[-1] + s
            return
        out.append(s)
        return
    if s.op == 'ssub':
        a, i, j = s.args
        if same(i, 0) and (j is None):
            s = a
        elif j is not None and same(i, j):
            return
    if out and out[-1].__class__ is Term:
        p = out[-1]
        if s.op == 'ssub' and p.op == 'ssub' and p.args[0] is s.args[0] and p.args[2] is not None \
                and same(p.args[2], s.args[1]):
            a = s.args[0]
            out.pop()
            _push(out, ssub(a, p.args[1], s.args[2]))
            return
    out.append(s)


def atom(t):
    return SStr(t.ty, (t,))


def ssub(a, i, j):
    """substring term of atom a"""
    if a.op == 'ssub':
        b, i0, j0 = a.args
        if j is None:
            j2 = j0
        else:
            j2 = ladd(i0, j)
        return ssub(b, ladd(i0, i), j2)
    n = atom_len(a)
    if j is not None and same(j, n):
        j = None
    if same(i, 0) and j is None:
        return a
    return T('ssub', (a, i, j), a.ty)


def slen(v):
    if v.__class__ is not SStr:
        return len(v)
    n = 0
    for s in v.segs:
        n = ladd(n, len(s) if s.__class__ in (str, bytes) else atom_len(s))
    return n


def concat(a, b):
    return mk(kind_of(a), [a, b])


def excludes(t, lit):
    """atom t surely shares no character with lit (so no overlap possible)"""
    p = props(t)
    if p.get('digits'):
        l = lit if isinstance(lit, str) else lit.decode('latin-1')
        return not any(c.isdigit() for c in l)
    ex = p.get('excl')
    if p.get('intlit') or p.get('intchars'):
        l = lit if isinstance(lit, str) else lit.decode('latin-1')
        return not any(c.isdigit() or c == '-' for c in l)
    if not ex:
        return False
    for i in range(len(lit)):
        ch = lit[i:i + 1]
        if not any(_same_ch(e, ch) for e in ex):
            return False
    return True


def excl_sub(t, lit):
    """atom surely does not contain lit as substring"""
    if excludes(t, lit):
        return True
    p = props(t)
    for e in p.get('excl', ()):
        if _same_ch(e, lit):
            return True
        if len(e) == 1 and any(_same_ch(e, lit[i:i + 1]) for i in range(len(lit))):
            return True
    if 'len' in p and isinstance(p['len'], int) and p['len'] < len(lit):
        return True
    return False


def _same_ch(a, b):
    if a.__class__ is b.__class__:
        return a == b
    if isinstance(a, bytes):
        a = a.decode('latin-1')
    if isinstance(b, bytes):
        b = b.decode('latin-1')
    return a == b


def _boundary_free(segs_, i, lit):
    """No occurrence of lit can straddle the boundaries of atom i (it excludes all of lit's chars at its edge)."""
    return excludes(segs_[i], lit)


def find_all(v, lit):
    """All non-overlapping occurrences: list of (segindex, offset). Only if decidable."""
    sg = segs(v)
    occ = []
    for i, s in enumerate(sg):
        if s.__class__ is Term:
            if len(lit) and not excludes(s, lit):
                if excl_sub(s, lit):
                    # may straddle: check neighbours
                    l, r = _edge_possible(sg, i, lit)
                    if l or r:
                        raise Unsupported('substring search %r may straddle unknown text %r' % (lit, s))
                else:
                    raise Unsupported('substring search %r in unknown text %r' % (lit, s))
        else:
            k = s.find(lit)
            while k != -1:
                occ.append((i, k))
                k = s.find(lit, k + len(lit))
    return occ


def _edge_possible(sg, i, lit):
    t = sg[i]
    left = right = False
    n = len(lit)
    # left: some suffix of preceding text equals lit[:k], atom begins with lit[k:]
    for k in range(1, n):
        if _atom_may_start(t, lit[k:]) and _may_end(sg, i - 1, lit[:k]):
            left = True
        if _atom_may_end(t, lit[:k]) and _may_start(sg, i + 1, lit[k:]):
            right = True
    return left, right


def _atom_may_have(t, s):
    p = props(t)
    if p.get('digits'):
        l = s if isinstance(s, str) else s.decode('latin-1')
        return all(c.isdigit() for c in l)
    for e in p.get('excl', ()):
        for i in range(len(s)):
            if len(e) == 1 and _same_ch(e, s[i:i + 1]):
                return False
    return True


def _atom_may_start(t, s):
    fx = props(t).get('nofirst')
    if fx and any(_same_ch(e, s[:1]) for e in fx):
        return False
    return _atom_may_have(t, s)


def _atom_may_end(t, s):
    return _atom_may_have(t, s)


def _may_end(sg, i, s):
    if i < 0:
        return False
    x = sg[i]
    if x.__class__ is Term:
        return _atom_may_have(x, s[-1:])
    if len(x) >= len(s):
        return x.endswith(s)
    return s.endswith(x)  # conservative


def _may_start(sg, i, s):
    if i >= len(sg):
        return False
    x = sg[i]
    if x.__class__ is Term:
        return _atom_may_have(x, s[:1])
    if len(x) >= len(s):
        return x.startswith(s)
    return s.startswith(x)


def offsets(v):
    out = []
    n = 0
    for s in segs(v):
        out.append(n)
        n = ladd(n, len(s) if s.__class__ in (str, bytes) else atom_len(s))
    out.append(n)
    return out


def prune(st, v):
    """without the unknown parts known to be empty"""
    if v.__class__ is not SStr:
        return v
    f = st.facts
    out, hit = [], False
    for s in v.segs:
        if s.__class__ is Term and any(_known0(f, x) for x in _like(s)):
            hit = True
            continue
        out.append(s)
    return mk(kind_of(v), out) if hit else v


def _like(s):
    """texts that are empty exactly if s is"""
    yield s
    if s.op in ('encode', 'decode'):
        yield s.args[0]
    elif s.ty == 'str':
        yield T('encode', (s, 'utf-8'), 'bytes')
    else:
        yield T('decode', (s, 'utf-8'), 'str')


def _known0(f, s):
    n = atom_len(s)
    if n.__class__ is Lin:
        n = f.fold(n)
    return n.__class__ is int and n == 0


def _zlen(segs_):
    """a length that is zero exactly if that of the segments is"""
    n = 0
    for s in segs_:
        while s.__class__ is Term and s.op in ('encode', 'decode'):
            s = s.args[0]
        n = ladd(n, len(s) if s.__class__ in (str, bytes) else atom_len(s))
    return n


def sfind(vm, st, v, lit, start=0, last=False):
    """position (value) or -1"""
    if start.__class__ is not int or start:
        rest = sslice(vm, st, v, start, None)
        r = sfind(vm, st, rest, lit, 0, last)
        if r.__class__ is int and r == -1:
            return -1
        return ladd(start, r)
    if v.__class__ is not SStr:
        return v.rfind(lit) if last else v.find(lit)
    if not last:
        # find the first: stop at first literal hit before undecidable atoms
        sg = v.segs
        off = 0
        for i, s in enumerate(sg):
            if s.__class__ is Term:
                if not excludes(s, lit):
                    if excl_sub(s, lit):
                        l, r = _edge_possible(sg, i, lit)
                        if l or r:
                            raise Unsupported('substring search %r may straddle %r' % (lit, s))
                    elif len(sg) == 1 or True:
                        raise Unsupported('substring search %r in unknown text %r' % (lit, s))
                off = ladd(off, atom_len(s))
            else:
                k = s.find(lit)
                if k != -1:
                    return ladd(off, k)
                off = ladd(off, len(s))
        return -1
    occ = find_all(v, lit)
    if not occ:
        return -1
    off = offsets(v)
    i, k = occ[-1]
    return ladd(off[i], k)


def sslice(vm, st, v, i, j):
    """v[i:j] with non-negative or negative (affine) ints"""
    f = st.facts
    if i.__class__ is Lin:
        i = f.fold(i)
    if j.__class__ is Lin:
        j = f.fold(j)
    if v.__class__ is not SStr and i.__class__ in (int, type(None)) and j.__class__ in (int, type(None)):
        return v[i:j]
    kind = kind_of(v)
    n = slen(v)
    if i is None:
        i = 0
    if j is not None and same(j, n):
        j = None
    if _neg(vm, st, i):
        i = ladd(n, i)
        if _neg(vm, st, i):
            i = 0
    if j is not None and _neg(vm, st, j):
        j = ladd(n, j)
        if _neg(vm, st, j):
            return lit0(kind)
    if same(i, 0) and j is None:
        return v
    right = cut(vm, st, v, i)[1]
    if j is None:
        return right
    return cut(vm, st, right, ladd(j, i, -1))[0]


def _neg(vm, st, x):
    if x.__class__ is int:
        return x < 0
    return vm.decide(st, F.c_lt(x, 0))


def cut(vm, st, v, pos):
    """split v at position pos (clamped)"""
    kind = kind_of(v)
    sg = segs(v)
    if pos.__class__ is int and pos <= 0:
        return lit0(kind), v
    if pos.__class__ is not int and vm.decide(st, F.c_le(pos, 0)):
        return lit0(kind), v
    for idx, s in enumerate(sg):
        n = len(s) if s.__class__ in (str, bytes) else atom_len(s)
        if same(pos, n):
            return mk(kind, sg[:idx + 1]), mk(kind, sg[idx + 1:])
        if pos.__class__ is int and n.__class__ is int:
            inside = pos < n
        else:
            inside = vm.decide(st, F.c_lt(pos, n))
        if inside:
            p = st.facts.fold(pos)
            if s.__class__ is Term:
                return (mk(kind, sg[:idx] + (ssub(s, 0, p),)),
                        mk(kind, (ssub(s, p, None),) + sg[idx + 1:]))
            if p.__class__ is not int:
                # unknown position in a literal: split by cases
                for k in range(0, n):
                    if vm.decide(st, F.c_eq_int(p, k)):
                        p = k
                        break
                else:
                    from .vm import PathEnd
                    raise PathEnd('infeasible')     # 0 <= p < n was established above
            return mk(kind, sg[:idx] + (s[:p],)), mk(kind, (s[p:],) + sg[idx + 1:])
        pos = ladd(pos, n, -1)
        if pos.__class__ is int and pos == 0:
            return mk(kind, sg[:idx + 1]), mk(kind, sg[idx + 1:])
    return v, lit0(kind)


def sreplace(v, a, b):
    kind = kind_of(v)
    if v.__class__ is not SStr and a.__class__ in (str, bytes) and b.__class__ in (str, bytes):
        return v.replace(a, b)
    if a.__class__ is SStr:
        raise Unsupported('replace with unknown text')
    if b.__class__ is SStr and not len(a):
        raise Unsupported('replace with unknown text')
    out = []
    sg = segs(v)
    for i, s in enumerate(sg):
        if s.__class__ is Term:
            if excludes(s, a):
                out.append(s)
            elif excl_sub(s, a) and not any(_edge_possible(sg, i, a)):
                out.append(s)
            elif b.__class__ is SStr:
                raise Unsupported('replace %r in unknown text' % (a,))
            elif len(a) == 1:
                out.append(replace_term(s, a, b))
            else:
                if len(sg) == 1:
                    out.append(replace_term(s, a, b))
                else:
                    raise Unsupported('replace %r in unknown text' % (a,))
        elif b.__class__ is SStr:
            for k, piece in enumerate(s.split(a)):
                if k:
                    out.extend(b.segs)
                out.append(piece)
        else:
            out.append(s.replace(a, b))
    return mk(kind, out)


def replace_term(t, a, b):
    if t.op == 'sreplace' and t.args[1] == b and t.args[2] == a and len(a) == len(b) == 1 \
            and excludes(t.args[0], a):
        return t.args[0]
    if t.op in ('title', 'lower', 'upper', 'swapcase') and not _alpha(a) and not _alpha(b) and len(a) == len(b) == 1 and t.op != 'title':
        inner = replace_term(t.args[0], a, b)
        return case_term(t.op, inner)
    return T('sreplace', (t, a, b), t.ty)


def _alpha(s):
    if isinstance(s, bytes):
        s = s.decode('latin-1')
    return s.lower() != s.upper()


def case_term(op, t):
    p = props(t)
    if p.get('digits') or p.get('intlit'):
        return t
    if t.op == op and op in ('lower', 'upper', 'casefold'):
        return t
    if t.op in ('upper', 'title', 'swapcase') and op == 'lower':
        return case_term('lower', t.args[0]) if (props(t.args[0]).get('ascii')) else T(op, (t,), t.ty)
    if op == 'lower' and p.get('lower'):
        return t
    return T(op, (t,), t.ty)


def scase(v, op):
    if v.__class__ is not SStr:
        return getattr(v, op)()
    out = []
    if op in ('title', 'capitalize') and len(v.segs) > 1:
        raise Unsupported('title of composite text')
    for s in v.segs:
        out.append(case_term(op, s) if s.__class__ is Term else getattr(s, op)())
    return mk(v.kind, out)


def find_known(vm, st, v, sep, last=False, unknown=True):
    """the position of sep, decided to be -1 or a valid position"""
    try:
        return sfind(vm, st, v, sep, 0, last)
    except Unsupported:
        if not unknown or not len(sep):
            raise
    p = TI('srfind' if last else 'sfind', (v, sep, 0, None), -1)
    if vm.decide(st, F.c_lt(p, 0)):
        return -1
    c = F.c_le(ladd(p, len(sep)), slen(v))
    if c.__class__ is Term:
        st.facts.assume(c, True)
    return p


def ssplit(vm, st, v, sep, maxsplit=-1):
    if v.__class__ is not SStr:
        return v.split(sep, maxsplit)
    kind = v.kind
    if sep is None:
        ws = [' ', '\t', '\n', '\r', '\x0b', '\x0c']
        parts = []
        cur = []
        for s in v.segs:
            if s.__class__ is Term:
                for w in ws:
                    if not excludes(s, w):
                        raise Unsupported('split of unknown text')
                cur.append(s)
            else:
                text = s
                pos = 0
                for k in range(len(text)):
                    if text[k:k + 1].isspace():
                        if k > pos:
                            cur.append(text[pos:k])
                        if cur and (maxsplit < 0 or len(parts) < maxsplit):
                            parts.append(mk(kind, cur))
                            cur = []
                        pos = k + 1
                if pos < len(text):
                    cur.append(text[pos:])
        if maxsplit >= 0:
            raise Unsupported('split(None, n)')
        if cur:
            parts.append(mk(kind, cur))
        for p_ in parts:
            if p_.__class__ is SStr and all(x.__class__ is Term and not props(x).get('nonempty') and
                                            not isinstance(props(x).get('len'), int) for x in p_.segs):
                raise Unsupported('split of possibly empty text')
        return parts
    parts = []
    rest = v
    while maxsplit < 0 or len(parts) < maxsplit:
        p = find_known(vm, st, rest, sep, unknown=len(parts) < 3)
        if p.__class__ is int and p == -1:
            break
        parts.append(sslice(vm, st, rest, 0, p))
        rest = sslice(vm, st, rest, ladd(p, len(sep)), None)
    parts.append(rest)
    return parts


def c_eq(a, b):
    """equality of two strings: True/False/Term"""
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb:
        return False
    if a.__class__ is not SStr and b.__class__ is not SStr:
        return a == b
    sa, sb = list(segs(a)), list(segs(b))
    sa, sb = _strip(sa, sb)
    if sa is None:
        return False
    ra, rb = _strip([_rev(x) for x in reversed(sa)], [_rev(x) for x in reversed(sb)])
    if ra is None:
        return False
    sa = [_unrev(x) for x in reversed(ra)]
    sb = [_unrev(x) for x in reversed(rb)]
    if not sa and not sb:
        return True
    # lengths
    la, lb = slen(mk(ka, sa)), slen(mk(ka, sb))
    if la.__class__ is int and lb.__class__ is int and la != lb:
        return False
    for x, y, ly in ((sa, sb, lb), (sb, sa, la)):
        if not x:
            if any(s.__class__ in (str, bytes) for s in y):
                return False
            if any(props(s).get('nonempty') or (isinstance(props(s).get('len'), int) and props(s)['len'] > 0)
                   for s in y):
                return False
            return F.c_eq_int(_zlen(y), 0)
    # single digits atom against literal
    for x, y in ((sa, sb), (sb, sa)):
        if len(x) == 1 and x[0].__class__ is Term:
            t = x[0]
            if len(y) == 1 and y[0].__class__ in (str, bytes):
                l = y[0]
                p = props(t)
                ls = l if isinstance(l, str) else l.decode('latin-1')
                if t.op == 'dec':
                    if len(ls) != t.args[1] or not (ls.isdigit() and ls.isascii()):
                        return False
                    return F.c_eq_int(t.args[0], int(ls))
                if t.op == 'decv':
                    try:
                        if str(int(ls)) != ls:
                            return False
                    except ValueError:
                        return False
                    return F.c_eq_int(t.args[0], int(ls))
                if not _atom_may_have(t, l):
                    return False
                n = p.get('len')
                if isinstance(n, int) and n != len(l):
                    return False
                if p.get('alts') is not None and ls not in p['alts']:
                    return False
                if p.get('ne') and any(_same_ch(e, l) for e in p['ne']):
                    return False
            if len(y) == 1 and y[0].__class__ is Term:
                u = y[0]
                if t.op == u.op == 'dec' and t.args[1] == u.args[1]:
                    return F.c_eq_int(t.args[0], u.args[0])
                if t.op == u.op == 'decv':
                    return F.c_eq_int(t.args[0], u.args[0])
                if t.op == u.op and t.op in ('encode', 'decode') and t.args[1:] == u.args[1:]:
                    return c_eq(atom(t.args[0]), atom(u.args[0]))
                if {t.op, u.op} == {'decv', 'dec'}:
                    pass
    A, B = mk(ka, sa), mk(ka, sb)
    if repr(A) > repr(B):
        A, B = B, A
    return T('eq', (A, B), 'bool')


class _R:
    __slots__ = ('s',)


def _rev(x):
    if x.__class__ in (str, bytes):
        return x[::-1]
    return x


_unrev = _rev


def _strip(sa, sb):
    """strip common prefix; (None, None) if surely different"""
    sa, sb = list(sa), list(sb)
    while sa and sb:
        x, y = sa[0], sb[0]
        if x.__class__ is Term and y.__class__ is Term:
            if x is y:
                sa.pop(0)
                sb.pop(0)
                continue
            break
        if x.__class__ is Term or y.__class__ is Term:
            # atom against literal: if the atom cannot start like that and is nonempty -> different
            t, l = (x, y) if x.__class__ is Term else (y, x)
            p = props(t)
            if (p.get('nonempty') or isinstance(p.get('len'), int) and p['len'] > 0) and not _atom_may_have(t, l[:1]):
                return None, None
            break
        k = min(len(x), len(y))
        if x[:k] != y[:k]:
            return None, None
        sa[0:1] = [x[k:]] if len(x) > k else []
        sb[0:1] = [y[k:]] if len(y) > k else []
    return sa, sb


def startswith(vm, st, v, lit):
    n = len(lit)
    if v.__class__ is not SStr:
        return v.startswith(lit)
    if not n:
        return True
    sg = v.segs
    s = sg[0]
    if s.__class__ in (str, bytes):
        if len(s) >= n:
            return s.startswith(lit)
        if not lit.startswith(s):
            return False
        return startswith(vm, st, mk(v.kind, sg[1:]), lit[len(s):])
    p = props(s)
    if (p.get('nonempty') or isinstance(p.get('len'), int) and p['len'] > 0) and not _atom_may_start(s, lit[:1]):
        return False
    if p.get('nopfx') and any(_same_ch(e[:n], lit[:len(e)]) for e in p['nopfx']):
        return False
    if vm.decide(st, F.c_lt(slen(v), n)):
        return False
    return c_eq(prune(st, sslice(vm, st, v, 0, n)), lit)


def encode_str(v, enc='utf-8'):
    if v.__class__ is str:
        return v.encode(enc)
    out = []
    for s in v.segs:
        if s.__class__ is str:
            out.append(s.encode(enc))
        elif s.op == 'decode' and s.args[1] == enc:
            out.append(s.args[0])
        elif s.op == 'dec' or s.op == 'decv':
            out.append(T(s.op, s.args, 'bytes'))
        elif s.op == 'ssub' and props(s.args[0]).get('ascii'):
            a = segs(encode_str(atom(s.args[0]), enc))[0]
            out.append(ssub(a, s.args[1], s.args[2]))
        elif s.op in ('lower', 'upper', 'title') and props(s.args[0]).get('ascii'):
            out.append(case_term(s.op, segs(encode_str(atom(s.args[0]), enc))[0]))
        elif s.op == 'sreplace' and s.args[1].isascii() and s.args[2].isascii():
            out.append(T('sreplace', (segs(encode_str(atom(s.args[0]), enc))[0],
                                      s.args[1].encode(enc), s.args[2].encode(enc)), 'bytes'))
        else:
            out.append(T('encode', (s, enc), 'bytes'))
    return mk('bytes', out)


def decode_bytes(v, enc='utf-8'):
    if v.__class__ is bytes:
        return v.decode(enc)
    out = []
    for s in v.segs:
        if s.__class__ is bytes:
            out.append(s.decode(enc))
        elif s.op == 'encode' and s.args[1] == enc:
            out.append(s.args[0])
        elif s.op == 'dec' or s.op == 'decv':
            out.append(T(s.op, s.args, 'str'))
        elif s.op == 'ssub' and props(s.args[0]).get('ascii'):
            a = segs(decode_bytes(atom(s.args[0]), enc))[0]
            out.append(ssub(a, s.args[1], s.args[2]))
        elif s.op in ('lower', 'upper', 'title') and props(s.args[0]).get('ascii'):
            out.append(case_term(s.op, segs(decode_bytes(atom(s.args[0]), enc))[0]))
        elif s.op == 'sreplace' and s.args[1].isascii() and s.args[2].isascii():
            out.append(T('sreplace', (segs(decode_bytes(atom(s.args[0]), enc))[0],
                                      s.args[1].decode(enc), s.args[2].decode(enc)), 'str'))
        else:
            out.append(T('decode', (s, enc), 'str'))
    return mk('str', out)
