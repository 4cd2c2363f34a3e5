"""Abstract regular-expression matching over segmented text.

The pattern is parsed by the standard library's parser; the abstract matcher
walks it with backtracking.  Unknown text contributes its character class
(digits of a formatted integer, ...); a test that is not implied by the class
splits the state.
"""
import re
import re._parser as sre
from .values import *
from . import strings as S
from .vm import NeedFork

DIG = frozenset('0123456789')


class Unit:
    __slots__ = ('term', 'dom', 'var')

    def __init__(self, term, dom, var=False):
        self.term = term
        self.dom = dom          # frozenset of possible characters or None
        self.var = var


def units(v):
    out = []
    for s in S.segs(v):
        if s.__class__ in (str, bytes):
            if s.__class__ is bytes:
                s = s.decode('latin-1')
            out.extend(s)
            continue
        p = props(s)
        n = atom_len(s)
        dom = DIG if p.get('digits') else None
        if n.__class__ is int:
            for i in range(n):
                out.append(Unit(S.ssub(s, i, i + 1), dom))
        else:
            out.append(Unit(s, dom, True))
    return out


def word(c):
    return c.isalnum() or c == '_'


CATS = {
    sre.CATEGORY_DIGIT: lambda c: c.isdigit(), sre.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
    sre.CATEGORY_SPACE: lambda c: c.isspace(), sre.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sre.CATEGORY_WORD: word, sre.CATEGORY_NOT_WORD: lambda c: not word(c),
}


class Matcher:
    def __init__(self, vm, st, pattern, flags, text):
        self.vm, self.st = vm, st
        self.text = text
        self.kind = S.kind_of(text)
        self.tree = sre.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.u = units(text)
        self.n = len(self.u)

    def charpred(self, op, av):
        ic = self.flags & re.I
        if op is sre.LITERAL:
            ch = chr(av)
            if ic:
                return lambda c: c.lower() == ch.lower()
            return lambda c: c == ch
        if op is sre.NOT_LITERAL:
            ch = chr(av)
            return lambda c: c != ch
        if op is sre.ANY:
            if self.flags & re.S:
                return lambda c: True
            return lambda c: c != '\n'
        if op is sre.IN:
            neg = av and av[0][0] is sre.NEGATE
            items = av[1:] if neg else av

            def pred(c):
                cs = {c, c.lower(), c.upper()} if ic else {c}
                hit = False
                for o, a in items:
                    for x in cs:
                        if o is sre.LITERAL and ord(x) == a or o is sre.RANGE and a[0] <= ord(x) <= a[1] or \
                                o is sre.CATEGORY and CATS[a](x):
                            hit = True
                return hit != neg
            return pred
        return None

    def test(self, i, op, av):
        """character unit i satisfies the predicate"""
        u = self.u[i]
        p = self.charpred(op, av)
        if u.__class__ is str:
            return p(u)
        if u.dom is not None:
            hits = frozenset(c for c in u.dom if p(c))
            if len(hits) == len(u.dom):
                return True
            if not hits:
                return False
            if u.var:
                raise Unsupported('regular expression over unknown text')
            return self.vm.decide(self.st, T('chin', (u.term, tuple(sorted(hits))), 'bool'))
        pr = props(u.term)
        if op is sre.LITERAL and S.excludes(u.term, chr(av)):
            return False
        if op is sre.ANY and (self.flags & re.S or S.excludes(u.term, '\n')):
            return True
        if u.var:
            raise Unsupported('regular expression over unknown text')
        return self.vm.decide(self.st, T('chin', (u.term, (repr(op), repr(av), bool(self.flags & re.I))), 'bool'))

    def isword(self, i):
        if not 0 <= i < self.n:
            return False
        u = self.u[i]
        if u.__class__ is str:
            return word(u)
        if u.dom is not None:
            return True
        raise Unsupported('word boundary at unknown text')

    def m(self, seq, k, i, g):
        """generator of (end, groups) for items seq[k:] from unit i"""
        if k == len(seq):
            yield i, g
            return
        op, av = seq[k]
        if op in (sre.LITERAL, sre.NOT_LITERAL, sre.ANY, sre.IN):
            if i < self.n:
                u = self.u[i]
                if u.__class__ is Unit and u.var:
                    raise Unsupported('regular expression over text of unknown length')
                if self.test(i, op, av):
                    yield from self.m(seq, k + 1, i + 1, g)
            return
        if op is sre.SUBPATTERN:
            gid, add, dele, sub = av
            for j, g2 in self.m(list(sub), 0, i, g):
                g3 = g2
                if gid is not None:
                    g3 = dict(g2)
                    g3[gid] = (i, j)
                yield from self.m(seq, k + 1, j, g3)
            return
        if op is sre.BRANCH:
            for alt in av[1]:
                for j, g2 in self.m(list(alt), 0, i, g):
                    yield from self.m(seq, k + 1, j, g2)
            return
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT, sre.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(n, i, g):
                greedy = op is not sre.MIN_REPEAT
                if not greedy and n >= lo:
                    yield i, g
                if hi is sre.MAXREPEAT or n < hi:
                    if len(sub) == 1 and i < self.n and self.u[i].__class__ is Unit and self.u[i].var and \
                            sub[0][0] in (sre.LITERAL, sre.NOT_LITERAL, sre.ANY, sre.IN):
                        if hi is not sre.MAXREPEAT:
                            raise Unsupported('regular expression over text of unknown length')
                        if self.test(i, *sub[0]):
                            yield from rep(lo, i + 1, g)
                            return
                    else:
                        for j, g2 in self.m(sub, 0, i, g):
                            if j == i:
                                continue
                            yield from rep(n + 1, j, g2)
                if greedy and n >= lo:
                    yield i, g
            for j, g2 in rep(0, i, g):
                yield from self.m(seq, k + 1, j, g2)
            return
        if op is sre.AT:
            ok = None
            if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                ok = i == 0
                if av is sre.AT_BEGINNING and self.flags & re.M and i > 0:
                    ok = self.u[i - 1] == '\n'
            elif av is sre.AT_END_STRING:
                ok = i == self.n
            elif av is sre.AT_END:
                ok = i == self.n or (i == self.n - 1 and self.u[i].__class__ is str and self.u[i] == '\n')
                if self.flags & re.M and i < self.n:
                    ok = ok or self.u[i] == '\n'
            elif av in (sre.AT_BOUNDARY, sre.AT_NON_BOUNDARY):
                ok = self.isword(i - 1) != self.isword(i)
                if av is sre.AT_NON_BOUNDARY:
                    ok = not ok
            else:
                raise Unsupported('regular expression %r' % (av,))
            if ok:
                yield from self.m(seq, k + 1, i, g)
            return
        if op in (sre.ASSERT, sre.ASSERT_NOT):
            d, sub = av
            if d < 0:
                hit = False
                for s in range(i, -1, -1):
                    if any(j == i for j, _ in self.m(list(sub), 0, s, g)):
                        hit = True
                        break
                g2 = g
            else:
                g2 = None
                for j, gg in self.m(list(sub), 0, i, g):
                    g2 = gg
                    break
                hit = g2 is not None
                g2 = g2 if g2 is not None else g
            if hit == (op is sre.ASSERT):
                yield from self.m(seq, k + 1, i, g2)
            return
        if op is sre.GROUPREF_EXISTS:
            gid, a, b = av
            sub = list(a) if gid in g else list(b or ())
            for j, g2 in self.m(sub, 0, i, g):
                yield from self.m(seq, k + 1, j, g2)
            return
        if op is sre.GROUPREF:
            if av in g:
                a, b = g[av]
                n = b - a
                x, y = self.sub(a, b), self.sub(i, i + n) if i + n <= self.n else None
                if y is not None and same(x, y):
                    yield from self.m(seq, k + 1, i + n, g)
            return
        if op is sre.ATOMIC_GROUP:
            for j, g2 in self.m(list(av), 0, i, g):
                yield from self.m(seq, k + 1, j, g2)
                return
            return
        raise Unsupported('regular expression %r' % (op,))

    def sub(self, a, b):
        parts = []
        for x in self.u[a:b]:
            if x.__class__ is str:
                parts.append(x if self.kind == 'str' else x.encode('latin-1'))
            else:
                parts.append(x.term)
        r = S.mk(self.kind, [p if p.__class__ in (str, bytes) else S.atom(p) for p in parts])
        return r

    def off(self, i):
        n = 0
        for x in self.u[:i]:
            n = ladd(n, 1 if x.__class__ is str else atom_len(x.term))
        return n

    def run(self, mode, start=0):
        starts = [start] if mode != 'search' else range(start, self.n + 1)
        for s in starts:
            for j, g in self.m(list(self.tree), 0, s, {}):
                if mode == 'fullmatch' and j != self.n:
                    continue
                g = dict(g)
                g[0] = (s, j)
                ng = self.tree.state.groups
                return tuple((self.sub(*g[k]), self.off(g[k][0]), self.off(g[k][1])) if k in g else None
                             for k in range(ng))
        return None


def n_re_match(vm, st, args, kw):
    """re_match(pattern, flags, text, mode, pos) -> None or tuple of (group, start, end)"""
    pat, flags, text, mode, pos = args
    from . import natives as N
    text = N.unwrap(st, text)
    if S.kind_of(text) is None:
        vm.throw(st, 'TypeError', 'expected string or bytes-like object')
    if pat.__class__ is SStr or flags.__class__ is not int:
        raise Unsupported('unknown pattern')
    if (pat.__class__ is str) != (S.kind_of(text) == 'str'):
        vm.throw(st, 'TypeError', 'cannot use a string pattern on a bytes-like object')
    if text.__class__ in (str, bytes):
        try:
            p = re.compile(pat, flags)
        except re.error as e:
            raise Unsupported('bad pattern %s' % e)
        m = getattr(p, mode)(text, pos)
        if m is None:
            return None
        return tuple(None if m.start(k) < 0 else (m.group(k), m.start(k), m.end(k)) for k in range(p.groups + 1))
    m = Matcher(vm, st, pat, flags, text)
    start = 0
    if pos.__class__ is not int or pos:
        for start in range(m.n + 1):
            if same(m.off(start), pos):
                break
        else:
            n = m.off(m.n)
            if n.__class__ is int and pos.__class__ is int and pos > n:
                return None
            raise Unsupported('re with pos')
    return m.run(mode, start)


def n_re_info(vm, st, args, kw):
    """re_info(pattern, flags) -> (groups, ((name, index), ...))"""
    pat, flags = args
    if pat.__class__ not in (str, bytes):
        raise Unsupported('unknown pattern')
    try:
        p = re.compile(pat, flags)
    except re.error as e:
        return None
    return (p.groups, tuple(p.groupindex.items()), p.flags)
