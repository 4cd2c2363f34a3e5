"""Fact store: what is known about unknown values on the current abstract state.

Domains: truth of opaque conditions, intervals of affine forms (with limited
relational closure), (dis)equalities of non-integers (congruence by value
number).  No solver: everything is a table lookup plus bounded closure.
"""
from math import gcd
from .values import *
from .values import _tkey

INF = None


def _same(a, b):
    return a is b or a.__class__ is Lin and b.__class__ is Lin and a.c == b.c and a.ts == b.ts


def _add(a, b):
    return None if a is None or b is None else a + b


def _scale(lo, hi, k):
    if k >= 0:
        return (None if lo is None else lo * k, None if hi is None else hi * k)
    return (None if hi is None else hi * k, None if lo is None else lo * k)


def _meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return lo, hi


def canon(d):
    """dict term->coef  ->  (ts, factor): d == factor * ts"""
    items = sorted(d.items(), key=_tkey) if len(d) > 1 else list(d.items())
    g = 0
    for _, k in items:
        g = gcd(g, k)
    if items[0][1] < 0:
        g = -g
    return tuple((t, k // g) for t, k in items), g


def c_le(a, b):
    """a <= b"""
    x = ladd(a, b, -1)
    if x.__class__ is int:
        return x <= 0
    d = dict(x.ts)
    ts, f = canon(d)
    # f*ts + c <= 0
    if f > 0:
        ub = (-x.c) // f
        return T('ub', (ts, ub), 'bool')      # ts <= ub
    lb = -((-x.c) // (-f))
    # -|f|*ts <= -c  => ts >= c/|f|  => ts >= ceil(c/|f|)
    lb = -((-x.c) // (-f))
    return T('lb', (ts, lb), 'bool')          # ts >= lb


def c_lt(a, b):
    return c_le(ladd(a, 1), b)


def c_eq_int(a, b):
    x = ladd(a, b, -1)
    if x.__class__ is int:
        return x == 0
    ts, f = canon(dict(x.ts))
    if (-x.c) % f:
        return False
    return T('ieq', (ts, (-x.c) // f), 'bool')


_empty_memo = {}
_div_memo = {}


def _div_row(t):
    """0 <= x - m*t <= m-1 for t = x // m"""
    r = _div_memo.get(t)
    if r is None:
        x, m = t.args
        c, d = lparts(x)
        d = dict(d)
        d[t] = d.get(t, 0) - m
        r = _div_memo[t] = (tuple(d.items()), (-c, m - 1 - c))
    return r



def _norm(d, c):
    """divide by the gcd; integers, so the bound is rounded down"""
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        d = {t: k // g for t, k in d.items()}
        c = c // g
    return frozenset(d.items()), c


def _empty(cons):
    """no integer (indeed no rational) solution of  sum(k*t) <= c ?"""
    key = frozenset(cons)
    r = _empty_memo.get(key)
    if r is None:
        if len(_empty_memo) > 100000:
            _empty_memo.clear()
        r = _empty_memo[key] = _eliminate(cons)
    return r


def _eliminate(cons):
    rows = {}
    for ts, c in cons:
        d = {}
        for t, k in ts:
            d[t] = d.get(t, 0) + k
        d = {t: k for t, k in d.items() if k}
        if not d:
            if c < 0:
                return True
            continue
        key, c = _norm(d, c)
        if key not in rows or rows[key] > c:
            rows[key] = c
    # equalities with a coefficient of one are substituted: exact on integers
    while True:
        hit = None
        for key, c in rows.items():
            neg = frozenset((t, -k) for t, k in key)
            o = rows.get(neg)
            if o is None:
                continue
            if o + c < 0:
                return True
            if o + c == 0:
                us = [t for t, k in key if k == 1 or k == -1]
                if us:
                    hit = (key, neg, c, min(us, key=lambda u: u.n))
                    break
        if hit is None:
            break
        key, neg, c, t = hit
        eq = dict(key)
        del rows[key], rows[neg]
        if eq[t] == -1:
            eq = {u: -k for u, k in eq.items()}
            c = -c
        del eq[t]                       # t == c - sum(eq)
        new = {}
        for row, rc in rows.items():
            d = dict(row)
            k = d.pop(t, None)
            if k is not None:
                for u, ku in eq.items():
                    d[u] = d.get(u, 0) - k * ku
                d = {u: ku for u, ku in d.items() if ku}
                rc = rc - k * c
                if not d:
                    if rc < 0:
                        return True
                    continue
                row, rc = _norm(d, rc)
            if row not in new or new[row] > rc:
                new[row] = rc
        rows = new
    while rows:
        occ = {}
        for key in rows:
            for t, k in key:
                p = occ.get(t)
                if p is None:
                    p = occ[t] = [0, 0, 0, 0]
                p[k > 0] += 1
                if k > 1:
                    p[3] += 1
                elif k < -1:
                    p[2] += 1
        # elimination is exact on integers where one of the two coefficients is 1
        t = min(occ, key=lambda u: (occ[u][2] * occ[u][3] / (occ[u][0] * occ[u][1] or 1),
                                    occ[u][0] * occ[u][1] - occ[u][0] - occ[u][1], u.n))
        pos, neg, new = [], [], {}
        for key, c in rows.items():
            d = dict(key)
            k = d.get(t)
            if k is None:
                new[key] = c
            elif k > 0:
                pos.append((d, c, k))
            else:
                neg.append((d, c, -k))
        if len(pos) * len(neg) + len(new) > 300:
            return False
        for d1, c1, k1 in pos:
            for d2, c2, k2 in neg:
                d = {u: k * k2 for u, k in d1.items()}
                for u, k in d2.items():
                    d[u] = d.get(u, 0) + k * k1
                d = {u: k for u, k in d.items() if k}
                c = c1 * k2 + c2 * k1
                if not d:
                    if c < 0:
                        return True
                    continue
                key, c = _norm(d, c)
                if key not in new or new[key] > c:
                    new[key] = c
        rows = new
    return False


class Facts:
    __slots__ = ('b', 'iv', 'ne', 'eq', 'memo', 'fd')

    def __init__(self):
        self.b = {}
        self.iv = {}
        self.ne = {}
        self.eq = []        # list of (a, b, bool)
        self.memo = {}      # bounds already computed from iv
        self.fd = {}        # first offset with which an expression was divided by a small constant

    def copy(self):
        f = Facts()
        f.b = dict(self.b)
        f.iv = dict(self.iv)
        f.ne = dict(self.ne)
        f.eq = list(self.eq)
        f.fd = self.fd
        f.memo = dict(self.memo) if len(self.memo) < 300 else {}
        return f

    # -------------------------------------------------- integers
    def atom_bounds(self, t, depth=2):
        p = PROPS.get(t)
        lo, hi = (p.get('lo'), p.get('hi')) if p else (None, None)
        if t.op == 'len':
            a = t.args[0]
            lo = _meet((lo, hi), (1 if props(a).get('nonempty') else 0, None))[0]
            mx = props(a).get('maxlen')
            if mx is not None:
                hi = mx if hi is None else min(hi, mx)
            if depth > 0:
                # encoding keeps emptiness: the length of one form bounds the other
                if a.op == 'encode' and a.args[1] in ('utf-8', 'ascii', 'latin-1'):
                    l2, h2 = self.bounds(lin(0, {T('len', (a.args[0],), 'int'): 1}), 0) if a.args[0].__class__ is Term else (0, None)
                    lo, hi = _meet((lo, hi), (l2, None if h2 is None else 4 * h2))
                else:
                    for enc in ('utf-8', 'ascii', 'latin-1'):
                        f = self.iv.get(((T('len', (T('encode', (a, enc), 'bytes'),), 'int'), 1),))
                        if f:
                            lo, hi = _meet((lo, hi), (None if f[0] is None else -(-f[0] // 4), f[1]))
        elif t.op == 'floordiv' and depth > 0:
            x, k = t.args
            l2, h2 = self.bounds(x, depth - 1)
            lo, hi = _meet((lo, hi), (None if l2 is None else l2 // k, None if h2 is None else h2 // k))
        f = self.iv.get(((t, 1),))
        if f:
            lo, hi = _meet((lo, hi), f)
        return lo, hi

    def bounds(self, x, depth=2):
        if x.__class__ is int or x.__class__ is bool:
            return int(x), int(x)
        if depth < 2 or x.__class__ is not Lin:
            return self.bounds_(x, depth)
        r = self.memo.get(x.ts)
        if r is None:
            r = self.memo[x.ts] = self.bounds_(Lin(0, x.ts), depth)
        return _add(r[0], x.c), _add(r[1], x.c)

    def bounds_(self, x, depth):
        c, d = lparts(x)
        best = (None, None)
        # sum of atoms
        lo, hi = c, c
        for t, k in d.items():
            l1, h1 = self.atom_bounds(t, depth)
            l1, h1 = _scale(l1, h1, k)
            lo, hi = _add(lo, l1), _add(hi, h1)
        best = (lo, hi)
        ts, f = canon(d)
        iv = self.iv.get(ts)
        if iv:
            l1, h1 = _scale(iv[0], iv[1], f)
            best = _meet(best, (_add(l1, c), _add(h1, c)))
        if depth > 0:
            # x//m1 - (m2/m1) * x//m2 is a remainder
            divs = [t for t in d if t.op == 'floordiv']
            if len(divs) > 1:
                for u in divs:
                    for t in divs:
                        m1, m2 = u.args[1], t.args[1]
                        if m2 > m1 and m2 % m1 == 0 and d[t] == -d[u] * (m2 // m1) and _same(t.args[0], u.args[0]):
                            d2 = dict(d)
                            del d2[t], d2[u]
                            l1, h1 = self.bounds(lin(c, d2), depth - 1)
                            rl, rh = _scale(0, m2 // m1 - 1, d[u])
                            best = _meet(best, (_add(l1, rl), _add(h1, rh)))
            # floordiv elimination: k*q = x - r, 0 <= r < k
            for t, k in list(d.items()):
                if t.op == 'floordiv':
                    y, m = t.args
                    if k % m == 0:
                        s = k // m
                        d2 = dict(d)
                        del d2[t]
                        rest = ladd(lin(c, d2), y, s)
                        l1, h1 = self.bounds(rest, depth - 1)
                        # minus s*r, r in [0,m-1]
                        rl, rh = _scale(0, m - 1, -s)
                        best = _meet(best, (_add(l1, rl), _add(h1, rh)))
            if best[0] is None or best[0] != best[1]:
                for fts, fiv in list(self.iv.items()):
                    if fts == ts or len(fts) < 2:
                        continue
                    for ft, fk in fts:
                        if ft in d and d[ft] % fk == 0:
                            s = d[ft] // fk
                            rest = ladd(lin(c, d), lin(0, dict(fts)), -s)
                            n = 0 if rest.__class__ is int else len(rest.ts)
                            if n > len(d):
                                continue
                            l1, h1 = self.bounds(rest, 0)
                            l2, h2 = _scale(fiv[0], fiv[1], s)
                            best = _meet(best, (_add(l1, l2), _add(h1, h2)))
                            break
        return best

    # convex polyhedra: emptiness by elimination, used when intervals do not decide
    def infeasible(self, ts, lo, hi):
        """True if  lo <= ts <= hi  contradicts the known (in)equalities"""
        multi = []
        divs, todo = set(), []
        for r, iv in self.iv.items():
            if len(r) > 1:
                multi.append((r, iv))
            todo.extend(t for t, _ in r if t.op == 'floordiv')
        todo.extend(t for t, _ in ts if t.op == 'floordiv')
        while todo:
            t = todo.pop()
            if t in divs:
                continue
            divs.add(t)
            row = _div_row(t)
            multi.append(row)
            todo.extend(u for u, _ in row[0] if u.op == 'floordiv')
        if len(divs) > 1:
            # x//m1 and x//(k*m1): the second is the first // k
            byx = {}
            for t in divs:
                byx.setdefault(t.args[0], []).append(t)
            for ds in byx.values():
                for a in ds:
                    for b in ds:
                        if b.args[1] > a.args[1] and b.args[1] % a.args[1] == 0:
                            k = b.args[1] // a.args[1]
                            multi.append((((a, 1), (b, -k)), (0, k - 1)))
        if not multi:
            return False
        comp = {t for t, _ in ts}
        rows, left, grew = [], multi, True
        while grew:
            grew = False
            rest = []
            for r, iv in left:
                if any(t in comp for t, _ in r):
                    comp.update(t for t, _ in r)
                    rows.append((r, iv))
                    grew = True
                else:
                    rest.append((r, iv))
            left = rest
        if not rows:
            return False
        cons = set()

        def put(r, l, h):
            if h is not None:
                cons.add((tuple(r), h))
            if l is not None:
                cons.add((tuple((t, -k) for t, k in r), -l))
        put(ts, lo, hi)
        for r, iv in rows:
            put(r, *iv)
        for t in comp:
            l, h = self.atom_bounds(t)
            put(((t, 1),), l, h)
        return _empty(cons)

    def contradictory(self):
        """no integers satisfy the known facts (checked where something is about to be reported)"""
        for ts, (lo, hi) in list(self.iv.items()):
            if lo is not None and hi is not None and lo > hi:
                return True
            holes = self.ne.get(ts)
            l2, h2 = self.bounds(Lin(0, ts))
            if l2 is not None and h2 is not None and (l2 > h2 or holes and h2 - l2 < 20
                                                      and all(v in holes for v in range(l2, h2 + 1))):
                return True
            if self.infeasible(ts, lo, hi):
                return True
        return False

    def fold(self, x):
        if x.__class__ is Lin:
            lo, hi = self.bounds(x)
            if lo is not None and lo == hi:
                return lo
        return x

    def decide_ge0(self, x):
        c = c_le(0, x)
        return c if c.__class__ is bool else self.decide(c) is True

    # -------------------------------------------------- decisions
    def decide(self, t):
        """True/False/None for a bool term"""
        op = t.op
        if op == 'not':
            r = self.decide(t.args[0])
            return None if r is None else not r
        if op == 'ub':
            ts, ub = t.args
            lo, hi = self.bounds(Lin(0, ts))
            if hi is not None and hi <= ub:
                return True
            if lo is not None and lo > ub:
                return False
            if self.infeasible(ts, ub + 1, None):
                return True
            if self.infeasible(ts, None, ub):
                return False
            return None
        if op == 'lb':
            ts, lb = t.args
            lo, hi = self.bounds(Lin(0, ts))
            if lo is not None and lo >= lb:
                return True
            if hi is not None and hi < lb:
                return False
            if self.infeasible(ts, None, lb - 1):
                return True
            if self.infeasible(ts, lb, None):
                return False
            return None
        if op == 'ieq':
            ts, v = t.args
            lo, hi = self.bounds(Lin(0, ts))
            if lo is not None and lo > v or hi is not None and hi < v:
                return False
            if lo is not None and lo == hi == v:
                return True
            if v in self.ne.get(ts, ()):
                return False
            if self.infeasible(ts, v, v):
                return False
            if (len(ts) > 1 or ts[0][0].op == 'floordiv') and self.infeasible(ts, v + 1, None) and self.infeasible(ts, None, v - 1):
                return True
            return None
        if op == 'eq':
            return self.decide_eq(*t.args)
        return self.b.get(t)

    def _classes(self, a, b):
        """closure of known equalities; returns set of values equal to a and to b"""
        def close(v):
            S = [v]
            ch = True
            while ch:
                ch = False
                for x, y, r in self.eq:
                    if r:
                        inx = any(same(x, s) for s in S)
                        iny = any(same(y, s) for s in S)
                        if inx != iny:
                            S.append(y if inx else x)
                            ch = True
            return S
        return close(a), close(b)

    def decide_eq(self, a, b):
        if same(a, b):
            return True
        A, B = self._classes(a, b)
        if any(same(x, b) for x in A):
            return True
        for x in A:
            for y in B:
                if is_const(x) and is_const(y) and not (x == y):
                    return False
                for p, q, r in self.eq:
                    if not r and (same(p, x) and same(q, y) or same(p, y) and same(q, x)):
                        return False
        return None

    def assume(self, t, val):
        """Add fact; False if contradictory."""
        d = self.decide(t)
        if d is not None:
            return d == val
        op = t.op
        if op == 'not':
            return self.assume(t.args[0], not val)
        if op == 'ub':
            ts, ub = t.args
            self._tight(ts, (None, ub) if val else (ub + 1, None))
        elif op == 'lb':
            ts, lb = t.args
            self._tight(ts, (lb, None) if val else (None, lb - 1))
        elif op == 'ieq':
            ts, v = t.args
            if val:
                self._tight(ts, (v, v))
            else:
                self.ne[ts] = self.ne.get(ts, frozenset()) | {v}
                lo, hi = self.bounds(Lin(0, ts))
                if lo == v:
                    self._tight(ts, (v + 1, None))
                elif hi == v:
                    self._tight(ts, (None, v - 1))
                elif len(ts) > 1 or ts[0][0].op == 'floordiv':
                    if self.infeasible(ts, None, v - 1):
                        self._tight(ts, (v + 1, None))
                    elif self.infeasible(ts, v + 1, None):
                        self._tight(ts, (None, v - 1))
        elif op == 'eq':
            self.eq.append((t.args[0], t.args[1], val))
        else:
            self.b[t] = val
        return True

    def _tight(self, ts, iv):
        self.memo = {}
        self.iv[ts] = _meet(self.iv.get(ts, (None, None)), iv)

    def describe(self):
        out = []
        for t, v in self.b.items():
            out.append('%s%r' % ('' if v else 'not ', t))
        for ts, (lo, hi) in self.iv.items():
            out.append('%s<= %r <=%s' % (lo, Lin(0, ts), hi))
        for ts, vs in self.ne.items():
            out.append('%r != %s' % (Lin(0, ts), sorted(vs)))
        for a, b, v in self.eq:
            out.append('%s %s %s' % (show(a), '==' if v else '!=', show(b)))
        return out

    def items(self):
        """canonical frozenset of facts, for comparison of states"""
        s = set()
        for t, v in self.b.items():
            s.add(('b', t, v))
        for k, v in self.iv.items():
            s.add(('iv', k, v))
        for k, v in self.ne.items():
            s.add(('ne', k, v))
        for a, b, v in self.eq:
            s.add(('eq', _hk(a), _hk(b), v))
        return frozenset(s)


from .values import _hk
