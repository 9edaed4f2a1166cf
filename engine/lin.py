"""Affine integer expressions over interned symbols and the polyhedral domain
(conjunctions of affine inequalities) with Fourier-Motzkin projection used as
the emptiness test of an abstract state."""
from functools import reduce
from math import gcd

_syms = {}


class Sym(object):
    """An unknown integer. `key` is a structured name; lo/hi its intrinsic range."""
    __slots__ = ('key', 'lo', 'hi', 'n', 'fin')

    def __repr__(self):
        return 'S' + keystr(self.key)

    def __lt__(self, o):
        return self.n < o.n

    def __reduce__(self):
        return (sym, (self.key, self.lo, self.hi, self.fin))


def keystr(k):
    if isinstance(k, tuple):
        return '(' + ','.join(keystr(x) for x in k) + ')'
    return str(k)


def sym(key, lo=None, hi=None, fin=None):
    """fin: the finite set of values of the symbol, when there is one"""
    k = (key, lo, hi, fin if fin is None else (min(fin), max(fin), len(fin)))
    s = _syms.get(k)
    if s is None:
        s = Sym()
        s.key = key
        s.n = len(_syms)
        if fin is not None:
            fin = frozenset(fin)
            lo, hi = min(fin), max(fin)
        s.lo, s.hi, s.fin = lo, hi, fin
        _syms[k] = s
    return s


class Lin(object):
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return mk(self.c + o.c, d)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def __neg__(self):
        return self.scale(-1)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, a * k) for s, a in self.t))

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for x, k in self.t:
            if x is s:
                return k
        return 0

    def single(self):
        """the symbol when this is exactly one symbol"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def __repr__(self):
        r = ['%s%s' % ('' if k == 1 else '-' if k == -1 else str(k) + '*', s) for s, k in self.t]
        if self.c or not r:
            r.append(str(self.c))
        return '+'.join(r).replace('+-', '-')


def mk(c, d):
    return Lin(c, tuple(sorted((s, k) for s, k in d.items() if k != 0)))


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin(int(x))
    return Lin(0, ((x, 1),))


def substlin(l, s, e):
    k = l.coef(s)
    if k == 0:
        return l
    return Lin(l.c, tuple(p for p in l.t if p[0] is not s)) + e.scale(k)


# ---------------------------------------------------------------- polyhedra

ROWCAP = 300
stats = {'fm': 0, 'abort': 0}
_cache = {}


def _norm(row):
    """tightens c + sum a x <= 0 over the integers; None when trivially true, False when false"""
    if not row.t:
        return False if row.c > 0 else None
    g = reduce(gcd, (abs(k) for _, k in row.t))
    if g > 1:
        return Lin(-((-row.c) // g), tuple((s, k // g) for s, k in row.t))
    return row


def feasible(rows, eqs, bounds):
    """rows: Lin<=0, eqs: Lin==0, bounds: sym->(lo,hi). False only when there is no integer solution."""
    key = (frozenset(rows), frozenset(eqs), frozenset(bounds.items()))
    r = _cache.get(key)
    if r is None:
        stats['fm'] += 1
        r = _feasible(list(rows), list(eqs), bounds)
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = r
    return r


def _feasible(rows, eqs, bounds):
    for s, (lo, hi) in bounds.items():
        if lo is not None and hi is not None and lo > hi:
            return False
        if lo is not None:
            rows.append(Lin(lo, ((s, -1),)))
        if hi is not None:
            rows.append(Lin(-hi, ((s, 1),)))
    # equalities
    eqs = list(eqs)
    while eqs:
        e = eqs.pop()
        if not e.t:
            if e.c != 0:
                return False
            continue
        g = reduce(gcd, (abs(k) for _, k in e.t))
        if e.c % g:
            return False
        if g > 1:
            e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        p = None
        for s, k in e.t:
            if abs(k) == 1:
                p = (s, k)
                break
        if p is None:
            rows.append(e)
            rows.append(-e)
            continue
        s, k = p
        rest = Lin(e.c, tuple(q for q in e.t if q[0] is not s)).scale(-k)
        eqs = [substlin(x, s, rest) for x in eqs]
        rows = [substlin(x, s, rest) for x in rows]
    cur = set()
    for r in rows:
        r = _norm(r)
        if r is False:
            return False
        if r is not None:
            cur.add(r)
    while cur:
        cur = _prune(cur)
        # choose the variable
        pos, neg = {}, {}
        for r in cur:
            for s, k in r.t:
                (pos if k > 0 else neg).setdefault(s, []).append(r)
        best = None
        for s in set(pos) | set(neg):
            cost = len(pos.get(s, ())) * len(neg.get(s, ())) - len(pos.get(s, ())) - len(neg.get(s, ()))
            if best is None or (cost, s.n) < best[:2]:
                best = (cost, s.n, s)
        if best is None:
            return True
        s = best[2]
        P, N = pos.get(s, []), neg.get(s, [])
        nxt = set(r for r in cur if r.coef(s) == 0)
        for a in P:
            for b in N:
                ka, kb = a.coef(s), -b.coef(s)
                r = _norm(a.scale(kb) + b.scale(ka))
                if r is False:
                    return False
                if r is not None:
                    nxt.add(r)
        if len(nxt) > ROWCAP:
            stats['abort'] += 1
            return True
        cur = nxt
    return True


def _prune(rows):
    best = {}
    for r in rows:
        b = best.get(r.t)
        if b is None or r.c > b:
            best[r.t] = r.c
    return set(Lin(c, t) for t, c in best.items())
