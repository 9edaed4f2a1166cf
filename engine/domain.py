"""Abstract values, conditions and abstract states."""
from .lin import Lin, L, Sym, sym, substlin, feasible, keystr, mk

# ------------------------------------------------------------------ values


class V(object):
    """immutable structured value: V(kind, *fields)"""
    __slots__ = ('k', 'a', '_h')

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self._h = hash((k, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, V) and self._h == o._h and self.k == o.k and self.a == o.a

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        if self.k == 'seq':
            return seqstr(self)
        return '%s%s' % (self.k, keystr(self.a) if self.a else '')


# kinds of values
#  ptr(loc) null psym(key)            pointers of every kind (raw, shared, unique, references)
#  weak(pointer)                      weak_ptr
#  iter(cont, idx, rev)               iterators and pointers to array elements
#  clo(fid, rec, caps)  fsym(key) fnptr(fid,name) nofn      callables
#  seq(segs)                          strings, vectors, deques, queues
#  rec(loc, recid)                    a record value (snapshot at loc)
#  term(op, args...)                  anything else
#  exc(name, payload)                 exception objects
NULL = V('null')
POISON = V('poison')
NOFN = V('nofn')
VOID = V('void')


def ptr(loc):
    return V('ptr', loc)


def psym(key):
    return V('psym', key)


def term(op, *args):
    return V('term', op, *args)


def it(cont, idx, rev=False):
    return V('iter', cont, L(idx), rev)


# sequence segments:
#  ('e', value)            one element
#  ('s', base, lo, hi)     base[lo..hi)            base: SBase
#  ('v', base, lo, hi)     base[hi-1], ..., base[lo]
#  ('r', value, n)         n times value
#  ('c', ksym, segs, n)    concatenation of segs for ksym = 0..n-1
#  ('l', id, loc, n)       what a loop appended (not expressible as the above)
class SBase(object):
    """an unknown immutable sequence; ek: kind of the elements ('char' or a type index)"""
    __slots__ = ('key', 'ek', 'len')
    _all = {}
    _last = {}

    def __repr__(self):
        return 'B' + keystr(self.key)

    def __lt__(self, o):
        return repr(self) < repr(o)


def sbase(key, ek, bounded=True):
    b = SBase._all.get((key, ek, bounded))
    if b is None:
        b = SBase()
        b.key, b.ek = key, ek
        b.len = sym(('len', key), 0, 2 ** 48 if bounded else 2 ** 62)
        SBase._all[(key, ek, bounded)] = b
        SBase._last[key] = b
    return b


def seq(*segs):
    return V('seq', tuple(segs))


EMPTY = seq()


def wholeseq(base):
    return seq(('s', base, L(0), L(base.len)))


def strseq(bs):
    return seq(*[('e', L(x - 256 if x > 127 else x)) for x in bs])


def seglen(s):
    k = s[0]
    if k == 'e':
        return L(1)
    if k in ('s', 'v'):
        return s[3] - s[2]
    if k == 'r':
        return s[2]
    if k == 'c':
        n = seqlen(s[2])
        if n.is_const():
            return s[3].scale(n.c)
        if s[3].is_const() and s[3].c == 1:
            return n
        return L(sym(('clen', s), 0, 2 ** 62))
    return s[3]


def seqlen(segs):
    r = L(0)
    for s in segs:
        r = r + seglen(s)
    return r


def segstr(s):
    if s[0] == 'e':
        v = s[1]
        if isinstance(v, Lin) and v.is_const():
            return repr(chr(v.c % 256))[1:-1]
        return '<%s>' % (v,)
    if s[0] in ('s', 'v'):
        return '%s[%s..%s)%s' % (s[1], s[2], s[3], 'rev' if s[0] == 'v' else '')
    if s[0] == 'r':
        return '%s*{%s}' % (s[1], s[2])
    if s[0] == 'c':
        return 'for %s<%s{%s}' % (s[1], s[3], ','.join(map(segstr, s[2])))
    return 'loop%s{%s}' % (keystr(s[1:3]), s[3])


def seqstr(v):
    out, cur = [], ''
    for s in v.a[0]:
        if s[0] == 'e' and isinstance(s[1], Lin) and s[1].is_const():
            cur += segstr(s)
        else:
            if cur:
                out.append('"%s"' % cur)
                cur = ''
            out.append(segstr(s))
    if cur:
        out.append('"%s"' % cur)
    return '[' + ' '.join(out) + ']'


# generic substitution of symbols inside values / keys ------------------------------------
def subst(x, f, memo=None):
    """rebuilds x replacing the symbols and V leaves for which f gives a replacement.
    f(Sym)->Lin|None ; f(V)->V|None"""
    if memo is None:
        memo = {}
    try:
        if x in memo:
            return memo[x]
    except TypeError:
        pass
    r = _subst(x, f, memo)
    try:
        memo[x] = r
    except TypeError:
        pass
    return r


def _subst(x, f, memo):
    if isinstance(x, Lin):
        r = L(x.c)
        same = True
        for s, k in x.t:
            e = _substsym(s, f, memo)
            if e is not s:
                same = False
            r = r + L(e).scale(k)
        return x if same else r
    if isinstance(x, Sym):
        return _substsym(x, f, memo)
    if isinstance(x, SBase):
        k = subst(x.key, f, memo)
        if k == x.key:
            return x
        return sbase(k, x.ek)
    if isinstance(x, V):
        r = f(x)
        if r is not None:
            return r
        a = tuple(subst(y, f, memo) for y in x.a)
        if x.k == 'seq':
            a = (normsegs(a[0]),)
        return x if a == x.a else V(x.k, *a)
    if isinstance(x, tuple):
        return tuple(subst(y, f, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(subst(y, f, memo) for y in x)
    return x


def _substsym(s, f, memo):
    r = f(s)
    if r is not None:
        return r
    if isinstance(s.key, tuple):
        k = subst(s.key, f, memo)
        if k != s.key:
            # an element of an explicit sequence etc. keeps the range
            return sym(k, s.lo, s.hi, s.fin)
    return s


def normsegs(segs):
    """canonical form: merges adjacent slices, drops empty segments, unfolds trivial comprehensions"""
    out = []
    for s in segs:
        if s[0] in ('s', 'v'):
            n = s[3] - s[2]
            if n.is_const() and n.c == 0:
                continue
        elif s[0] == 'r':
            if s[2].is_const():
                if s[2].c <= 0:
                    continue
                if s[2].c <= 64:
                    for _ in range(s[2].c):
                        out.append(('e', s[1]))
                    continue
        elif s[0] == 'c':
            if s[3].is_const() and s[3].c <= 0:
                continue
            if not s[2]:
                continue
            r = _comp(s)
            if r is not None:
                s = r
        elif s[0] == 'l':
            if s[3].is_const() and s[3].c == 0:
                continue
        if out:
            p = out[-1]
            if s[0] == 's':
                if p[0] == 's' and p[1] is s[1] and p[3] == s[2]:
                    out[-1] = ('s', s[1], p[2], s[3])
                    continue
                q = elemof(p)
                if q and q[0] is s[1] and q[1] + 1 == s[2]:
                    out[-1] = ('s', s[1], q[1], s[3])
                    continue
            elif s[0] == 'v' and p[0] == 'v' and p[1] is s[1] and p[2] == s[3]:
                out[-1] = ('v', s[1], s[2], p[3])
                continue
            elif s[0] == 'r' and p[0] == 'r' and p[1] == s[1]:
                out[-1] = ('r', s[1], p[2] + s[2])
                continue
            elif s[0] == 'e':
                q = elemof(s)
                if q and p[0] == 's' and p[1] is q[0] and p[3] == q[1]:
                    out[-1] = ('s', q[0], p[2], q[1] + 1)
                    continue
                q0 = elemof(p)
                if q and q0 and q0[0] is q[0] and q0[1] + 1 == q[1] and False:
                    out[-1] = ('s', q[0], q0[1], q[1] + 1)
                    continue
        out.append(s)
    # slices of length one are elements
    r = []
    for s in out:
        if s[0] in ('s', 'v'):
            n = s[3] - s[2]
            if n.is_const() and n.c == 1:
                s = ('e', elemval(s[1], s[2]))
        r.append(s)
    return tuple(r)


def _comp(s):
    """recognises comprehensions that are slices or repetitions"""
    _, k, segs, n = s
    if len(segs) != 1:
        return None
    x = segs[0]
    if x[0] == 'e':
        q = elemof(x)
        if q and isinstance(q[0], SBase):
            c = q[1].coef(k)
            a = Lin(q[1].c, tuple(p for p in q[1].t if p[0] is not k))
            if not mentions(q[0], k) and not mentions(a, k):
                if c == 1:
                    return ('s', q[0], a, a + n)
                if c == -1:
                    return ('v', q[0], a - n + 1, a + 1)
        if not mentions(x[1], k):
            return ('r', x[1], n)
    return None


def mentions(x, s):
    found = []

    def f(y):
        if y is s:
            found.append(1)
        return None
    subst(x, f)
    return bool(found)


def collect(x, pred):
    """the symbols inside x for which pred holds (unknown sequences only through their keys)"""
    found = []

    def f(y):
        if pred(y):
            found.append(y)
        return None
    subst(x, f)
    return found


def mentioned(x, pred):
    """the symbols (Sym, SBase keys, V) inside x for which pred holds"""
    found, seen = [], set()
    work = [x]
    while work:
        y = work.pop()
        if isinstance(y, (tuple, frozenset)):
            work += list(y)
            continue
        if not isinstance(y, (Lin, Sym, SBase, V)) or id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, Lin):
            work += list(y.syms())
            continue
        if pred(y):
            found.append(y)
        work += [y.key] if isinstance(y, (Sym, SBase)) else list(y.a)
    return found


def elemval(base, idx):
    """the element of an unknown sequence"""
    ek = base.ek
    idx = L(idx)
    if ek == 'char':
        return L(sym(('el', base, idx), fin=range(-128, 128)))
    if ek == 'uchar':
        return L(sym(('el', base, idx), fin=range(0, 256)))
    return ek.mk(('el', base, idx))


def elemof(seg):
    """(base, idx) when the one-element segment is an element of an unknown sequence"""
    if seg[0] != 'e':
        return None
    v = seg[1]
    if isinstance(v, Lin):
        s = v.single()
        if s is not None and isinstance(s.key, tuple) and len(s.key) == 3 and s.key[0] == 'el':
            return s.key[1], s.key[2]
        return None
    if v.k == 'seq' and len(v.a[0]) == 1 and v.a[0][0][0] == 's':
        _, b, lo, hi = v.a[0][0]
        if isinstance(b.key, tuple) and b.key[0] == 'el' and lo == L(0) and hi == L(b.len):
            return b.key[1], b.key[2]
        return None
    if v.k in ('psym', 'fsym') and isinstance(v.a[0], tuple) and v.a[0][0] == 'el':
        return v.a[0][1], v.a[0][2]
    return None


# ------------------------------------------------------------------ conditions
T = ('T',)
F = ('F',)


def cmp_(op, a, b):
    d = L(a) - L(b)
    if op == '<':
        return atom('le', d + 1)
    if op == '<=':
        return atom('le', d)
    if op == '>':
        return atom('le', -d + 1)
    if op == '>=':
        return atom('le', -d)
    if op == '==':
        return atom('eq', d)
    return atom('ne', d)


def atom(k, d):
    if not d.t:
        r = d.c <= 0 if k == 'le' else d.c == 0 if k == 'eq' else d.c != 0
        return T if r else F
    if len(d.t) == 1 and d.t[0][0].fin is not None:
        s, a = d.t[0]
        vs = frozenset(v for v in s.fin if (a * v + d.c <= 0 if k == 'le' else a * v + d.c == 0 if k == 'eq' else a * v + d.c != 0))
        return in_(s, vs)
    if k in ('eq', 'ne') and d.t[0][1] < 0:
        d = -d
    return (k, d)


def in_(s, vs):
    if not vs:
        return F
    if len(vs) == len(s.fin):
        return T
    return ('in', s, frozenset(vs))


def pred(*key):
    return ('p', key)


def neg(c):
    k = c[0]
    if k == 'T':
        return F
    if k == 'F':
        return T
    if k == 'in':
        return in_(c[1], c[1].fin - c[2])
    if k == 'le':
        return atom('le', -c[1] + 1)
    if k == 'eq':
        return atom('ne', c[1])
    if k == 'ne':
        return atom('eq', c[1])
    if k == 'p':
        return ('np', c[1])
    if k == 'np':
        return ('p', c[1])
    if k == 'and':
        return or_(*[neg(x) for x in c[1]])
    return and_(*[neg(x) for x in c[1]])


def and_(*cs):
    out, ins = [], {}
    for c in cs:
        for x in (c[1] if c[0] == 'and' else (c,)):
            if x == F:
                return F
            if x == T:
                continue
            if x[0] == 'in':
                s = x[1]
                if s in ins:
                    i = ins[s]
                    n = in_(s, out[i][2] & x[2])
                    if n == F:
                        return F
                    out[i] = n
                    continue
                ins[s] = len(out)
            if x not in out:
                out.append(x)
    if not out:
        return T
    return out[0] if len(out) == 1 else ('and', tuple(out))


def or_(*cs):
    out, ins = [], {}
    for c in cs:
        for x in (c[1] if c[0] == 'or' else (c,)):
            if x == T:
                return T
            if x == F:
                continue
            if x[0] == 'in':
                s = x[1]
                if s in ins:
                    i = ins[s]
                    n = in_(s, out[i][2] | x[2])
                    if n == T:
                        return T
                    out[i] = n
                    continue
                ins[s] = len(out)
            if x not in out:
                out.append(x)
    if not out:
        return F
    return out[0] if len(out) == 1 else ('or', tuple(out))


# ------------------------------------------------------------------ states


class Ev(object):
    """one abstract event of a path"""
    __slots__ = ('kind', 'name', 'obj', 'args', 'res', 'line', 'file', 'fn', 'x')

    def __init__(self, kind, name=None, obj=None, args=(), res=None, line=0, file='', fn='', x=None):
        self.kind, self.name, self.obj, self.args, self.res = kind, name, obj, args, res
        self.line, self.file, self.fn, self.x = line, file, fn, x

    def __repr__(self):
        if self.kind == 'loop':
            return 'loop@%s(%s,%s paths)' % (self.line, self.x.K, len(self.x.backs))
        r = self.kind
        if self.name:
            r += ' ' + str(self.name)
        if self.obj is not None:
            r += ' obj=%r' % (self.obj,)
        if self.args:
            r += ' args=(%s)' % ', '.join(map(repr, self.args))
        if self.res is not None:
            r += ' -> %r' % (self.res,)
        return '<%s @%s>' % (r, self.line)

    def at(self):
        return '%s:%s' % (self.file, self.line)


class State(object):
    __slots__ = ('store', 'dom', 'le', 'eq', 'ne', 'preds', 'events', 'elems', 'dyn', 'ver', 'cnt', 'notes', 'asm', 'guards', 'facts')

    def __init__(self):
        self.store = {}
        self.dom = {}
        self.le, self.eq, self.ne = [], [], []
        self.preds = {}
        self.events = []
        self.elems = {}
        self.dyn = {}
        self.ver = {}
        self.cnt = 0
        self.notes = []
        self.asm = []
        self.guards = []
        self.facts = ()

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.dom = dict(self.dom)
        s.le, s.eq, s.ne = list(self.le), list(self.eq), list(self.ne)
        s.preds = dict(self.preds)
        s.events = list(self.events)
        s.elems = dict(self.elems)
        s.dyn = dict(self.dyn)
        s.ver = dict(self.ver)
        s.cnt = self.cnt
        s.notes = list(self.notes)
        s.asm = list(self.asm)
        s.guards = list(self.guards)
        s.facts = self.facts
        return s

    def key(self, own=None, since=0):
        """equal keys: the same state reached by the same events"""
        ev = tuple((e.kind, e.name, e.obj, () if own is not None and e.x is own else e.args, e.res, e.line, e.fn, e.file, e.x if e.x is None or isinstance(e.x, frozenset) else getattr(e.x, 'skey', None) or id(e.x)) for e in (self.events[since:] if since else self.events))
        return (frozenset(self.store.items()), frozenset(self.dom.items()), frozenset(self.le), frozenset(self.eq), frozenset(self.ne), frozenset(self.preds.items()),
                ev, frozenset(self.ver.items()), tuple(self.guards), frozenset(self.dyn.items()), frozenset((k, repr(v)) for k, v in self.elems.items()), repr(self.facts))

    def fresh(self):
        self.cnt += 1
        return self.cnt

    def domof(self, s):
        d = self.dom.get(s)
        return d if d is not None else s.fin

    # ---- numeric queries
    def _component(self, lins):
        todo = set()
        for l in lins:
            todo.update(l.syms())
        seen = set()
        rows, eqs, nes = set(), set(), set()
        while todo:
            seen |= todo
            nxt = set()
            for coll, out in ((self.le, rows), (self.eq, eqs), (self.ne, nes)):
                for r in coll:
                    if r in out:
                        continue
                    for s, _ in r.t:
                        if s in seen:
                            out.add(r)
                            for q, _ in r.t:
                                if q not in seen:
                                    nxt.add(q)
                            break
            todo = nxt
        b = {}
        for s in seen:
            d = self.domof(s)
            if d is not None:
                b[s] = (min(d), max(d)) if d else (1, 0)
            else:
                b[s] = (s.lo, s.hi)
        return rows, eqs, nes, b

    def _feas(self, le=(), eq=()):
        rows, eqs, nes, b = self._component(list(le) + list(eq))
        return feasible(list(rows) + list(le), list(eqs) + list(eq), b)

    def can(self, c):
        """False only if the condition cannot hold in this state"""
        k = c[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'in':
            return bool(self.domof(c[1]) & c[2])
        if k == 'le':
            return self._feas(le=[c[1]])
        if k == 'eq':
            if c[1] in self.ne or -c[1] in self.ne:
                return False
            return self._feas(eq=[c[1]])
        if k == 'ne':
            if c[1] in self.eq:
                return False
            return self._feas(le=[c[1] + 1]) or self._feas(le=[-c[1] + 1])
        if k == 'p':
            return self.preds.get(c[1], True)
        if k == 'np':
            return not self.preds.get(c[1], False)
        return bool(self.copy().assume(c))

    def decide(self, c):
        """True / False when the condition is decided in this state, else None"""
        if c == T:
            return True
        if c == F:
            return False
        if not self.can(c):
            return False
        if not self.can(neg(c)):
            return True
        return None

    def entails(self, c):
        return not self.can(neg(c))

    def equal(self, a, b):
        d = L(a) - L(b)
        if not d.t:
            return d.c == 0
        return self.entails(cmp_('==', a, b))

    # ---- assumptions
    def assume(self, c, ev=None):
        """list of the states refining this one where c holds (consumes self)"""
        k = c[0]
        if k == 'T':
            return [self]
        if k == 'F':
            return []
        if k == 'in':
            s = c[1]
            d = self.domof(s) & c[2]
            if not d:
                return []
            if d != self.domof(s):
                self.dom[s] = d
                self.asm.append(c)
                if any(s is q for r in self.le for q, _ in r.t) or any(s is q for r in self.eq for q, _ in r.t):
                    if not self._feas(le=[L(s) - max(d)]):
                        return []
            return [self]
        if k == 'le':
            if not self._feas(le=[c[1]]):
                return []
            if not self._feas(le=[-c[1] + 1]):
                return [self]       # already known
            self.asm.append(c)
            self.le.append(c[1])
            return [self] if self._settle([c[1]]) else []
        if k == 'eq':
            if not self._feas(eq=[c[1]]):
                return []
            self.asm.append(c)
            self.eq.append(c[1])
            self._narrow(c[1])
            return [self] if self._settle([c[1]]) else []
        if k == 'ne':
            a, b = self._feas(le=[c[1] + 1]), self._feas(le=[-c[1] + 1])
            if not a and not b:
                return []
            self.asm.append(c)
            if a and b:
                self.ne.append(c[1])
            elif a:
                self.le.append(c[1] + 1)
            else:
                self.le.append(-c[1] + 1)
            return [self]
        if k in ('p', 'np'):
            v = self.preds.get(c[1])
            if v is not None:
                return [self] if v == (k == 'p') else []
            self.preds[c[1]] = (k == 'p')
            self.asm.append(c)
            self.events.append(Ev('assume', c[1][0], args=c[1][1:], res=(k == 'p')))
            return [self]
        if k == 'and':
            cur = [self]
            for x in c[1]:
                cur = [t for s in cur for t in s.assume(x)]
            return cur
        out, rem = [], [self]
        for i, x in enumerate(c[1]):
            last = i == len(c[1]) - 1
            nrem = []
            for s in rem:
                d = s.decide(x) if x[0] in ('le', 'eq', 'ne', 'in', 'p', 'np') else None
                if d is True:
                    out.append(s)
                elif d is False:
                    nrem.append(s)
                else:
                    out += (s if last else s.copy()).assume(x)
                    if not last:
                        nrem += s.assume(neg(x))
            rem = nrem
        return out

    def _narrow(self, e):
        """an equality on one finite symbol"""
        fs = [(s, k) for s, k in e.t if s.fin is not None]
        if len(fs) == 1 and len(e.t) == 1:
            s, k = fs[0]
            d = frozenset(v for v in self.domof(s) if k * v + e.c == 0)
            self.dom[s] = d

    def _settle(self, changed):
        if not self.ne:
            return True
        rows, eqs, nes, b = self._component(changed)
        for n in nes:
            x, y = self._feas(le=[n + 1]), self._feas(le=[-n + 1])
            if not x and not y:
                return False
            if not (x and y):
                self.ne = [m for m in self.ne if m != n]
                self.le.append(n + 1 if x else -n + 1)
        return True

    def split(self, c):
        """(states where c holds, states where it does not); consumes self"""
        d = self.decide(c)
        if d is True:
            return [self], []
        if d is False:
            return [], [self]
        o = self.copy()
        return self.assume(c), o.assume(neg(c))
