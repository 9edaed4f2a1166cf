"""Abstract interpreter over the extracted program: path-partitioned abstract states,
inlined calls, loops by fixpoint (see loops.py), library calls by models (see models.py)."""
from .lin import L, Lin, sym
from .domain import *
from .domain import V, State, Ev, T, F
from .program import strip, fieldkey, TK

sys_limit = __import__('sys').setrecursionlimit(20000)


class Budget(Exception):
    pass


class Fr(object):
    __slots__ = ('id', 'this', 'f', 'caps', 'locs', 'depth', 'parent')

    def __init__(self, id, this, f, depth, parent=None):
        self.id, self.this, self.f, self.depth = id, this, f, depth
        self.caps = {}
        self.locs = {}
        self.parent = parent


class Policy(object):
    """what the environment may do; checks override"""
    throw_kinds = ()          # exception class names user callbacks may throw ('other': not an std::exception)
    opaque = ()               # stripped names of functions treated as events
    unroll = 0                # passes of a loop that are executed one by one before it is summarised
    watch = False             # call on_load for every read

    def on_load(self, I, st, loc):
        pass

    def throws(self, ev):
        """the exceptions this unknown call may throw"""
        return self.throw_kinds

    def on_event(self, I, st, ev):
        """called after an unknown/user call: returns the list of possible states"""
        return [st]

    def on_store(self, I, st, loc, v):
        """called for every write when watching"""

    def on_lock(self, I, st, m, ev):
        """a mutex is about to be held: other threads may have changed what it protects"""

    def hook(self, I, st, fr, name, e, obj, args):
        """may handle the call: returns a list of (state, value) or None"""
        return None


# the values the front end folds, read through a reference
OPENMODE = {'std::ios_base::' + n: v for n, v in (('app', 1), ('ate', 2), ('binary', 4), ('in', 8), ('out', 16), ('trunc', 32))}


class Interp(object):
    MAXSTATES = 6000
    MAXDEPTH = 60

    def __init__(self, prog, pol=None):
        self.p = prog
        self.pol = pol or Policy()
        self.sink = []
        self.ubs = []
        self.stack = []
        self.frid = 0
        self.steps = 0
        self.maxsteps = 3000000
        self.loops = []
        self.fnseen = set()
        self.loctk = {}
        self.loopid = 0
        self.poison, self.poisoned = {}, set()
        from . import models, loops
        self.models = models.MODELS
        self.loopmod = loops

    # ------------------------------------------------------------ helpers
    def with_sink(self, f):
        old = self.sink
        self.sink = []
        try:
            r = f()
            return r, self.sink
        finally:
            self.sink = old

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget exhausted')

    def ub(self, st, kind, bad, e, detail=None):
        """obligation: `bad` must be impossible; returns the states where it does not happen"""
        d = st.decide(bad)
        if d is False:
            return [st]
        s = st.copy()
        for x in s.assume(bad):
            self.ubs.append((kind, self.curfn(), e.get('l') if isinstance(e, dict) else e, x, detail))
        if d is True:
            return []
        return st.assume(neg(bad))

    def curfn(self):
        return self.stack[-1] if self.stack else None

    def event(self, st, kind, name=None, obj=None, args=(), res=None, e=None, x=None):
        f = self.curfn()
        ev = Ev(kind, name, obj, tuple(args), res, (e.get('l', 0) if isinstance(e, dict) else e or 0), f['file'] if f else '', f['n'] if f else '', x)
        st.events.append(ev)
        return ev

    def locking(self, st, kind, m, e):
        """a mutex is locked or unlocked; the policy may forget what other threads change"""
        ev = self.event(st, kind, None, m, e=e)
        if kind == 'lock':
            self.pol.on_lock(self, st, m, ev)
        st.store[('held', m)] = T if kind == 'lock' else F

    def note(self, st, *n):
        if n not in st.notes:
            st.notes.append(n)

    # ------------------------------------------------------------ store
    def load(self, st, loc, tk):
        if self.pol.watch:
            self.pol.on_load(self, st, loc)
        v = st.store.get(loc)
        if v is not None:
            if v is POISON:
                self.poisoned.add(loc)
                v = self.poison[loc]
                st.store[loc] = v
            return v
        if isinstance(loc[-1], tuple) and loc[-1] and loc[-1][0] == '[]':
            return self.seq_at(st, self.load_seq(st, loc[:-1], None), loc[-1][1], tk)
        if tk is None:
            return term('untyped', loc)
        v = self.lazy(st, loc, tk)
        st.store[loc] = v
        return v

    def lazykey(self, st, loc):
        ver = 0
        if st.ver:
            for i in range(1, len(loc) + 1):
                n = st.ver.get(loc[:i])
                if n:
                    ver = max(ver, n)
        return ('init', loc, ver) if ver else ('init', loc)

    def lazy(self, st, loc, tk):
        if loc[0] == 'g' and len(loc) == 2 and loc[1] in OPENMODE:
            return L(OPENMODE[loc[1]])
        if tk.k in ('rec', 'lam'):
            return V('rec', loc, tk.rec)
        key = self.lazykey(st, loc)
        if loc[0] == 'buf' and len(loc) == 2:
            return wholeseq(sbase(('buf',) + loc[1:], 'char', bounded=False))
        if tk.k == 'seq' and tk.t['k'] == 'array':
            n = tk.t.get('n')
            b = sbase(key, tk.elemkind())
            return seq(('s', b, L(0), L(n if n is not None else b.len)))
        if tk.k == 'opq':
            return term('obj', loc)
        if tk.k == 'guard':
            return term('guardsym', loc)
        v = tk.mk(key)
        return v

    def load_seq(self, st, loc, tk):
        if self.pol.watch:
            self.pol.on_load(self, st, loc)
        v = st.store.get(loc)
        if v is not None and v.k == 'seq':
            return v
        if v is None:
            if loc[0] == 'buf' and len(loc) == 2:
                v = wholeseq(sbase(('buf',) + loc[1:], 'char', bounded=False))
                st.store[loc] = v
                return v
            if isinstance(loc[-1], tuple) and loc[-1] and loc[-1][0] == '[]':
                v = self.seq_at(st, self.load_seq(st, loc[:-1], None), loc[-1][1], tk)
                if isinstance(v, V) and v.k == 'seq':
                    return v
            if tk is not None:
                v = self.load(st, loc, tk)
                if isinstance(v, V) and v.k == 'seq':
                    return v
        v = wholeseq(sbase(('init', loc, 'untyped'), 'char'))
        self.note(st, 'untyped sequence', repr(loc))
        return v

    def put(self, st, loc, v):
        if self.pol.watch:
            self.pol.on_store(self, st, loc, v)
        if isinstance(loc[-1], tuple) and loc[-1] and loc[-1][0] == '[]':
            self.seq_put(st, loc[:-1], loc[-1][1], v)
            return
        st.store[loc] = v

    def havoc(self, st, loc, tk=None):
        """forgets everything stored at and below loc"""
        for k in [k for k in st.store if k[:len(loc)] == loc]:
            del st.store[k]
        st.ver[loc] = st.fresh()

    def newroot(self, st):
        return ('n', st.fresh())

    def resolve(self, st, loc):
        """object loc of an element holding a record"""
        if isinstance(loc[-1], tuple) and loc[-1] and loc[-1][0] == '[]':
            v = self.load(st, loc, None)
            if isinstance(v, V) and v.k == 'rec':
                return v.a[0]
        return loc

    def store_val(self, st, loc, v):
        """stores a (possibly record) value at loc"""
        if isinstance(v, V) and v.k == 'rec':
            src = v.a[0]
            if src == loc:
                return
            if isinstance(loc[-1], tuple) and loc[-1] and loc[-1][0] == '[]':
                r = self.newroot(st)
                self.copy_tree(st, r, src)
                self.put(st, loc, V('rec', r, v.a[1]))
                return
            self.copy_rec(st, loc, src, v.a[1])
        else:
            self.put(st, loc, v)

    def copy_tree(self, st, dst, src):
        n = len(src)
        for k in [k for k in st.store if k[:n] == src]:
            st.store[dst + k[n:]] = st.store[k]

    def copy_rec(self, st, dst, src, rid):
        fields = self.p.allfields(rid) if rid is not None else []
        if self.p.rec(rid) and strip(self.p.rec(rid)['n']) == 'std::pair':
            a = [x['t'] for x in self.p.types[self.p.rectk[rid]].get('a', [])]
            fields = [('pair::first', {'t': a[0]}), ('pair::second', {'t': a[1]})]
        for fk, f in fields:
            tk = self.p.tk(f['t'])
            v = self.load(st, src + (fk,), tk)
            if isinstance(v, V) and v.k == 'rec' and v.a[0] != src + (fk,):
                self.store_val(st, dst + (fk,), v)
            elif tk.k in ('rec', 'lam'):
                self.copy_rec(st, dst + (fk,), src + (fk,), tk.rec)
            elif v is not None:
                st.store[dst + (fk,)] = v
        if not fields:
            self.copy_tree(st, dst, src)

    # ------------------------------------------------------------ sequences
    def canon_idx(self, st, base, idx):
        """reuses an index known to be equal"""
        idx = L(idx)
        l = st.elems.get(base, ())
        if idx in l:
            return idx
        for j in l:
            d = j - idx
            if d.t and st.equal(j, idx):
                return j
        st.elems[base] = l + (idx,)
        for b, lo, hi, j, c in st.facts:
            if b is base and st.entails(and_(cmp_('>=', idx, lo), cmp_('<', idx, hi))):
                r = st.assume(subst(c, lambda y: idx if y is j else None))
                if len(r) == 1:
                    if r[0] is not st:
                        self.become(st, r[0])
        return idx

    def seg_at(self, st, seg, off):
        """the element at offset off of a segment"""
        k = seg[0]
        if k == 'e':
            return seg[1]
        if k == 's':
            return elemval(seg[1], self.canon_idx(st, seg[1], seg[2] + off))
        if k == 'v':
            return elemval(seg[1], self.canon_idx(st, seg[1], seg[3] - 1 - off))
        if k == 'r':
            return seg[1]
        if k == 'c' and len(seg[2]) == 1 and seg[2][0][0] == 'e':
            return subst(seg[2][0][1], lambda y: L(off) if y is seg[1] else None)
        return None

    def split_seq(self, st, segs, idx):
        """[(state, left, right)]: cuts a sequence at idx (0 <= idx <= length assumed)"""
        idx = L(idx)
        work = [(st, 0, L(0))]
        out = []
        while work:
            self.tick()
            s, i, off = work.pop()
            if i == len(segs):
                out.append((s, segs, ()))
                continue
            d = idx - off
            if d == L(0) or s.equal(idx, off):
                out.append((s, segs[:i], segs[i:]))
                continue
            n = seglen(segs[i])
            if d == n:
                out.append((s, segs[:i + 1], segs[i + 1:]))
                continue
            ge = cmp_('>=', idx, off + n)
            a, b = s.split(ge)
            for x in a:
                work.append((x, i + 1, off + n))
            for x in b:
                # off <= idx < off+n ; idx == off possible
                z, nz = x.split(cmp_('==', idx, off))
                for y in z:
                    out.append((y, segs[:i], segs[i:]))
                for y in nz:
                    out.append((y,) + self.cut(segs, i, idx - off))
        return out

    def cut(self, segs, i, o):
        s = segs[i]
        if s[0] == 's':
            a, b = (('s', s[1], s[2], s[2] + o),), (('s', s[1], s[2] + o, s[3]),)
        elif s[0] == 'v':
            a, b = (('v', s[1], s[3] - o, s[3]),), (('v', s[1], s[2], s[3] - o),)
        elif s[0] == 'r':
            a, b = (('r', s[1], o),), (('r', s[1], s[2] - o),)
        elif s[0] == 'e':
            a, b = (s,), ()
        else:
            k1 = ('part', s, o)
            ek = 'char'
            a = (('l', k1, 'a', o),)
            b = (('l', k1, 'b', seglen(s) - o),)
        return segs[:i] + a, b + segs[i + 1:]

    def seq_sub(self, st, v, lo, hi):
        """[(state, seq)] the subsequence lo..hi"""
        out = []
        for s, a, b in self.split_seq(st, v.a[0], lo):
            for s2, c, d in self.split_seq(s, b, L(hi) - L(lo)):
                out.append((s2, V('seq', normsegs(c))))
        return out

    def seq_at_all(self, st, v, idx, tk):
        """[(state, element)]"""
        segs = v.a[0]
        if len(segs) == 1:
            r = self.seg_at(st, segs[0], L(idx))
            if r is not None:
                return [(st, r)]
        out = []
        work = [(st, 0, L(0))]
        idx = L(idx)
        while work:
            s, i, off = work.pop()
            if i == len(segs):
                if tk is not None:
                    out.append((s, self.elem_unknown(s, tk)))
                continue
            n = seglen(segs[i])
            a, b = s.split(cmp_('<', idx, off + n))
            for x in a:
                r = self.seg_at(x, segs[i], idx - off)
                if r is None:
                    r = self.elem_unknown(x, tk, ('elof', segs[i], idx - off))
                out.append((x, r))
            for x in b:
                work.append((x, i + 1, off + n))
        return out

    def elem_unknown(self, st, tk, key=None):
        if tk is None:
            return L(sym(key or ('unkel', st.fresh()), fin=range(-128, 128)))
        return tk.mk(key or ('unkel', st.fresh()))

    def seq_at(self, st, v, idx, tk):
        """the element at idx; when several segments are possible an unknown one"""
        r = self.seq_at_all(st.copy(), v, idx, tk)
        if len(r) == 1:
            self.become(st, r[0][0])
            return r[0][1]
        vals = set(x for _, x in r)
        if len(vals) == 1:
            return vals.pop()
        self.note(st, 'imprecise element')
        return self.elem_unknown(st, tk)

    def seq_put(self, st, loc, idx, v):
        s = self.load_seq(st, loc, None)
        idx = L(idx)
        off = L(0)
        for i, g in enumerate(s.a[0]):
            n = seglen(g)
            if g[0] in ('s', 'v', 'r', 'l', 'c') and len(s.a[0]) <= 8 and st.entails(cmp_('>=', idx, off)) and st.entails(cmp_('<', idx, off + n)):
                # inside this segment, wherever: what is left of it before may be empty
                left, right = self.cut(s.a[0], i, idx - off)
                if right and not st.equal(idx, off):
                    l2, r2 = self.cut(right, 0, L(1)) if seglen(right[0]) != L(1) else (right[:1], right[1:])
                    st.store[loc] = V('seq', normsegs(left + (('e', v),) + r2))
                    return
            off = off + n
        r = []
        for s1, a, b in self.split_seq(st.copy(), s.a[0], idx):
            for s2, c, d in self.split_seq(s1, b, 1):
                r.append((s2, V('seq', normsegs(a + (('e', v),) + d))))
        if len(r) == 1:
            # keep the refinements of the only possibility
            self.become(st, r[0][0])
            st.store[loc] = r[0][1]
            return
        g = s.a[0][0] if s.a[0] else None
        if g is not None and g[0] in ('s', 'v') and not idx.t and idx.c == 0 and st.entails(cmp_('<', L(0), seglen(g))):
            left, right = self.cut(s.a[0], 0, L(1))
            st.store[loc] = V('seq', normsegs((('e', v),) + right))
            return
        self.note(st, 'imprecise element store')
        st.store[loc] = wholeseq(sbase(('upd', st.fresh()), 'char'))

    def become(self, st, o):
        for a in State.__slots__:
            setattr(st, a, getattr(o, a))

    # ------------------------------------------------------------ pointers
    def deref(self, st, v, e, what='pointer'):
        """[(state, loc)]"""
        if v.k == 'ptr':
            return [(st, v.a[0])]
        if v.k == 'psym':
            c = pred('nonnull', v)
            return [(s, ('o', v.a[0])) for s in self.ub(st, 'null', neg(c), e, v)]
        if v.k == 'null':
            self.ub(st, 'null', T, e, v)
            return []
        if v.k == 'iter':
            return [(st, v.a[0] + (('[]', self.iter_index(v)),))] if not v.a[2] else [(st, v.a[0] + (('[]', v.a[1] - 1),))]
        if v.k == 'rec':
            return [(st, v.a[0])]
        return [(st, ('o', ('deref', v)))]

    def iter_index(self, v):
        return v.a[1]

    def nonnull(self, v):
        if v.k in ('ptr', 'iter', 'clo', 'fnptr', 'rec'):
            return T
        if v.k in ('null', 'nofn'):
            return F
        if v.k == 'psym':
            return pred('nonnull', v)
        if v.k == 'fsym':
            return pred('nonempty', v)
        return pred('truth', v)

    def ptreq(self, a, b):
        if a == b:
            return T
        if a.k == 'null':
            return neg(self.nonnull(b))
        if b.k == 'null':
            return neg(self.nonnull(a))
        if a.k == 'ptr' and b.k == 'ptr':
            la, lb = a.a[0], b.a[0]
            if len(la) == len(lb) and la[:-1] == lb[:-1] and isinstance(la[-1], tuple) and isinstance(lb[-1], tuple) and la[-1][:1] == ('[]',) == lb[-1][:1]:
                return cmp_('==', la[-1][1], lb[-1][1])
            if la[0] == 'n' or lb[0] == 'n' or la[0] == 'v' or lb[0] == 'v':
                return F
            if la != lb and la[0] == lb[0] == 'o' and len(la) == len(lb) == 2 and isinstance(la[1], str) and isinstance(lb[1], str):
                return F            # objects named by a check are different ones
        if a.k == 'iter' and b.k == 'iter':
            if a.a[0] == b.a[0]:
                return cmp_('==', a.a[1], b.a[1])
        if a.k == 'psym' and b.k == 'ptr' and b.a[0] == ('o', a.a[0]):
            return self.nonnull(a)
        if b.k == 'psym' and a.k == 'ptr' and a.a[0] == ('o', b.a[0]):
            return self.nonnull(b)
        for x, y in ((a, b), (b, a)):
            if x.k == 'ptr' and x.a[0][0] in ('n', 'v') and y.k == 'psym':
                return F
        if repr(b) < repr(a):
            a, b = b, a
        return pred('peq', a, b)

    # ------------------------------------------------------------ expressions
    def ev(self, st, fr, e):
        """[(state, value-or-loc)]; locations for glvalues"""
        self.tick()
        return getattr(self, 'e_' + e['k'])(st, fr, e)

    def evs(self, st, fr, es):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(s, fr, e):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def rv(self, st, fr, e):
        """[(state, value)]: the value of an expression, loading class-type lvalues"""
        if e.get('lv'):
            tk = self.p.tk(e['t'])
            return [(s, self.load(s, l, tk)) for s, l in self.ev(st, fr, e)]
        return self.ev(st, fr, e)

    def cond(self, st, fr, e):
        """[(state, Cond)]"""
        return [(s, self.tocond(s, v)) for s, v in self.rv(st, fr, e)]

    def tocond(self, st, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, Lin):
            return cmp_('!=', v, 0)
        return self.nonnull(v)

    def toint(self, st, v):
        """[(state, Lin)]"""
        if isinstance(v, Lin):
            return [(st, v)]
        if isinstance(v, tuple):
            if v == T:
                return [(st, L(1))]
            if v == F:
                return [(st, L(0))]
            if v[0] == 'in' and v[1].fin == frozenset((0, 1)):
                return [(st, L(v[1]) if v[2] == frozenset((1,)) else L(1) - L(v[1]))]
            a, b = st.split(v)
            return [(s, L(1)) for s in a] + [(s, L(0)) for s in b]
        return [(st, L(sym(('int', v))))]

    def e_int(self, st, fr, e):
        v = int(e['v'])
        if self.p.types[e['t']]['k'] == 'bool':
            return [(st, T if v else F)]
        return [(st, L(v))]

    def e_float(self, st, fr, e):
        return [(st, term('float', e['v']))]

    def e_null(self, st, fr, e):
        return [(st, NULL)]

    def e_zero(self, st, fr, e):
        tk = self.p.tk(e['t'])
        d = tk.default()
        if d is None and tk.k in ('rec',):
            r = self.newroot(st)
            self.zero_rec(st, r, tk.rec)
            return [(st, V('rec', r, tk.rec))]
        return [(st, d if d is not None else term('zero', e['t']))]

    def zero_rec(self, st, loc, rid):
        for fk, f in self.p.allfields(rid):
            tk = self.p.tk(f['t'])
            d = tk.default()
            if d is not None:
                st.store[loc + (fk,)] = d

    def e_str(self, st, fr, e):
        loc = ('str', tuple(e['v']))
        if loc not in st.store:
            st.store[loc] = strseq(list(e['v']) + [0])
        return [(st, loc)]

    def varloc(self, fr, i):
        l = fr.caps.get(i)
        if l is not None:
            return l
        l = fr.locs.get(i)
        if l is not None:
            return l
        return ('v', fr.id, i)

    def e_ref(self, st, fr, e):
        if 'g' in e:
            i = e['id']
            if i in fr.locs:
                loc = fr.locs[i]
            else:
                loc = ('g', e['g'])
            g = self.p.vars.get(str(i))
            if loc not in st.store and g and g.get('init') is not None and self.p.types[g['t']].get('c'):
                out = []
                for s in self.init(st, fr, loc, self.p.tk(g['t']), g['init']):
                    out.append((s, loc))
                st = None
                return self.refloc(out, e)
            return self.refloc([(st, loc)], e)
        if e['id'] in fr.caps:
            # what a capture refers to (or its copy), also when the variable was a reference
            return [(st, fr.caps[e['id']])]
        return self.refloc([(st, self.varloc(fr, e['id']))], e)

    def refloc(self, outs, e):
        tk = self.p.tk(e['dt'])
        if tk.k != 'ref':
            return outs
        r = []
        for s, loc in outs:
            v = self.load(s, loc, tk)
            if isinstance(v, V) and v.k == 'ptr':
                r.append((s, v.a[0]))
            elif isinstance(v, V) and v.k == 'iter':
                r.append((s, v.a[0] + (('[]', v.a[1]),)))
            else:
                r.append((s, ('o', ('ref', v))))
        return r

    def e_this(self, st, fr, e):
        return [(st, ptr(fr.this))]

    def e_mem(self, st, fr, e):
        out = []
        rec = self.p.rec(e['fr'])
        fk = fieldkey(rec, e['fn'], e['fi'])
        outs = []
        for s, b in self.ev(st, fr, e['b']):
            if e['arrow']:
                outs += self.deref(s, b, e)
            elif isinstance(b, tuple):
                outs.append((s, b))
            elif isinstance(b, V) and b.k == 'rec':
                outs.append((s, b.a[0]))
            else:
                outs.append((s, ('o', ('val', b))))
        outs = [(s, self.resolve(s, b) + (fk,)) for s, b in outs]
        tk = self.p.tk(e['dt'])
        for _, l in outs:
            self.loctk.setdefault(l, tk)
        return self.refloc(outs, e)

    def e_mref(self, st, fr, e):
        return [(st, term('mref', e.get('n')))]

    def e_fref(self, st, fr, e):
        return [(st, V('fnptr', e['f'], e['n']))]

    def e_load(self, st, fr, e):
        tk = self.p.tk(e['t'])
        out = []
        for s, loc in self.ev(st, fr, e['e']):
            if not isinstance(loc, tuple):
                out.append((s, loc))
                continue
            if isinstance(loc[-1], tuple) and loc[-1] and loc[-1][0] == '[]' and loc not in s.store:
                cont = self.load_seq(s, loc[:-1], None)
                out += self.seq_at_all(s, cont, loc[-1][1], tk)
                continue
            v = s.store.get(loc)
            if v is None or v is POISON or self.pol.watch:
                v = self.load(s, loc, tk)
            out.append((s, v))
        return out

    def e_mat(self, st, fr, e):
        out = []
        tk = self.p.tk(e['t'])
        r = self.newroot(st)
        for s in self.init(st, fr, r, tk, e['e'], temp=True):
            v = s.store.get(r)
            if v is not None and isinstance(v, V) and v.k == 'rec':
                out.append((s, v.a[0]))
            else:
                out.append((s, r))
        return out

    def e_cast(self, st, fr, e):
        ck = e['ck']
        sube = e['e']
        tk = self.p.tk(e['t'])
        if ck == 'ArrayToPointerDecay':
            out = []
            for s, loc in self.ev(st, fr, sube):
                atk = self.p.tk(sube['t'])
                if not isinstance(loc, tuple):
                    out.append((s, loc))
                    continue
                if loc not in s.store:
                    self.load(s, loc, atk)
                out.append((s, V('iter', loc, L(0), False)))
            return out
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(st, fr, sube)
        if ck == 'ToVoid':
            return [(s, VOID) for s, _ in self.ev(st, fr, sube)]
        if ck in ('NullToPointer',):
            return [(s, NULL) for s, _ in self.ev(st, fr, sube)]
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return [(s, self.nonnull(v)) for s, v in self.ev(st, fr, sube)]
        if ck == 'IntegralToBoolean':
            return [(s, self.tocond(s, v)) for s, v in self.ev(st, fr, sube)]
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            out = []
            for s, v in self.ev(st, fr, sube):
                for s2, i in self.toint(s, v):
                    if tk.k == 'bool':
                        out.append((s2, cmp_('!=', i, 0)))
                    else:
                        out += self.wrap(s2, i, tk)
            return out
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
            out = []
            for s, v in self.ev(st, fr, sube):
                out.append((s, self.unk(tk, ('cast', ck, v)) if ck != 'FloatingCast' else v))
            return out
        if ck == 'Dynamic':
            return [(s, v) for s, v in self.ev(st, fr, sube)]
        # derived/base conversions, bit casts, ...
        return self.ev(st, fr, sube)

    def unk(self, tk, key):
        if tk.k == 'bool':
            return pred('truth', key)
        v = tk.mk(key)
        return v if v is not None else term('unk', key)

    def wrap(self, st, v, tk, ovf=None):
        """conversion of an exact integer to an integer type; ovf: the signed overflow is undefined"""
        lo, hi = tk.range()
        if v.is_const():
            if lo <= v.c <= hi:
                return [(st, v)]
            if ovf is not None:
                self.ub(st, 'overflow', T, ovf)
                return []
            m = hi - lo + 1
            return [(st, L((v.c - lo) % m + lo))]
        # quick bounds
        mn = mx = v.c
        for s, k in v.t:
            d = st.domof(s)
            a, b = (min(d), max(d)) if d else (s.lo, s.hi)
            if k < 0:
                a, b = b, a
            mn = None if mn is None or a is None else mn + k * a
            mx = None if mx is None or b is None else mx + k * b
        if mn is not None and mx is not None and lo <= mn and mx <= hi:
            return [(st, v)]
        below, above = cmp_('<', v, lo), cmp_('>', v, hi)
        if ovf is not None:
            out = []
            for s in self.ub(st, 'overflow', or_(below, above), ovf):
                out.append((s, v))
            return out
        if not st.can(below) and not st.can(above):
            return [(st, v)]
        m = hi - lo + 1
        out = []
        ss = v.t[0][0] if len(v.t) == 1 else None
        if ss is not None and ss.fin is not None:
            groups = {}
            k = v.t[0][1]
            for x in st.domof(ss):
                y = v.c + k * x
                q = (y - lo) // m
                groups.setdefault(q, []).append(x)
            for q, xs in sorted(groups.items()):
                for s in st.copy().assume(in_(ss, frozenset(xs))):
                    out.append((s, v - q * m))
            return out
        inside = st.copy().assume(and_(neg(below), neg(above)))
        out += [(s, v) for s in inside]
        rem = st.copy().assume(below)
        q = -1
        while rem and q > -14:
            nrem = []
            for s in rem:
                a, b = s.split(cmp_('>=', v, lo + q * m))
                out += [(x, v - q * m) for x in a]
                nrem += b
            rem = nrem
            q -= 1
        if rem:
            for s in rem:
                self.note(s, 'wrap')
                out.append((s, L(sym(('wrap', v, lo, hi), lo, hi))))
        rem = st.assume(above)
        q = 1
        while rem and q < 14:
            nrem = []
            for s in rem:
                a, b = s.split(cmp_('<=', v, hi + q * m))
                out += [(x, v - q * m) for x in a]
                nrem += b
            rem = nrem
            q += 1
        for s in rem:
            self.note(s, 'wrap')
            out.append((s, L(sym(('wrap', v, lo, hi), lo, hi))))
        return out

    def e_un(self, st, fr, e):
        op = e['op']
        tk = self.p.tk(e['t'])
        if op == '!':
            return [(s, neg(c)) for s, c in self.cond(st, fr, e['e'])]
        if op == '&':
            out = []
            for s, loc in self.ev(st, fr, e['e']):
                if not isinstance(loc, tuple):
                    out.append((s, loc))
                elif isinstance(loc[-1], tuple) and loc[-1] and loc[-1][0] == '[]':
                    out.append((s, V('iter', loc[:-1], loc[-1][1], False)))
                else:
                    out.append((s, ptr(loc)))
            return out
        if op == '*':
            out = []
            tk = self.p.tk(e['t'])
            for s, v in self.ev(st, fr, e['e']):
                for s2, l in self.deref(s, v, e):
                    self.loctk.setdefault(l, tk)
                    out.append((s2, l))
            return out
        if op in ('++', '--'):
            out = []
            d = 1 if op == '++' else -1
            for s, loc in self.ev(st, fr, e['e']):
                v = self.load(s, loc, self.p.tk(e['e']['t']))
                if isinstance(v, V):
                    if v.k == 'iter':
                        n = V('iter', v.a[0], v.a[1] + d, v.a[2])
                        self.put(s, loc, n)
                        out.append((s, v if e['post'] else (loc if e.get('lv') else n)))
                    else:
                        self.note(s, 'inc', v.k)
                        n = term('inc', v)
                        self.put(s, loc, n)
                        out.append((s, v if e['post'] else (loc if e.get('lv') else n)))
                    continue
                for s1, v in self.toint(s, v):
                    for s2, n in self.arith(s1, v + d, self.p.tk(e['e']['t']), e):
                        self.put(s2, loc, n)
                        out.append((s2, v if e['post'] else (loc if e.get('lv') else n)))
            return out
        out = []
        for s, v in self.rv(st, fr, e['e']):
            if op == '+':
                out.append((s, v))
                continue
            if not isinstance(v, (Lin, tuple)):
                out.append((s, term('un', op, v)))
                continue
            for s1, i in self.toint(s, v):
                if op == '-':
                    out += self.arith(s1, -i, tk, e)
                elif op == '~':
                    out += self.wrap(s1, -i - 1, tk)
                else:
                    out.append((s1, self.unk(tk, ('un', op, i))))
        return out

    def arith(self, st, v, tk, e):
        if tk.k == 'int' and not tk.uns and tk.bits >= 32:
            return self.wrap(st, v, tk, ovf=e)
        if tk.k in ('int', 'enum'):
            return self.wrap(st, v, tk)
        return [(st, v)]

    def e_bin(self, st, fr, e):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, c in self.cond(st, fr, e['a']):
                if op == '||':
                    t, f = s.copy(), s
                    hold, go = self.split2(s, c)
                    short = T
                else:
                    go, hold = self.split2(s, c)
                    short = F
                if not hold:
                    for g in go:
                        out += self.cond(g, fr, e['b'])
                    continue
                if not go:
                    out += [(h, short) for h in hold]
                    continue
                if len(go) == 1 and len(hold) == 1:
                    g = go[0]
                    n0, c0 = len(g.events), (len(g.le), len(g.eq), len(g.ne), len(g.asm), g.cnt)
                    pre = s.copy() if False else None
                    sk0 = len(self.sink)
                    st0 = dict(g.store)
                    r = self.cond(g.copy(), fr, e['b'])
                    if len(r) == 1 and len(self.sink) == sk0:
                        g2, cb = r[0]
                        if len(g2.events) == n0 and (len(g2.le), len(g2.eq), len(g2.ne), len(g2.asm), g2.cnt) == c0 and g2.preds == g.preds and g2.dom == g.dom and \
                                all(g2.store.get(k) == v for k, v in st0.items()) and self.base_of(hold[0], g) is not None:
                            b = self.base_of(hold[0], g)
                            for k, v in g2.store.items():
                                if k not in b.store:
                                    b.store[k] = v
                            for k, v in g2.elems.items():
                                b.elems[k] = v
                            out.append((b, and_(c, cb) if op == '&&' else or_(c, cb)))
                            continue
                    del self.sink[sk0:]
                for h in hold:
                    out.append((h, short))
                for g in go:
                    out += self.cond(g, fr, e['b'])
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(st, fr, e['a']):
                out += self.ev(s, fr, e['b'])
            return out
        out = []
        for s, (a, b) in self.evs2(st, fr, e['a'], e['b']):
            out += self.binop(s, op, a, b, self.p.tk(e['t']), e)
        return out

    def evs2(self, st, fr, ea, eb):
        out = []
        for s, a in self.rv(st, fr, ea):
            for s2, b in self.rv(s, fr, eb):
                out.append((s2, (a, b)))
        return out

    def split2(self, st, c):
        """like split, remembering the state before"""
        d = st.decide(c)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        a = st.copy()
        b = st.copy()
        self._pre = st
        return a.assume(c), b.assume(neg(c))

    def base_of(self, h, g):
        return self._pre.copy() if self._pre is not None else None

    def binop(self, st, op, a, b, tk, e):
        if op in ('==', '!='):
            if isinstance(a, tuple) or isinstance(b, tuple):      # booleans
                if isinstance(a, tuple) and isinstance(b, tuple):
                    eq = or_(and_(a, b), and_(neg(a), neg(b)))
                    return [(st, eq if op == '==' else neg(eq))]
                out = []
                for s, x in self.toint(st, a):
                    for s2, y in self.toint(s, b):
                        out.append((s2, cmp_(op, x, y)))
                return out
            if isinstance(a, Lin) and isinstance(b, Lin):
                return [(st, cmp_(op, a, b))]
            if isinstance(a, V) and isinstance(b, V):
                if a.k in ('ptr', 'null', 'psym', 'iter') or b.k in ('ptr', 'null', 'psym', 'iter'):
                    c = self.ptreq(a, b)
                else:
                    c = T if a == b and a.k != 'term' else pred('eq', *sorted((a, b), key=repr))
                return [(st, c if op == '==' else neg(c))]
            c = pred('eq', a, b)
            return [(st, c if op == '==' else neg(c))]
        if op in ('<', '<=', '>', '>='):
            if isinstance(a, V) and a.k == 'iter' and isinstance(b, V) and b.k == 'iter' and a.a[0] == b.a[0]:
                return [(st, cmp_(op, a.a[1], b.a[1]) if not a.a[2] else cmp_(op, b.a[1], a.a[1]))]
            if isinstance(a, V) or isinstance(b, V):
                return [(st, pred('cmp', op, a, b))]
            out = []
            for s, x in self.toint(st, a):
                for s2, y in self.toint(s, b):
                    out.append((s2, cmp_(op, x, y)))
            return out
        if isinstance(a, V) or isinstance(b, V):
            if isinstance(a, V) and a.k == 'iter' and isinstance(b, Lin) and op in '+-':
                d = b if (op == '+') != a.a[2] else -b
                return [(st, V('iter', a.a[0], a.a[1] + d, a.a[2]))]
            if isinstance(b, V) and b.k == 'iter' and isinstance(a, Lin) and op == '+':
                return [(st, V('iter', b.a[0], b.a[1] + a, b.a[2]))]
            if isinstance(a, V) and isinstance(b, V) and a.k == b.k == 'iter' and op == '-' and a.a[0] == b.a[0]:
                return [(st, a.a[1] - b.a[1] if not a.a[2] else b.a[1] - a.a[1])]
            return [(st, self.unk(tk, ('bin', op, a, b)))]
        out = []
        for s, x in self.toint(st, a):
            for s2, y in self.toint(s, b):
                out += self.intop(s2, op, x, y, tk, e)
        return out

    def intop(self, st, op, x, y, tk, e):
        if op == '+':
            return self.arith(st, x + y, tk, e)
        if op == '-':
            return self.arith(st, x - y, tk, e)
        if op == '*':
            if y.is_const():
                return self.arith(st, x.scale(y.c), tk, e)
            if x.is_const():
                return self.arith(st, y.scale(x.c), tk, e)
            lo, hi = tk.range()
            self.note(st, 'nonlinear')
            return [(st, L(sym(('mul', x, y), lo, hi)))]
        if op in ('/', '%'):
            out = []
            for s in self.ub(st, 'divzero', cmp_('==', y, 0), e):
                if not y.is_const():
                    lo, hi = tk.range()
                    self.note(s, 'nonlinear')
                    out.append((s, L(sym(('div' if op == '/' else 'mod', x, y), lo, hi))))
                    continue
                c = y.c
                if x.is_const():
                    q = abs(x.c) // abs(c)
                    q = q if (x.c >= 0) == (c > 0) else -q
                    out.append((s, L(q if op == '/' else x.c - q * c)))
                    continue
                pos, neg_ = s.split(cmp_('>=', x, 0))
                for s1 in pos:
                    q = L(sym(('quo', x, c), None, None))
                    r = x - q.scale(c)
                    for s2 in s1.assume(and_(cmp_('>=', r, 0), cmp_('<=', r, abs(c) - 1))):
                        out.append((s2, q if op == '/' else r))
                for s1 in neg_:
                    q = L(sym(('quon', x, c), None, None))
                    r = x - q.scale(c)
                    for s2 in s1.assume(and_(cmp_('<=', r, 0), cmp_('>=', r, -abs(c) + 1))):
                        out.append((s2, q if op == '/' else r))
            return out
        f = {'&': lambda p, q: p & q, '|': lambda p, q: p | q, '^': lambda p, q: p ^ q, '<<': lambda p, q: p << q, '>>': lambda p, q: p >> q}.get(op)
        if f and x.is_const() and y.is_const():
            return self.wrap(st, L(f(x.c, y.c)), tk)
        fs = set(x.syms()) | set(y.syms())
        if f and len(fs) == 1 and list(fs)[0].fin is not None:
            s0 = list(fs)[0]
            kx, ky = x.coef(s0), y.coef(s0)
            groups = {}
            lo, hi = tk.range()
            m = hi - lo + 1
            for v in st.domof(s0):
                r = f(x.c + kx * v, y.c + ky * v)
                r = (r - lo) % m + lo
                groups.setdefault(r - v, []).append(v)
            if len(groups) > 6:
                g2 = {}
                for v in st.domof(s0):
                    r = f(x.c + kx * v, y.c + ky * v)
                    g2.setdefault(('c', (r - lo) % m + lo), []).append(v)
                if len(g2) < len(groups):
                    groups = g2
            out = []
            for d, vs in sorted(groups.items(), key=repr):
                for s in st.copy().assume(in_(s0, frozenset(vs))):
                    out.append((s, L(d[1]) if isinstance(d, tuple) else L(s0) + d))
            return out
        if op == '<<' and y.is_const() and 0 <= y.c < 64:
            return self.arith(st, x.scale(1 << y.c), tk, e)
        if op == '&' and y.is_const() and (y.c & (y.c + 1)) == 0 and y.c > 0:
            return self.intop(st, '%', x, L(y.c + 1), tk, e) if st.entails(cmp_('>=', x, 0)) else [(st, L(sym(('and', x, y), 0, y.c)))]
        lo, hi = tk.range()
        if op not in ('&', '|', '^'):
            self.note(st, 'bitop')
        return [(st, L(sym((op, x, y), lo, hi)))]

    def e_asg(self, st, fr, e):
        out = []
        for s, v in self.rv(st, fr, e['b']):
            for s2, loc in self.ev(s, fr, e['a']):
                if isinstance(loc, tuple):
                    self.store_val(s2, loc, v)
                out.append((s2, loc if e.get('lv') else v))
        return out

    def e_casg(self, st, fr, e):
        out = []
        atk = self.p.tk(e['a']['t'])
        ctk = self.p.tk(e['ct'])
        op = e['op'][:-1]
        for s, v in self.rv(st, fr, e['b']):
            for s2, loc in self.ev(s, fr, e['a']):
                old = self.load(s2, loc, atk)
                for s3, r in self.binop(s2, op, old, v, ctk, e):
                    if isinstance(r, tuple) and atk.k == 'bool':
                        outs = [(s3, r)]
                    elif isinstance(r, Lin) and atk.k == 'bool':
                        outs = [(s3, cmp_('!=', r, 0))]
                    elif isinstance(r, (Lin, tuple)) and atk.k in ('int', 'enum'):
                        outs = [y for s4, i in self.toint(s3, r) for y in self.wrap(s4, i, atk)]
                    else:
                        outs = [(s3, r)]
                    for s4, r2 in outs:
                        self.put(s4, loc, r2)
                        out.append((s4, loc if e.get('lv') else r2))
        return out

    def e_cond(self, st, fr, e):
        out = []
        for s, c in self.cond(st, fr, e['c']):
            a, b = s.split(c)
            for x in a:
                out += self.ev(x, fr, e['a'])
            for x in b:
                out += self.ev(x, fr, e['b'])
        return out

    def e_sub(self, st, fr, e):
        out = []
        for s, (b, i) in self.evs2(st, fr, e['b'], e['i']):
            if isinstance(b, Lin) and isinstance(i, V):
                b, i = i, b
            for s1, i in self.toint(s, i):
                if isinstance(b, V) and b.k == 'iter':
                    idx = b.a[1] + i
                    cont = b.a[0]
                    v = s1.store.get(cont)
                    if v is not None and v.k == 'seq' and cont[0] != 'buf':
                        for s2 in self.ub(s1, 'bounds', or_(cmp_('<', idx, 0), cmp_('>=', idx, seqlen(v.a[0]))), e):
                            out.append((s2, cont + (('[]', idx),)))
                    else:
                        out.append((s1, cont + (('[]', idx),)))
                elif isinstance(b, V):
                    for s2, loc in self.deref(s1, b, e):
                        out.append((s2, loc + (('[]', i),) if i != L(0) else loc))
                else:
                    out.append((s1, ('o', ('sub', b, i))))
        return out

    def e_ilist(self, st, fr, e):
        tk = self.p.tk(e['t'])
        if tk.k == 'seq':
            out = []
            for s, vs in self.vals(st, fr, e['e']):
                vs = [v for v in vs]
                n = tk.t.get('n') if tk.t['k'] == 'array' else None
                segs = tuple(('e', v) for v in vs)
                if n is not None and len(vs) < n:
                    d = tk.sub('elem').default() if tk.sub('elem') else L(0)
                    segs += (('r', d, L(n - len(vs))),)
                out.append((s, V('seq', normsegs(segs))))
            return out
        if tk.k in ('rec',):
            r = self.newroot(st)
            return [(s, V('rec', r, tk.rec)) for s in self.init(st, fr, r, tk, e)]
        if len(e['e']) == 1:
            return self.rv(st, fr, e['e'][0])
        if not e['e']:
            return [(st, tk.default() or term('zero', tk.s))]
        return [(s, term('ilist', *vs)) for s, vs in self.vals(st, fr, e['e'])]

    def vals(self, st, fr, es):
        """values of prvalue/class expressions, records copied"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.rv(s, fr, e):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_sil(self, st, fr, e):
        out = []
        for s, v in self.ev(st, fr, e['e']):
            if isinstance(v, tuple):
                v = self.load(s, v, self.p.tk(e['e']['t']))
            out.append((s, v))
        return out

    def e_lambda(self, st, fr, e):
        cur = [(st, [])]
        for c in e['caps']:
            nxt = []
            for s, cs in cur:
                if c['by'] == 'this':
                    nxt.append((s, cs + [('this', 'this', fr.this)]))
                elif c['by'] == 'starthis':
                    r = self.newroot(s)
                    self.copy_tree(s, r, fr.this)
                    nxt.append((s, cs + [('this', 'starthis', r)]))
                elif c['by'] == 'ref':
                    for s2, loc in self.ev(s, fr, c['init']):
                        nxt.append((s2, cs + [(c['id'], 'ref', loc)]))
                else:
                    for s2, v in self.rv(s, fr, c['init']):
                        if isinstance(v, V) and v.k == 'rec':
                            r = self.newroot(s2)
                            self.copy_rec(s2, r, v.a[0], v.a[1])
                            v = V('rec', r, v.a[1])
                        nxt.append((s2, cs + [(c['id'], 'copy', v)]))
            cur = nxt
        return [(s, V('clo', e.get('f'), e['r'], tuple(cs), e.get('l'))) for s, cs in cur]

    def e_new(self, st, fr, e):
        tk = self.p.tk(e['at'])
        r = self.newroot(st)
        out = []
        if e.get('e') is None:
            self.event(st, 'new', tk.s, ptr(r), e=e)
            return [(st, ptr(r))]
        for s in self.init(st, fr, r, tk, e['e']):
            self.event(s, 'new', tk.s, ptr(r), e=e)
            out.append((s, ptr(r)))
        return out

    def e_delete(self, st, fr, e):
        out = []
        for s, v in self.rv(st, fr, e['e']):
            self.event(s, 'delete', None, v, e=e)
            out.append((s, VOID))
        return out

    def e_throw(self, st, fr, e):
        if e['e'] is None:
            cur = st.store.get(('curexc',))
            self.event(st, 'rethrow', None, cur, e=e)
            self.sink.append((st, cur if cur is not None else V('exc', 'unknown', None)))
            return []
        tk = self.p.tk(e['e']['t'])
        for s, v in self.rv(st, fr, e['e']):
            exc = V('exc', tk.base or tk.s, tk.rec, v)
            self.event(s, 'throw', exc.a[0], exc, e=e)
            self.sink.append((s, exc))
        return []

    def e_unk(self, st, fr, e):
        self.note(st, 'unknown expression', e.get('c'))
        return [(st, self.unk(self.p.tk(e['t']), ('unk', st.fresh())))]

    # ------------------------------------------------------------ calls
    def evarg(self, st, fr, e):
        """[(state, arg)]: ('loc') for lvalues, value otherwise"""
        return self.ev(st, fr, e)

    def e_mcall(self, st, fr, e):
        oe = e['obj']
        outs = []
        for s, o in self.ev(st, fr, oe):
            if e['arrow']:
                outs.append((s, o))
            elif isinstance(o, tuple) and oe.get('lv'):
                outs.append((s, ptr(self.resolve(s, o))))
            else:
                if isinstance(o, V) and o.k == 'rec':
                    outs.append((s, ptr(o.a[0])))
                else:
                    r = self.newroot(s)
                    s.store[r] = o
                    outs.append((s, ptr(r)))
        out = []
        for s, o in outs:
            for s2, args in self.evs(s, fr, e['args']):
                out += self.invoke(s2, fr, e, o, args)
        return out

    def e_call(self, st, fr, e):
        if 'f' not in e:
            out = []
            for s, c in self.ev(st, fr, e['callee']):
                if isinstance(c, tuple):
                    c = self.load(s, c, self.p.tk(e['callee']['t']))
                for s2, args in self.evs(s, fr, e['args']):
                    out += self.call_value(s2, fr, c, [self.asarg(s2, a, x) for a, x in zip(args, e['args'])], e)
            return out
        out = []
        for s, args in self.evs(st, fr, e['args']):
            out += self.invoke(s, fr, e, None, args)
        return out

    def asarg(self, st, a, x):
        """an evaluated argument as a parameter value: references as pointers"""
        if x.get('lv') and isinstance(a, tuple):
            return ('lv', a, x['t'])
        return a

    def invoke(self, st, fr, e, obj, args):
        """obj: pointer value (or None)"""
        self.tick()
        name = strip(e['n'])
        h = self.pol.hook(self, st, fr, name, e, obj, args)
        if h is not None:
            return h
        f = self.p.fn(e['f'])
        if name == '__assert_fail':
            return []          # a failed assertion ends the program
        if f is None or not f.get('repo') or name in self.pol.opaque:
            m = self.models.get(name)
            if m is None and e.get('cls'):
                m = self.models.get(strip(e['cls']).split('::')[0] + '::*::' + e['sn'])
            if m is not None and name not in self.pol.opaque:
                return m(self, st, fr, e, obj, args)
            return self.external(st, fr, e, f, name, obj, args)
        if e['k'] == 'mcall' and e.get('virt') and obj is not None:
            out = []
            for s, loc in self.deref(st, obj, e):
                rid = s.dyn.get(loc)
                if rid is not None:
                    g = self.p.override_in(f, rid)
                    if g is not None and g.get('body') is not None:
                        out += self.call_fn(s, fr, g, loc, args, e)
                        continue
                    if g is not None and not g.get('repo'):
                        out += self.external(s, fr, e, g, strip(g['n']), ptr(loc), args)
                        continue
                out += self.vcall(s, fr, e, f, name, obj, loc, args)
            return out
        if f.get('body') is None:
            if f.get('pure'):
                out = []
                for s, loc in self.deref(st, obj, e):
                    out += self.vcall(s, fr, e, f, name, obj, loc, args)
                return out
            if f.get('defaulted') and f.get('sn') == 'operator=':
                # memberwise assignment
                src = args[0]
                if isinstance(src, tuple) and obj.k == 'ptr':
                    self.copy_rec(st, obj.a[0], src, f['rec'])
                    return [(st, obj.a[0])]
            return self.external(st, fr, e, f, name, obj, args)
        if obj is None or f.get('static'):
            return self.call_fn(st, fr, f, None, args, e)
        out = []
        if obj.k == 'ptr' and isinstance(st.store.get(obj.a[0]), V) and st.store[obj.a[0]].k == 'clo' and f['sn'] == 'operator()':
            clo = st.store[obj.a[0]]
            return self.call_fn(st, fr, f, None, args, e, clo=clo)
        for s, loc in self.deref(st, obj, e):
            if f['sn'] == 'operator()':
                v = s.store.get(loc)
                if isinstance(v, V) and v.k == 'clo':
                    out += self.call_fn(s, fr, f, None, args, e, clo=v)
                    continue
            out += self.call_fn(s, fr, f, loc, args, e)
        return out

    def heldptrs(self, st):
        """what the local variables own"""
        out = set()
        for k, v in st.store.items():
            if k[0] == 'v' and isinstance(v, V):
                tk = self.loctk.get(k)
                if v.k in ('psym', 'ptr') and tk is not None and tk.k in ('sptr', 'uptr'):
                    out.add(v)
                elif v.k == 'seq' and tk is not None and tk.k == 'seq':
                    el = tk.sub('elem')
                    if el is not None and el.k in ('sptr', 'uptr'):
                        out.add(v)
        return frozenset(out)

    def vcall(self, st, fr, e, f, name, obj, loc, args):
        """call of a virtual function on an object of unknown dynamic type"""
        res = self.unkres(st, e)
        ev = self.event(st, 'vcall', name, obj, [self.argval(st, a, x) for a, x in zip(args, e['args'])], res, e, x=self.heldptrs(st))
        return self.after_unknown(st, ev, res)

    def after_unknown(self, st, ev, res, throws=True):
        out = []
        if ev.kind in ('user', 'vcall'):
            # what a weak reference refers to may be gone now
            st.ver[('epoch',)] = st.fresh()
        if throws:
            for k in self.pol.throws(ev):
                s = st.copy()
                exc = V('exc', k, None, L(s.fresh()), 'any')
                s.events.append(Ev('throws', k, exc, (), None, ev.line, ev.file, ev.fn, ev))
                for s2 in self.pol.on_event(self, s, ev):
                    self.sink.append((s2, exc))
        for s in self.pol.on_event(self, st, ev):
            out.append((s, res))
        return out

    def unkres(self, st, e):
        """unknown result of a call expression"""
        tk = self.p.tk(e['t'])
        if e.get('lv'):
            return ('o', ('res', e['n'], st.fresh()))
        if tk.k == 'void':
            return VOID
        key = ('res', strip(e['n']) if 'n' in e else 'call', st.fresh())
        v = tk.mk(key)
        return v if v is not None else term('res', key)

    def argval(self, st, a, x):
        """argument as recorded in events: lvalues of value types as their values, else pointers"""
        if x.get('lv') and isinstance(a, tuple):
            tk = self.p.tk(x['t'])
            if tk.k in ('seq', 'int', 'bool', 'enum', 'func', 'lam', 'sptr', 'wptr', 'float', 'ptr', 'iter'):
                v = self.load(st, a, tk)
                return v
            if tk.k == 'rec':
                return V('rec', self.resolve(st, a), tk.rec)
            return ptr(a)
        return a

    def external(self, st, fr, e, f, name, obj, args):
        """a function of which nothing is known but its signature"""
        vals = [self.argval(st, a, x) for a, x in zip(args, e['args'])]
        # what it may change through non-const references and pointers
        ps = (f or {}).get('ps', [])
        res = self.unkres(st, e)
        ev = self.event(st, 'ext', name, obj, vals, res, e)
        if name.startswith('std::') and not name.startswith(('std::basic_', 'std::ios', 'std::thread', 'std::mutex', 'std::condition_variable')):
            self.note(st, 'unmodelled', name)
        for i, a in enumerate(args):
            if i < len(ps):
                ptk = self.p.tk(ps[i]['t'])
                if ptk.k == 'ref' and isinstance(a, tuple) and e['args'][i].get('lv'):
                    to = ptk.sub('to')
                    if to is not None and not to.const and not ptk.t.get('rv') and to.k in ('int', 'bool', 'enum', 'seq', 'float', 'rec', 'opq'):
                        if to.k in ('opq',):
                            st.ver[('stream', ptr(a))] = st.fresh()
                            continue
                        self.havoc(st, a)
                elif ptk.k == 'ptr' and isinstance(a, V) and a.k == 'ptr':
                    to = ptk.sub('to')
                    if to is not None and not to.const:
                        self.havoc(st, a.a[0])
                elif ptk.k == 'ptr' and isinstance(a, V) and a.k == 'iter':
                    to = ptk.sub('to')
                    if to is not None and not to.const and a.a[0] in st.store:
                        old = st.store[a.a[0]]
                        n = seqlen(old.a[0])
                        b = sbase(('filled', st.fresh()), 'char')
                        st.store[a.a[0]] = seq(('s', b, L(0), n))
        if e.get('lv') and args and isinstance(args[0], tuple) and e.get('sn', '') in ('operator>>', 'operator<<') and e['args'][0].get('lv'):
            res = args[0]       # by convention these return the stream
        return self.after_unknown(st, ev, res, throws=False)

    def call_value(self, st, fr, c, args, e, loc=None):
        """call of a callable value; args: values or ('lv', loc, type)"""
        if c.k == 'clo':
            fid = c.a[0]
            f = self.p.fn(fid) if fid is not None else None
            if f is None:
                f = self.pick_generic(c.a[1], args)
            if f is None:
                self.note(st, 'lambda body missing')
                return [(st, term('res', st.fresh()))]
            return self.call_fn(st, fr, f, None, args, e, clo=c)
        if c.k == 'fnptr':
            f = self.p.fn(c.a[0])
            if f is not None and f.get('body') is not None and f.get('repo'):
                return self.call_fn(st, fr, f, None, args, e)
            ev = self.event(st, 'ext', strip(c.a[1]), None, [self.lvval(st, a) for a in args], None, e)
            return [(st, term('res', st.fresh()))]
        if c.k == 'nofn' or c.k == 'null':
            self.ub(st, 'emptycall', T, e, c)
            return []
        if c.k == 'rec':
            rec = self.p.rec(c.a[1])
            for m in (rec or {}).get('methods', []):
                f = self.p.fn(m)
                if f and f['sn'] == 'operator()' and len(f['ps']) == len(args) and f.get('body') is not None:
                    return self.call_fn(st, fr, f, c.a[0], args, e)
        if c.k == 'fsym':
            out = []
            for s in self.ub(st, 'emptycall', neg(self.nonnull(c)), e, c):
                res = self.unkres(s, e) if isinstance(e, dict) and 't' in e else VOID
                ev = self.event(s, 'user', None, c, [self.lvval(s, a) for a in args], res, e, x=self.heldptrs(s))
                out += self.after_unknown(s, ev, res)
            return out
        self.note(st, 'call of unknown value')
        ev = self.event(st, 'user', None, c, [self.lvval(st, a) for a in args], None, e)
        return self.after_unknown(st, ev, term('res', st.fresh()))

    def lvval(self, st, a):
        if isinstance(a, tuple) and len(a) == 3 and a[0] == 'lv':
            return self.argval(st, a[1], {'lv': True, 't': a[2]})
        return a

    def pick_generic(self, rid, args):
        rec = self.p.rec(rid)
        if not rec:
            return None
        cands = [self.p.fn(m) for m in rec.get('methods', [])]
        cands = [f for f in cands if f and f['sn'] == 'operator()' and f.get('body') is not None]
        c2 = [f for f in cands if len(f['ps']) == len(args)]
        return (c2 or cands or [None])[0]

    def bindcaps(self, st, nf, clo):
        for cid, kind, x in clo.a[2]:
            if cid == 'this':
                nf.this = x
            elif kind == 'ref':
                nf.caps[cid] = x
            elif isinstance(x, V) and x.k == 'rec':
                nf.caps[cid] = x.a[0]
            else:
                loc = ('v', nf.id, 'cap', cid)
                st.store[loc] = x
                nf.caps[cid] = loc

    def call_fn(self, st, fr, f, this, args, e, clo=None):
        """inlines a function of the repository"""
        if len(self.stack) > self.MAXDEPTH or sum(1 for g in self.stack if g is f) > getattr(self.pol, 'recursion', 0):
            vals = [self.lvval(st, a) if not (isinstance(e, dict) and e.get('args') and i < len(e['args'])) else self.argval(st, a, e['args'][i]) for i, a in enumerate(args)]
            tk = self.p.tk(f['ret'])
            res = VOID if tk.k == 'void' else tk.mk(('res', f['n'], st.fresh()))
            ev = self.event(st, 'rec', strip(f['n']), ptr(this) if this is not None else None, vals, res, e)
            return self.after_unknown(st, ev, res)
        self.fnseen.add(f['id'])
        self.frid = st.fresh()
        nf = Fr(self.frid, this, f, len(self.stack), fr)
        if clo is not None:
            self.bindcaps(st, nf, clo)
        cur = [st]
        for i, p in enumerate(f['ps']):
            tk = self.p.tk(p['t'])
            loc = ('v', nf.id, p['id'])
            self.loctk[loc] = tk
            if i >= len(args):
                continue
            a = args[i]
            at = None
            if isinstance(a, tuple) and len(a) == 3 and a[0] == 'lv':
                at = a[2]
                a = a[1]
                islv = True
            elif isinstance(e, dict) and e.get('args') and i < len(e['args']):
                islv = bool(e['args'][i].get('lv')) and isinstance(a, tuple)
                at = e['args'][i]['t']
            else:
                islv = isinstance(a, tuple) and a and a[0] in ('v', 'o', 'n', 'g', 'buf', 'str')
            nxt = []
            for s in cur:
                if tk.k == 'ref':
                    if islv:
                        if isinstance(a[-1], tuple) and a[-1] and a[-1][0] == '[]':
                            s.store[loc] = V('iter', a[:-1], a[-1][1], False)
                        else:
                            s.store[loc] = ptr(a)
                    else:
                        if isinstance(a, V) and a.k == 'rec':
                            s.store[loc] = ptr(a.a[0])
                        else:
                            r = ('v', nf.id, p['id'], 'tmp')
                            s.store[r] = a
                            s.store[loc] = ptr(r)
                else:
                    if islv:
                        a2 = self.load(s, a, self.p.tk(at) if at is not None else tk)
                    else:
                        a2 = a
                    if isinstance(a2, V) and a2.k == 'rec':
                        self.copy_rec(s, loc, a2.a[0], a2.a[1])
                        s.store[loc] = V('rec', loc, a2.a[1])
                    elif isinstance(a2, Lin) and tk.k == 'int' and not (isinstance(e, dict) and e.get('args')):
                        # called by a library algorithm: the conversion to the type of the parameter
                        for s2, a3 in self.wrap(s, a2, tk):
                            s2.store[loc] = a3
                            nxt.append(s2)
                        continue
                    else:
                        s.store[loc] = a2
                nxt.append(s)
            cur = nxt
        out = []
        self.stack.append(f)
        try:
            outs, sk = self.with_sink(lambda: [z for y in cur for z in self.run_body(y, nf, f)])
        finally:
            self.stack.pop()
        self.sink += sk
        for s, flow in outs:
            if flow is None or flow[0] != 'ret':
                if flow is None:
                    out.append((s, VOID))
                elif flow[0] == 'throw':
                    self.sink.append((s, flow[1]))
            else:
                out.append((s, flow[1]))
        if f.get('noexcept'):
            # an exception leaving a noexcept function terminates
            keep = []
            for s, exc in self.sink[-(len(sk) + sum(1 for _, fl in outs if fl is not None and fl[0] == 'throw')):] if (len(sk) or any(fl is not None and fl[0] == 'throw' for _, fl in outs)) else []:
                self.ubs.append(('terminate', f, f['l'], s, exc))
                keep.append((s, exc))
            for k in keep:
                self.sink.remove(k)
        if len(out) > self.MAXSTATES:
            raise Budget('too many states in ' + f['n'])
        if len(out) > 1:
            out = self.merge(out)
        return out

    def merge(self, outs):
        return outs

    def run_body(self, st, fr, f):
        outs = [(st, None)]
        if f['kind'] == 'ctor':
            outs = self.run_inits(st, fr, f)
        if f['kind'] == 'dtor':
            return self.run_dtor(st, fr, f)
        res = []
        for s, fl in outs:
            if fl is not None:
                res.append((s, fl))
            else:
                res += self.exec(s, fr, f['body'])
        return res

    def run_inits(self, st, fr, f):
        cur = [(st, None)]
        rec = self.p.rec(f['rec'])
        for i in f.get('inits', []):
            nxt = []
            for s, fl in cur:
                if fl is not None:
                    nxt.append((s, fl))
                    continue
                if i.get('e') is None:
                    nxt.append((s, None))
                    continue

                def doit(s=s):
                    if 'base' in i or i.get('del'):
                        return self.init(s, fr, fr.this, self.p.tk(i['base']) if 'base' in i else self.p.tk(self.p.rectk[f['rec']]), i['e'], base=True)
                    fk = fieldkey(rec, i['f'], i['fi'])
                    ft = None
                    for fld in rec.get('fields', []):
                        if fld['n'] == i['f']:
                            ft = self.p.tk(fld['t'])
                    if ft is None:
                        ft = self.p.tk(i['e']['t'])
                    return self.init(s, fr, fr.this + (fk,), ft, i['e'])
                r, sk = self.with_sink(doit)
                for s2 in r:
                    if 'base' not in i and not i.get('del'):
                        s2.events.append(Ev('init', fieldkey(rec, i['f'], i['fi']), ptr(fr.this), (), None, i.get('l', 0), f['file'], f['n']))
                    nxt.append((s2, None))
                for s2, x in sk:
                    nxt.append((s2, ('throw', x)))
            cur = nxt
        return cur

    def run_dtor(self, st, fr, f):
        outs = self.exec(st, fr, f['body']) if f.get('body') is not None else [(st, None)]
        rec = self.p.rec(f['rec'])
        res = []
        for s, fl in outs:
            if fl is not None and fl[0] == 'throw':
                res.append((s, fl))
                continue
            r, sk = self.with_sink(lambda: self.destroy_members(s, fr, rec, fr.this))
            res += [(x, None) for x in r] + [(x, ('throw', v)) for x, v in sk]
        return res

    def destroy_members(self, st, fr, rec, loc):
        cur = [st]
        for fld in reversed(rec.get('fields', []) or []):
            tk = self.p.tk(fld['t'])
            nxt = []
            for s in cur:
                nxt += self.destroy(s, fr, loc + (fieldkey(rec, fld['n'], None),), tk, fld.get('l', 0), member=True)
            cur = nxt
        for b in reversed(rec.get('bases', []) or []):
            t = self.p.types[b['t']]
            if t['k'] != 'rec':
                continue
            br = self.p.rec(t['r'])
            nxt = []
            for s in cur:
                if br and br.get('repo'):
                    nxt += self.destroy_obj(s, fr, loc, t['r'], None)
                else:
                    nxt.append(s)
            cur = nxt
        return cur

    def destroy_obj(self, st, fr, loc, rid, line):
        rec = self.p.rec(rid)
        d = self.p.fn(rec.get('dtor')) if rec and rec.get('dtor') is not None else None
        if d is not None and d.get('body') is not None:
            outs = self.call_fn(st, fr, d, loc, [], {'l': line or d['l'], 'args': []})
            return [s for s, _ in outs]
        return self.destroy_members(st, fr, rec, loc) if rec else [st]

    def destroy(self, st, fr, loc, tk, line, member=False):
        if tk.k == 'guard':
            v = st.store.get(loc)
            if isinstance(v, V) and v.k == 'guard' and v.a[1]:
                self.locking(st, 'unlock', v.a[0], line)
                st.store[loc] = V('guard', v.a[0], False)
            return [st]
        if tk.k == 'rec' and tk.rec is not None:
            rec = self.p.rec(tk.rec)
            if rec and rec.get('repo'):
                if member:
                    self.event(st, 'destroy', loc[-1], ptr(loc), e=line)
                return self.destroy_obj(st, fr, loc, tk.rec, line)
            return [st]
        if member and tk.k not in ('int', 'bool', 'enum', 'ref', 'ptr'):
            self.event(st, 'destroy', loc[-1], ptr(loc), e=line, x=tk)
        return [st]

    # ------------------------------------------------------------ construction
    def e_ctor(self, st, fr, e):
        tk = self.p.tk(e['t'])
        if tk.k == 'rec' and self.p.rec(tk.rec).get('repo'):
            if e.get('copy') or e.get('move'):
                a = e['args'][0]
                return [(s, V('rec', self.resolve(s, l), tk.rec) if isinstance(l, tuple) else l) for s, l in self.ev(st, fr, a)]
            r = self.newroot(st)
            return [(s, V('rec', r, tk.rec)) for s in self.init(st, fr, r, tk, e)]
        if tk.k == 'lam':
            out = []
            for s, l in self.ev(st, fr, e['args'][0]):
                out.append((s, self.load(s, l, tk) if isinstance(l, tuple) else l))
            return out
        out = []
        for s, args in self.evs(st, fr, e['args']):
            out += self.construct(s, fr, e, tk, args)
        return out

    def construct(self, st, fr, e, tk, args):
        from . import models
        h = self.pol.hook(self, st, fr, 'ctor ' + (tk.base or tk.s), e, None, args)
        if h is not None:
            return h
        m = models.CTORS.get(tk.base or tk.k)
        if m is None and tk.k in ('sptr', 'wptr', 'func', 'iter', 'guard'):
            m = models.CTORS.get('#' + tk.k)
        if m is not None:
            return m(self, st, fr, e, tk, args)
        vals = [self.argval(st, a, x) for a, x in zip(args, e['args'])]
        # exceptions and opaque library objects
        if (e.get('copy') or e.get('move')) and vals:
            v = vals[0]
            if e.get('lv') or True:
                if isinstance(v, V) and v.k == 'ptr' and isinstance(args[0], tuple):
                    v = self.load(st, args[0], tk)
            return [(st, v)]
        res = term('obj', tk.s, st.fresh())
        if (tk.base or tk.s) in self.STD and len(vals) == 1:
            q = models.as_seq(self, st, vals[0], None)
            if isinstance(q, V) and q.k == 'seq':
                res = term('obj', tk.s, st.fresh(), q)      # the text of the exception
        if tk.base != 'std::allocator':
            self.event(st, 'ctor', tk.base or tk.s, None, vals, res, e)
        return [(st, res)]

    def init(self, st, fr, loc, tk, e, base=False, temp=False):
        """initialises the object at loc with expression e; returns states"""
        k = e['k']
        if k == 'mat' and tk.k == 'ref':
            out = []
            r = ('v', fr.id, 'life', st.fresh())
            for s in self.init(st, fr, r, self.p.tk(e['t']), e['e']):
                v = s.store.get(r)
                s.store[loc] = ptr(v.a[0] if isinstance(v, V) and v.k == 'rec' and v.a[0] != r else r)
                out.append(s)
            return out
        if tk.k == 'ref':
            out = []
            for s, l in self.ev(st, fr, e):
                if isinstance(l, tuple):
                    if isinstance(l[-1], tuple) and l[-1] and l[-1][0] == '[]':
                        v = self.load(s, l, self.p.tk(e['t']))
                        if isinstance(v, V) and v.k == 'rec':
                            s.store[loc] = ptr(v.a[0])
                        else:
                            s.store[loc] = V('iter', l[:-1], l[-1][1], False)
                    else:
                        s.store[loc] = ptr(l)
                elif isinstance(l, V) and l.k == 'rec':
                    s.store[loc] = ptr(l.a[0])
                else:
                    r = self.newroot(s)
                    s.store[r] = l
                    s.store[loc] = ptr(r)
                out.append(s)
            return out
        if tk.k == 'rec' and tk.rec is not None and self.p.rec(tk.rec) and self.p.rec(tk.rec).get('repo'):
            while k == 'ctor' and (e.get('elid') or e.get('move') or e.get('copy')) and len(e['args']) == 1 and e['args'][0]['k'] == 'mat' and e['args'][0]['e']['k'] in ('ctor', 'ilist', 'call', 'mcall') and e['args'][0]['t'] == e['t']:
                e = e['args'][0]['e']
                k = e['k']
            if k == 'ctor' and not ((e.get('copy') or e.get('move')) and (self.p.fn(e['f']) or {}).get('defaulted')):
                return self.run_ctor(st, fr, loc, tk, e, base)
            if k == 'ilist':
                return self.agg_init(st, fr, loc, tk, e)
            if k == 'zero':
                self.zero_rec(st, loc, tk.rec)
                return [st]
        out = []
        for s, v in self.rv(st, fr, e):
            if isinstance(v, V) and v.k == 'rec':
                if temp and v.a[0][0] == 'n':
                    s.store[loc] = v
                else:
                    self.copy_rec(s, loc, v.a[0], v.a[1])
                    s.store[loc] = V('rec', loc, v.a[1])
                    if v.a[0] in s.dyn and loc not in s.dyn:
                        s.dyn[loc] = s.dyn[v.a[0]]
            else:
                if isinstance(v, V) and v.k == 'guard' and not temp:
                    if ('guard', v.a[0]) in s.guards:
                        s.guards.remove(('guard', v.a[0]))
                self.put(s, loc, v)
            out.append(s)
        return out

    def agg_init(self, st, fr, loc, tk, e):
        rec = self.p.rec(tk.rec)
        cur = [st]
        for fld, x in zip(rec.get('fields', []), e['e']):
            nxt = []
            for s in cur:
                nxt += self.init(s, fr, loc + (fieldkey(rec, fld['n'], None),), self.p.tk(fld['t']), x)
            cur = nxt
        return cur

    def run_ctor(self, st, fr, loc, tk, e, base):
        f = self.p.fn(e['f'])
        if not base and self.p.rec(tk.rec).get('poly') and loc not in st.dyn:
            st.dyn[loc] = tk.rec
        if f is None or f.get('body') is None:
            # implicit default constructor without body
            for fk, fld in self.p.allfields(tk.rec):
                ftk = self.p.tk(fld['t'])
                if fld.get('init') is not None:
                    for s in self.init(st, fr, loc + (fk,), ftk, fld['init']):
                        st = s
                elif ftk.k in ('seq', 'sptr', 'wptr', 'func') and loc + (fk,) not in st.store:
                    st.store[loc + (fk,)] = ftk.default()
            return [st]
        out = []
        for s, args in self.evs(st, fr, e['args']):
            h = self.pol.hook(self, s, fr, 'ctor ' + strip(self.p.rec(tk.rec)['n']), e, ptr(loc), args)
            if h is not None:
                out += [x for x, _ in h]
                continue
            out += [x for x, _ in self.call_fn(s, fr, f, loc, args, e)]
        return out

    # ------------------------------------------------------------ statements
    def exec(self, st, fr, n):
        """[(state, flow)]"""
        self.tick()
        if n is None:
            return [(st, None)]
        return getattr(self, 's_' + n['k'])(st, fr, n)

    def stmt_sink(self, f):
        """runs f (returning (state, flow) pairs) turning throws into flows"""
        r, sk = self.with_sink(f)
        return r + [(s, ('throw', x)) for s, x in sk]

    def endfull(self, st, e):
        """end of a full expression: unnamed lock guards die"""
        while st.guards:
            g = st.guards.pop()
            self.locking(st, 'unlock', g[1], e)

    def s_expr(self, st, fr, n):
        def f():
            out = []
            for s, _ in self.ev(st, fr, n['e']):
                if s.guards:
                    self.endfull(s, n)
                out.append((s, None))
            return out
        return self.stmt_sink(f)

    def s_nop(self, st, fr, n):
        return [(st, None)]

    def s_unk(self, st, fr, n):
        self.note(st, 'unknown statement', n.get('c'))
        return [(st, None)]

    def s_block(self, st, fr, n):
        return self.block(st, fr, n['b'])

    def block(self, st, fr, stmts):
        cur = [(st, None)]
        declared = []
        for x in stmts:
            nxt = []
            for s, fl in cur:
                if fl is not None:
                    nxt.append((s, fl))
                else:
                    nxt += self.exec(s, fr, x)
            cur = nxt
            if x['k'] == 'decl':
                for v in x['v']:
                    if 'unk' not in v:
                        declared.append(v)
            if len(cur) > self.MAXSTATES:
                raise Budget('too many states in ' + fr.f['n'])
        return self.leave(cur, fr, declared)

    def leave(self, cur, fr, declared):
        """runs the destructors of the variables going out of scope"""
        ds = []
        for v in declared:
            tk = self.p.tk(v['t'])
            if v.get('static'):
                continue
            if tk.k == 'guard' or (tk.k == 'rec' and tk.rec is not None and (self.p.rec(tk.rec) or {}).get('repo')):
                ds.append((v, tk))
        if not ds:
            return cur
        out = []
        for s, fl in cur:
            ss = [(s, fl)]
            for v, tk in reversed(ds):
                loc = ('v', fr.id, v['id'])
                nxt = []
                for s1, f1 in ss:
                    if not self.declared_here(s1, loc, tk):
                        nxt.append((s1, f1))
                        continue
                    r, sk = self.with_sink(lambda: self.destroy(s1, fr, loc, tk, v.get('l', 0)))
                    nxt += [(y, f1) for y in r] + [(y, ('throw', x)) for y, x in sk]
                ss = nxt
            out += ss
        return out

    def declared_here(self, st, loc, tk):
        if tk.k == 'guard':
            return loc in st.store
        return any(k[:len(loc)] == loc for k in st.store)

    def s_decl(self, st, fr, n):
        cur = [(st, None)]
        for v in n['v']:
            nxt = []
            for s, fl in cur:
                if fl is not None:
                    nxt.append((s, fl))
                    continue
                if 'unk' in v:
                    self.note(s, 'structured binding')
                    nxt.append((s, None))
                    continue
                nxt += self.stmt_sink(lambda: self.declare(s, fr, v))
            cur = nxt
        return cur

    def declare(self, st, fr, v):
        tk = self.p.tk(v['t'])
        loc = ('v', fr.id, v['id'])
        if v.get('static'):
            g = ('g', fr.f['n'], v['n'])
            fr.locs[v['id']] = g
            if v.get('init') is not None and (tk.const or tk.k == 'ref') and g not in st.store:
                return [(s, None) for s in self.init(st, fr, g, tk, v['init'])]
            if tk.k == 'sptr' and g not in st.store:
                st.store[g] = ptr(('o', ('static', fr.f['n'], v['n'])))
            return [(st, None)]
        # a new activation of the variable
        self.loctk[loc] = tk
        for k in [k for k in st.store if k[:3] == loc and len(k) >= 3]:
            del st.store[k]
        st.dyn.pop(loc, None)
        if v.get('init') is None:
            d = tk.default() if tk.k in ('seq', 'sptr', 'wptr', 'func') and tk.t['k'] != 'array' else None
            if d is not None:
                st.store[loc] = d
            elif tk.k in ('int', 'bool', 'enum', 'float', 'ptr'):
                st.store[loc] = tk.mk(('uninit', loc, st.fresh()))
            elif tk.t['k'] == 'array':
                b = sbase(('uninit', loc, st.fresh()), tk.elemkind())
                st.store[loc] = seq(('s', b, L(0), L(tk.t.get('n') or 0)))
            return [(st, None)]
        out = []
        for s in self.init(st, fr, loc, tk, v['init']):
            if s.guards:
                self.endfull(s, v)
            out.append((s, None))
        return out

    def s_if(self, st, fr, n):
        declared = []
        cur = [(st, None)]
        if n.get('i') is not None:
            cur = self.exec(st, fr, n['i'])
            if n['i']['k'] == 'decl':
                declared += [v for v in n['i']['v'] if 'unk' not in v]
        if n.get('v') is not None:
            nxt = []
            for s, fl in cur:
                if fl is not None:
                    nxt.append((s, fl))
                else:
                    nxt += self.stmt_sink(lambda: self.declare(s, fr, n['v']))
            cur = nxt
            declared.append(n['v'])
        out = []
        for s, fl in cur:
            if fl is not None:
                out.append((s, fl))
                continue
            cs, sk = self.with_sink(lambda: self.cond(s, fr, n['c']))
            out += [(x, ('throw', v)) for x, v in sk]
            for s2, c in cs:
                a, b = s2.split(c)
                for x in a:
                    if x.guards:
                        self.endfull(x, n)
                    out += self.exec(x, fr, n['a'])
                for x in b:
                    if x.guards:
                        self.endfull(x, n)
                    out += self.exec(x, fr, n['b']) if n.get('b') is not None else [(x, None)]
        return self.leave(out, fr, declared)

    def s_ret(self, st, fr, n):
        def f():
            if n.get('e') is None:
                return [(st, ('ret', VOID))]
            rtk = self.p.tk(fr.f['ret'])
            out = []
            if rtk.k == 'ref':
                for s, v in self.ev(st, fr, n['e']):
                    out.append((s, ('ret', v)))
            else:
                for s, v in self.rv(st, fr, n['e']):
                    if isinstance(v, V) and v.k == 'rec' and v.a[0][0] == 'v':
                        r = self.newroot(s)
                        self.copy_rec(s, r, v.a[0], v.a[1])
                        v = V('rec', r, v.a[1])
                    out.append((s, ('ret', v)))
            for s, _ in out:
                if s.guards:
                    self.endfull(s, n)
            return out
        return self.stmt_sink(f)

    def s_break(self, st, fr, n):
        return [(st, ('break',))]

    def s_cont(self, st, fr, n):
        return [(st, ('cont',))]

    def s_label(self, st, fr, n):
        return self.exec(st, fr, n['b'])

    def s_goto(self, st, fr, n):
        self.note(st, 'goto')
        return [(st, None)]

    def s_case(self, st, fr, n):
        return self.exec(st, fr, n['b'])

    s_default = s_case

    def s_switch(self, st, fr, n):
        pre = self.exec(st, fr, n['i']) if n.get('i') is not None else [(st, None)]
        body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
        # flattened labels: index -> list of (lo, hi) or 'default'
        flat, labels = [], []
        for x in body:
            while x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    lo = int(x['v']['v'])
                    hi = int(x['hi']['v']) if x.get('hi') else lo
                    labels.append((len(flat), lo, hi))
                else:
                    labels.append((len(flat), None, None))
                x = x['b'] if x['b'] is not None else {'k': 'nop'}
            flat.append(x)
        out = []
        for s0, fl0 in pre:
            if fl0 is not None:
                out.append((s0, fl0))
                continue
            rs, sk = self.with_sink(lambda: self.rv(s0, fr, n['c']))
            out += [(x, ('throw', v)) for x, v in sk]
            for s, v in rs:
                for s1, i in self.toint(s, v):
                    rem = [s1]
                    targets = {}
                    for idx, lo, hi in labels:
                        if lo is None:
                            continue
                        nrem = []
                        for r in rem:
                            c = cmp_('==', i, lo) if lo == hi else and_(cmp_('>=', i, lo), cmp_('<=', i, hi))
                            a, b = r.split(c)
                            targets.setdefault(idx, []).extend(a)
                            nrem += b
                        rem = nrem
                    dflt = [idx for idx, lo, hi in labels if lo is None]
                    if dflt:
                        targets.setdefault(dflt[0], []).extend(rem)
                    else:
                        out += [(r, None) for r in rem]
                    # states entering the same label differing only in the switch value are kept apart
                    for idx in sorted(targets):
                        for t in targets[idx]:
                            for s2, fl in self.block(t, fr, flat[idx:]):
                                out.append((s2, None if fl == ('break',) else fl))
        return out

    def s_try(self, st, fr, n):
        outs = self.exec(st, fr, n['b'])
        res = []
        for s, fl in outs:
            if fl is None or fl[0] != 'throw':
                res.append((s, fl))
                continue
            exc = fl[1]
            pend = [(s, exc)]
            for h in n['h']:
                nxt = []
                for s1, x in pend:
                    m = self.catches(h, x)
                    if m is False:
                        nxt.append((s1, x))
                        continue
                    if m == 'fork':
                        k = ('exctype', x, h['t'])
                        if k in s1.preds:
                            m = s1.preds[k]
                            if not m:
                                nxt.append((s1, x))
                                continue
                        else:
                            s0 = s1.copy()
                            known = [self.p.types[q[2]] for q, v in s1.preds.items() if q[0] == 'exctype' and q[1] == x and v]
                            if known and not self.related(known, self.p.types[h['t']]):
                                nxt.append((s1, x))
                                continue
                            s0.preds[k] = False
                            nxt.append((s0, x))
                            s1.preds[k] = True
                    elif m is None:
                        nxt.append((s1.copy(), x))
                        self.note(s1, 'may catch')
                    self.event(s1, 'catch', self.p.types[h['t']]['s'] if 't' in h else '...', x, e=h)
                    old = s1.store.get(('curexc',))
                    s1.store[('curexc',)] = x
                    if h.get('v'):
                        loc = ('v', fr.id, h['v']['id'])
                        if self.p.tk(h['v']['t']).k == 'ref':
                            eo = ('o', ('exc', x))
                            s1.store[loc] = ptr(eo)
                            s1.store[eo] = x
                        else:
                            s1.store[loc] = x
                            if self.p.tk(h['v']['t']).k not in ('int', 'bool', 'enum', 'ptr', 'seq', 'float'):
                                self.event(s1, 'sliced', self.p.types[h['t']]['s'], x, e=h)
                    for s2, f2 in self.exec(s1, fr, h['b']):
                        if f2 is None or f2[0] in ('break', 'continue') or f2 == ('ret', VOID):
                            for k in [k for k in s2.store if k[:2] in (('o', ('exc', x)), ('o', ('what', x)), ('what', ('o', ('what', x))))]:
                                del s2.store[k]         # the exception is destroyed
                        if old is None:
                            s2.store.pop(('curexc',), None)
                        else:
                            s2.store[('curexc',)] = old
                        res.append((s2, f2))
                pend = nxt
            res += [(s1, ('throw', x)) for s1, x in pend]
        return res

    STD = {'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'],
           'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::bad_cast': ['std::exception'],
           'std::bad_function_call': ['std::exception'], 'std::system_error': ['std::runtime_error', 'std::exception'],
           'std::length_error': ['std::logic_error', 'std::exception'], 'std::bad_alloc': ['std::exception'], 'std::bad_weak_ptr': ['std::exception'],
           'std::domain_error': ['std::logic_error', 'std::exception'], 'std::range_error': ['std::runtime_error', 'std::exception'],
           'std::overflow_error': ['std::runtime_error', 'std::exception'], 'std::bad_typeid': ['std::exception'], 'std::exception': [],
           'boost::system::system_error': ['std::runtime_error', 'std::exception']}

    def exc_classes(self, name, rid=None):
        out = [name]
        if rid is not None:
            for b in self.p.bases(rid):
                n = strip(self.p.rec(b)['n'])
                out.append(n)
                out += self.STD.get(n, [])
        else:
            rs = self.p.recbyname.get(name)
            if rs:
                return self.exc_classes(name, rs[0]['id'])
        out += self.STD.get(name, [])
        return out

    def related(self, known, t):
        """can an exception that is of the known types be of type t as well?"""
        n = strip(t['n']) if t['k'] == 'rec' else t['s']
        for q in known:
            m = strip(q['n']) if q['k'] == 'rec' else q['s']
            if n in self.exc_classes(m, q.get('r')) or m in (self.exc_classes(n, t.get('r')) if t['k'] == 'rec' else [n]):
                return True
        return False

    def catches(self, h, exc):
        if 't' not in h:
            return True
        t = self.p.types[h['t']]
        n = strip(t['n']) if t['k'] == 'rec' else t['s']
        if exc.a[0] == 'unknown':
            return None
        sym = len(exc.a) > 3 and exc.a[3] == 'any'       # thrown by the application: any dynamic type of that kind
        classes = self.exc_classes(n, t.get('r')) if t['k'] == 'rec' else [n]
        if exc.a[0] == 'other':
            return 'fork' if sym and 'std::exception' not in classes else False
        if sym and exc.a[0] == 'std::exception' and n != 'std::exception' and 'std::exception' in classes:
            return 'fork'
        return n in self.exc_classes(exc.a[0], exc.a[1])

    # loops
    def s_while(self, st, fr, n):
        return self.loopmod.while_loop(self, st, fr, n)

    def s_do(self, st, fr, n):
        return self.loopmod.do_loop(self, st, fr, n)

    def s_for(self, st, fr, n):
        return self.loopmod.for_loop(self, st, fr, n)

    def s_rfor(self, st, fr, n):
        return self.loopmod.range_loop(self, st, fr, n)

    # ------------------------------------------------------------ entry
    def run(self, f, st=None, this=None, args=None, clo=None):
        """abstract execution of a function: [(state, flow)] with flow ('ret', v) or ('throw', exc).
        Parameters not given are unknown."""
        st = st or State()
        self.frid += 1
        nf = Fr(self.frid, this, f, 0)
        if clo is not None:
            self.bindcaps(st, nf, clo)
        for i, p in enumerate(f['ps']):
            tk = self.p.tk(p['t'])
            loc = ('v', nf.id, p['id'])
            a = args[i] if args and i < len(args) and args[i] is not None else None
            if a is None:
                if tk.k == 'ref':
                    st.store[loc] = ptr(('o', ('arg', i)))
                elif tk.k == 'rec':
                    st.store[loc] = V('rec', ('o', ('arg', i)), tk.rec)
                    self.copy_rec(st, loc, ('o', ('arg', i)), tk.rec)
                else:
                    v = tk.mk(('arg', i))
                    st.store[loc] = v if v is not None else term('arg', i)
            else:
                if tk.k == 'ref' and not (isinstance(a, V) and a.k in ('ptr', 'iter')):
                    o = ('o', ('arg', i))
                    st.store[o] = a
                    a = ptr(o)
                if isinstance(a, V) and a.k == 'rec' and tk.k != 'ref':
                    self.copy_rec(st, loc, a.a[0], a.a[1])
                    a = V('rec', loc, a.a[1])
                st.store[loc] = a
        self.fnseen.add(f['id'])
        self.stack.append(f)
        try:
            outs, sk = self.with_sink(lambda: self.run_body(st, nf, f))
        finally:
            self.stack.pop()
        res = []
        for s, fl in outs:
            res.append((s, fl if fl is not None else ('ret', VOID)))
        return res + [(s, ('throw', x)) for s, x in sk]
