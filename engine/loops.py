"""Loops: definite ones are unrolled, all others summarised by a fixpoint over one generic iteration.

Summary of a loop: the locations it changes are classified (induction variable, monotone, finite set
of values -- the head states are partitioned by these --, sequence only appended to, sequence consumed
from the front, unknown), linear invariants are found by guess and check (Houdini) among the conditions
assumed along an iteration, and one generic iteration K is executed from the resulting head state."""
from .lin import L, Lin, sym
from .domain import *
from .domain import V, State, Ev, T, F, POISON

MAXUNROLL = 24
MAXCOMBO = 48


def substmap(l, m):
    r = L(l.c)
    for s, k in l.t:
        r = r + (L(m[s]) if s in m else L(s)).scale(k)
    return r


class Back(object):
    __slots__ = ('src', 'dst', 'state', 'events', 'head', 'trans')


# symbols made anew every time the code that makes them runs
FRESH = ('env', 'parsed', 'res', 'line', 'unkel', 'uninit', 'usecount', 'upd', 'unk', 'thread', 'sputn', 'sputc', 'obj', 'minel', 'min', 'filled', 'ctype', 'cmp', 'built', 'word', 'num', 'got', 'extract')


class LoopInfo(object):
    def __init__(self, lid, line, fn, file):
        self.id, self.line, self.fn, self.file = lid, line, fn, file
        self.K = sym(('iter', lid), 0, 2 ** 62)
        self.backs = []
        self.finlocs = ()
        self.entry = ()
        self.classes = {}
        self.invs = []
        self.entrystate = None

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return 'Loop%d@%s' % (self.id, self.line)


# ------------------------------------------------------------------ statement forms


def _step(I, fr, n, cond, body, inc, post):
    """step(state) -> [(kind, state, flow)], definite"""
    def check(s, out, onfalse):
        """evaluates the condition: the states where it holds"""
        ok = True
        good = []
        if cond is None:
            return [s], True
        cs, sk = I.with_sink(lambda: cond(s))
        out += [('exit', x, ('throw', v)) for x, v in sk]
        for s2, c in cs:
            if s2.decide(c) is None:
                ok = False
            a, b = s2.split(c)
            for x in a + b:
                if x.guards:
                    I.endfull(x, n)
            good += a
            out += [('exit', x, None) for x in b]
        return good, ok

    def step(s):
        I.tick()
        out, nxt = [], []
        definite = True
        if not post:
            ss, definite = check(s, out, None)
        else:
            ss = [s]
        for x in ss:
            for y, fl in body(x):
                if fl is None or fl == ('cont',):
                    nxt.append(y)
                elif fl == ('break',):
                    out.append(('exit', y, None))
                else:
                    out.append(('exit', y, fl))
        if inc is not None:
            n2 = []
            for y in nxt:
                for z, fl in inc(y):
                    if fl is None:
                        n2.append(z)
                    else:
                        out.append(('exit', z, fl))
            nxt = n2
        if post:
            n2 = []
            for y in nxt:
                g, d = check(y, out, None)
                definite = definite and d
                n2 += g
            nxt = n2
        out += [('back', y, None) for y in nxt]
        return out, definite
    step.check = None if post else check
    return step


def run_loop(I, st, fr, n, cond, body, inc=None, post=False, forever=False):
    step = _step(I, fr, n, cond, body, inc, post)
    if not forever:
        nsub, nsk = len(I.ubs), len(I.sink)
        r = unroll(I, st, step)
        if r is not None:
            return r
        del I.ubs[nsub:]
        del I.sink[nsk:]
    return summarise(I, st, fr, n, step)


def unroll(I, st, step):
    work, outs = [st.copy()], []
    for i in range(MAXUNROLL):
        nxt = []
        for s in work:
            r, definite = step(s)
            if not definite:
                return once(I, r, step) if i == 0 else None
            for kind, y, fl in r:
                if kind == 'exit':
                    outs.append((y, fl))
                else:
                    nxt.append(y)
        if not nxt:
            return outs
        if len(nxt) + len(outs) > 60:
            return None
        work = nxt
    return None


def once(I, r, step):
    """the outcome when the loop runs at most one iteration whatever its condition"""
    outs = [(y, fl) for kind, y, fl in r if kind == 'exit']
    back = [y for kind, y, fl in r if kind != 'exit']
    if not back:
        return outs
    if getattr(step, 'check', None) is None or len(back) > 12:
        return None
    for y in back:
        more = []
        go, _ = step.check(y, more, None)
        if go:
            return None
        outs += [(x, fl) for kind, x, fl in more]
    return outs


def _exprcond(I, fr, e):
    return lambda s: I.cond(s, fr, e)


def _isconst(e):
    while e is not None and e['k'] in ('cast', 'sil'):
        e = e['e']
    return e is None or e['k'] == 'int'


def while_loop(I, st, fr, n):
    if n.get('v') is not None:
        # while (T x = ...): the variable is declared on every iteration
        def body(s):
            out = []
            for s1, fl in I.stmt_sink(lambda: I.declare(s, fr, n['v'])):
                if fl is not None:
                    out.append((s1, fl))
                    continue
                cs, sk = I.with_sink(lambda: I.cond(s1, fr, n['c']))
                out += [(x, ('throw', v)) for x, v in sk]
                for s2, c in cs:
                    a, b = s2.split(c)
                    for x in a:
                        out += I.exec(x, fr, n['b'])
                    out += [(x, ('break',)) for x in b]
            return out
        return run_loop(I, st, fr, n, None, body, forever=True)
    forever = _isconst(n['c'])
    return run_loop(I, st, fr, n, None if forever and _true(n['c']) else _exprcond(I, fr, n['c']), lambda s: I.exec(s, fr, n['b']), forever=forever and _true(n['c']))


def _true(e):
    while e is not None and e['k'] in ('cast', 'sil'):
        e = e['e']
    return e is None or (e['k'] == 'int' and int(e['v']) != 0)


def do_loop(I, st, fr, n):
    forever = _isconst(n['c']) and _true(n['c'])
    return run_loop(I, st, fr, n, None if forever else _exprcond(I, fr, n['c']), lambda s: I.exec(s, fr, n['b']), post=True, forever=forever)


def for_loop(I, st, fr, n):
    pre = I.exec(st, fr, n['i']) if n.get('i') is not None else [(st, None)]
    declared = [v for v in n['i']['v'] if 'unk' not in v] if n.get('i') is not None and n['i']['k'] == 'decl' else []
    out = []
    forever = n.get('c') is None or (_isconst(n['c']) and _true(n['c']))

    def inc(s):
        if n.get('inc') is None:
            return [(s, None)]

        def f():
            r = []
            for x, _ in I.ev(s, fr, n['inc']):
                if x.guards:
                    I.endfull(x, n)
                r.append((x, None))
            return r
        return I.stmt_sink(f)
    for s, fl in pre:
        if fl is not None:
            out.append((s, fl))
            continue
        out += run_loop(I, s, fr, n, None if forever else _exprcond(I, fr, n['c']), lambda x: I.exec(x, fr, n['b']), inc, forever=forever)
    return I.leave(out, fr, declared)


def range_loop(I, st, fr, n):
    """for (v : range)"""
    out = []
    re_ = n['r']
    rtk = I.p.tk(re_['t'])
    v = n['v']
    vtk = I.p.tk(v['t'])

    def ranges():
        r = []
        for s, x in I.ev(st, fr, re_):
            if isinstance(x, tuple):
                loc = I.resolve(s, x)
            elif isinstance(x, V) and x.k == 'ptr':
                loc = x.a[0]
            else:
                loc = I.newroot(s)
                s.store[loc] = x
            r.append((s, loc))
        return r
    rs, sk = I.with_sink(ranges)
    out += [(s, ('throw', x)) for s, x in sk]
    etk = rtk.sub('elem') if rtk.k == 'seq' else None
    for s, loc in rs:
        if rtk.k != 'seq':
            I.note(s, 'range over unknown type', rtk.s)
        I.frid = s.fresh()
        it_ = ('v', I.frid, '#i')
        s.store[it_] = L(0)
        I.loctk.setdefault(it_, None)
        I.loctk.setdefault(loc, rtk)
        I.load_seq(s, loc, rtk)
        vloc = ('v', fr.id, v['id'])

        def cond(x):
            i = x.store[it_]
            return [(x, cmp_('<', i, seqlen(I.load_seq(x, loc, rtk).a[0])))]

        def body(x):
            i = x.store[it_]
            eloc = loc + (('[]', i),)
            before = I.load_seq(x, loc, rtk)
            for k in [k for k in x.store if k[:3] == vloc]:
                del x.store[k]
            xs = []
            if vtk.k == 'ref':
                x.store[vloc] = V('iter', loc, i, False)
                xs = [x]
                segs = before.a[0]
                if 1 < len(segs) <= 3:
                    # which part of the sequence the element belongs to
                    pos = L(0)
                    for g in segs[:-1]:
                        pos = pos + seglen(g)
                        xs = [w for y in xs for zz in y.split(cmp_('<', i, pos)) for w in zz]
            else:
                I.loctk[vloc] = vtk
                if v.get('init') is not None and False:
                    pass
                for y, val in I.seq_at_all(x, before, i, etk or vtk):
                    if isinstance(val, V) and val.k == 'rec':
                        I.store_val(y, vloc, val)
                        y.store[vloc] = V('rec', vloc, val.a[1])
                    else:
                        if isinstance(val, Lin) and vtk.k == 'bool':
                            val = cmp_('!=', val, 0)
                        if isinstance(val, Lin) and vtk.k in ('int', 'enum') and etk is not None and etk.idx != vtk.idx:
                            for z, w in I.wrap(y, val, vtk):
                                z.store[vloc] = w
                                xs.append(z)
                            continue
                        y.store[vloc] = val
                    xs.append(y)
            r = []
            for y in xs:
                for z, fl in I.exec(y, fr, n['b']):
                    after = z.store.get(loc)
                    if after is not None and after != before and fl in (None, ('cont',)) and not _sameshape(before, after):
                        I.ubs.append(('iterator-invalidation', I.curfn(), n.get('l'), z.copy(), loc))
                    r.append((z, fl))
            return r

        def inc(x):
            x.store[it_] = x.store[it_] + 1
            return [(x, None)]
        out += run_loop(I, s, fr, n, cond, body, inc)
    return out


def _sameshape(a, b):
    return a.k == 'seq' and b.k == 'seq' and seqlen(a.a[0]) == seqlen(b.a[0])


# ------------------------------------------------------------------ summarisation

def _isbool(v):
    return isinstance(v, tuple)


def _const(v):
    """a value which is the same on every iteration and enumerable"""
    if isinstance(v, Lin):
        return v.is_const()
    if isinstance(v, tuple):
        return v in (T, F)
    return False


_skeys = {}      # the same loop summarised from the same state is the same event


def distinct(xs, i, own=None):
    """without the duplicates of states; those that left the loop from other partitions are one"""
    if len(xs) < 2:
        return xs
    seen, out = {}, []
    for x in xs:
        try:
            k = (None if own is not None else x[0], x[i].key(own)) + tuple(y for j, y in enumerate(x) if j not in (0, i) and not isinstance(y, State))
            o = seen.get(k)
            if o is not None:
                if own is not None:
                    for n, e in enumerate(o.events):
                        if e.kind == 'loop' and e.x is own:
                            more = [f for f in x[i].events if f.kind == 'loop' and f.x is own]
                            o.events[n] = Ev('loop', None, None, e.args + tuple(c for f in more for c in f.args if c not in e.args), None, e.line, e.file, e.fn, own)
                continue
            seen[k] = x[i]
        except TypeError:
            pass
        out.append(x)
    return out


class Sum(object):
    def __init__(self, I, st0, fr, n, step):
        self.I, self.st0, self.step, self.n = I, st0, step, n
        I.loopid = st0.fresh()
        f = I.curfn()
        self.info = LoopInfo(I.loopid, n.get('l', 0), f['n'] if f else '', f['file'] if f else '')
        self.info.entrystate = st0
        self.cl = {}           # loc -> class
        self.vers = set()
        self.dyns = set()
        self.combos = None
        self.tried = False
        self.fr = fr
        self.K = self.info.K

    # -- head states
    def hv(self, loc, what='h'):
        return (what, self.info.id, loc)

    def v0(self, loc):
        return self.st0.store.get(loc)

    def havval(self, loc, st):
        v0 = self.v0(loc)
        tk = self.I.loctk.get(loc)
        key = self.hv(loc)
        if isinstance(v0, Lin):
            if tk is not None and tk.k in ('int', 'enum'):
                return tk.mk(key)
            s = v0.single()
            return L(sym(key, None, None))
        if isinstance(v0, tuple):
            return in_(sym(key, fin=(0, 1)), frozenset((1,)))
        if isinstance(v0, V) and v0.k == 'seq':
            ek = tk.elemkind() if tk is not None and tk.k == 'seq' else self.ekof(v0)
            return wholeseq(sbase(key, ek))
        if tk is not None:
            v = tk.mk(key)
            if v is not None:
                return v
        if isinstance(v0, V):
            if v0.k in ('ptr', 'null', 'psym'):
                return psym(key)
            if v0.k == 'weak':
                return V('weak', psym(key))
            if v0.k in ('clo', 'nofn', 'fsym'):
                return V('fsym', key)
        return term('hv', key)

    def ekof(self, v):
        for s in v.a[0]:
            if s[0] in ('s', 'v'):
                return s[1].ek
        return 'char'

    def headval(self, loc, c, st):
        k = c[0]
        K = self.K
        if k == 'ind':
            return c[1] + L(K).scale(c[2])
        if k in ('trial', 'mono', 'hav'):
            return c[1]
        if k == 'app':
            return V('seq', normsegs(c[1].a[0] + (('l', self.info.id, loc, L(c[2])),)))
        if k == 'appc':
            return V('seq', normsegs(c[1].a[0] + (('c', c[3], c[2], L(K)),)))
        if k == 'drop':
            b = c[1]
            return V('seq', normsegs((('s', b[1], b[2] + c[2], b[3]),)))
        if k == 'itind':
            v = c[1]
            return V('iter', v.a[0], v.a[1] + L(K).scale(c[2]), v.a[2])
        if k == 'itmono':
            v = c[1]
            return V('iter', v.a[0], c[2], v.a[2])
        raise AssertionError(k)

    def heads(self, invs=()):
        """[(combo, state)]"""
        fin = sorted([l for l, c in self.cl.items() if c[0] == 'fin'], key=repr)
        self.fin = fin
        out = []
        entry = tuple(self.v0(l) for l in fin)
        if self.combos is None or self.comblocs != fin:
            self.combos = [entry]
            self.comblocs = fin
        self.entry = entry
        for combo in self.combos:
            st = self.st0.copy()
            for loc in self.vers:
                self.I.havoc(st, loc)
                for k in [k for k in self.cl if k[:len(loc)] == loc]:
                    pass
            for loc in self.dyns:
                st.dyn.pop(loc, None)
            for loc, c in self.cl.items():
                if c[0] == 'fin':
                    st.store[loc] = combo[fin.index(loc)]
                elif c[0] == 'gone':
                    self.I.havoc(st, loc)
                else:
                    st.store[loc] = self.headval(loc, c, st)
            st.events.append(Ev('loop', None, None, (combo,), None, self.info.line, self.info.file, self.info.fn, self.info))
            ss = [st]
            for c in self.side():
                ss = [y for x in ss for y in x.assume(c)]
            for c in invs:
                ss = [y for x in ss for y in x.assume(c)]
            for x in ss:
                out.append((combo, x))
        return out

    def side(self):
        """bounds coming with the classes"""
        out = []
        for loc, c in self.cl.items():
            if c[0] == 'mono':
                out.append(cmp_('>=', c[1], c[2]) if c[3] > 0 else cmp_('<=', c[1], c[2]))
            elif c[0] == 'itmono':
                v0 = c[1].a[1]
                if c[3]:
                    out.append(cmp_('>=', c[2], v0) if c[3] > 0 else cmp_('<=', c[2], v0))
            elif c[0] == 'drop':
                out.append(cmp_('>=', c[2], 0))
                out.append(cmp_('<=', c[2], c[1][3] - c[1][2]))
        return out

    def run(self, heads):
        backs, exits = [], []
        for combo, h in heads:
            hc = h.copy()
            r, _ = self.step(h)
            for kind, y, fl in r:
                if kind == 'back':
                    for z in self.concretise(y):
                        backs.append((combo, hc, z))
                else:
                    exits.append((combo, y, fl))
        if len(backs) + len(exits) > self.I.MAXSTATES:
            from .interp import Budget
            raise Budget('too many states in a loop at line %s' % self.n.get('l'))
        return distinct(backs, 2), distinct(exits, 1, self.info)

    def concretise(self, y):
        """flags are split by their value at the end of an iteration"""
        cur = [y]
        for loc, v0 in self.st0.store.items():
            if not isinstance(v0, tuple) or v0 not in (T, F) or loc[0] not in ('v', 'o', 'n'):
                continue
            nxt = []
            for z in cur:
                v = z.store.get(loc)
                if not isinstance(v, tuple) or not v or v in (T, F) or v[0] not in ('in', 'p', 'np', 'le', 'eq', 'ne', 'and', 'or'):
                    nxt.append(z)
                    continue
                a, b = z.split(v)
                for q, val in [(q, T) for q in a] + [(q, F) for q in b]:
                    q.store[loc] = val
                    nxt.append(q)
            cur = nxt
        return cur

    # -- which locations change and how
    def known(self, loc):
        """makes loc present in the entry state; False when it is a temporary of the iteration"""
        st0 = self.st0
        if loc in st0.store:
            return True
        root = loc[0]
        if root == 'v':
            # a local of the body (or of an inlined call), unless its owner exists at the head
            r = loc[:3]
            if not any(k[:3] == r for k in st0.store):
                return False
        elif root == 'n':
            r = loc[:2]
            if not any(k[:2] == r for k in st0.store):
                return False
        elif root == 'curexc':
            return False
        elif root == 'str':
            return False
        tk = self.I.loctk.get(loc)
        if tk is None:
            return None
        w, self.I.pol.watch = self.I.pol.watch, False        # the program does not read it here
        self.I.load(st0, loc, tk)
        self.I.pol.watch = w
        return loc in st0.store

    def classify(self, backs):
        """updates the classes from the back states; True when something changed"""
        changed = False
        st0 = self.st0
        locs = set()
        for combo, h, b in backs:
            for k, v in b.store.items():
                if k not in self.cl and h.store.get(k) is not v and h.store.get(k) != v:
                    locs.add(k)
            for k in h.store:
                if k not in b.store and k not in self.cl:
                    locs.add(k)
            for k, v in b.ver.items():
                if h.ver.get(k) != v and k not in self.vers:
                    r = k[:3] if k[0] == 'v' else k[:2]
                    if k[0] in ('v', 'n') and not any(q[:len(r)] == r for q in st0.store):
                        continue
                    self.vers.add(k)
                    changed = True
            for k, v in b.dyn.items():
                if k in h.dyn and h.dyn[k] != v:
                    self.dyns.add(k)
                    changed = True
        if changed:
            # forget the classes below havocked trees
            for v in self.vers:
                for k in [k for k in self.cl if k[:len(v)] == v]:
                    del self.cl[k]
        for loc in sorted(locs, key=repr):
            if any(loc[:len(v)] == v for v in self.vers):
                continue
            kn = self.known(loc)
            if kn is False:
                continue
            if kn is None:
                self.I.note(self.st0, 'loop changes untyped location', repr(loc))
                self.cl[loc] = ('gone',)
                changed = True
                continue
            v0 = st0.store[loc]
            vals = [b.store.get(loc, v0) for _, _, b in backs]
            if all(v == v0 for v in vals):
                continue
            self.cl[loc] = self.first(loc, v0, vals)
            changed = True
        if changed:
            self.combos = None
            return True
        # refine existing classes
        newcombos = []
        for loc, c in list(self.cl.items()):
            prs = [(h.store.get(loc), b.store.get(loc), b) for _, h, b in backs]
            if c[0] == 'gone':
                continue
            n = self.refine(loc, c, prs)
            if n is not None and n != c:
                self.cl[loc] = n
                changed = True
        if changed:
            self.combos = None
            return True
        for combo, h, b in backs:
            d = tuple(b.store[l] for l in self.fin)
            if d not in self.combos:
                self.combos.append(d)
                changed = True
        if len(self.combos) > MAXCOMBO:
            big = max(self.fin, key=lambda l: len(set(c[self.fin.index(l)] for c in self.combos)))
            self.cl[big] = self.hav(big)
            self.combos = None
        return changed

    def hav(self, loc):
        return ('hav', self.havval(loc, self.st0))

    def first(self, loc, v0, vals):
        tk = self.I.loctk.get(loc)
        if isinstance(v0, Lin):
            if tk is not None and tk.k == 'enum' and v0.is_const() and all(_const(v) for v in vals):
                return ('fin',)
            return ('trial', self.intsym(loc, 't'))
        if isinstance(v0, tuple):
            if v0 in (T, F) and all(v in (T, F) for v in vals):
                return ('fin',)
            return self.hav(loc)
        if v0.k == 'seq':
            ek = tk.elemkind() if tk is not None and tk.k == 'seq' else self.ekof(v0)
            return ('trial', wholeseq(sbase(self.hv(loc, 't'), ek)))
        if v0.k == 'iter' and all(isinstance(v, V) and v.k == 'iter' and v.a[0] == v0.a[0] and v.a[2] == v0.a[2] for v in vals):
            return ('itmono', v0, L(sym(self.hv(loc, 't'), None, None)), 0)
        if len(set(vals)) <= 2 and v0.k in ('ptr', 'null', 'nofn', 'guard') and all(isinstance(v, V) and v.k in ('ptr', 'null', 'nofn', 'guard') and not (v.k == 'ptr' and v.a[0][0] == 'n' and v.a[0] not in self.st0.store) for v in vals):
            return ('fin',)
        return self.hav(loc)

    def refine(self, loc, c, prs):
        k = c[0]
        v0 = self.v0(loc)
        K = self.K
        if any(b is None for _, b, _ in prs):
            return self.hav(loc)
        if k == 'fin':
            def ok(b):
                return _const(b) or (isinstance(b, V) and b.k in ('ptr', 'null', 'nofn', 'guard'))
            vals = set(b for _, b, _ in prs)
            if not all(ok(b) for b in vals) or len(vals) > 14:
                return self.hav(loc)
            return c
        if isinstance(v0, Lin):
            if not all(isinstance(b, Lin) for _, b, _ in prs):
                return self.hav(loc)
            if k == 'trial':
                ds = [b - h for h, b, _ in prs]
                if all(d.is_const() for d in ds):
                    cs = set(d.c for d in ds)
                    if len(cs) == 1:
                        return ('ind', v0, cs.pop())
                    if min(cs) >= 0:
                        return ('mono', self.monosym(loc), v0, 1)
                    if max(cs) <= 0:
                        return ('mono', self.monosym(loc), v0, -1)
                    return self.hav(loc)
                if v0.is_const() and all(b.is_const() or d == L(0) for (h, b, _), d in zip(prs, ds)):
                    if len(set([v0.c] + [b.c for _, b, _ in prs if b.is_const()])) <= 14:
                        return ('fin',)
                    return self.hav(loc)
                return self.hav(loc)
            if k == 'ind':
                # the head value is v0 + c*K ; the back value must be v0 + c*(K+1)
                for h, b, s in prs:
                    if not s.equal(b, h + c[2]):
                        ds = [b - h for h, b, _ in prs]
                        if all(d.is_const() for d in ds):
                            cs = [d.c for d in ds]
                            if min(cs) >= 0:
                                return ('mono', self.monosym(loc), v0, 1)
                            if max(cs) <= 0:
                                return ('mono', self.monosym(loc), v0, -1)
                        return self.hav(loc)
                return c
            if k == 'mono':
                for h, b, s in prs:
                    if not s.entails(cmp_('>=', b, h) if c[3] > 0 else cmp_('<=', b, h)):
                        return self.hav(loc)
                return c
            if k == 'hav':
                return c
        if k == 'itmono' or k == 'itind':
            vv = c[1]
            if not all(isinstance(b, V) and b.k == 'iter' and b.a[0] == vv.a[0] and b.a[2] == vv.a[2] for _, b, _ in prs):
                return self.hav(loc)
            ds = [b.a[1] - h.a[1] for h, b, _ in prs]
            if k == 'itind':
                return c if all(d == L(c[2]) for d in ds) else ('itmono', vv, L(sym(self.hv(loc, 'm'), None, None)), 0)
            if c[3] == 0 and all(d.is_const() for d in ds):
                cs = set(d.c for d in ds)
                if len(cs) == 1 and c[2].single().key[0] == 't':
                    return ('itind', vv, cs.pop())
                if min(cs) >= 0:
                    return ('itmono', vv, L(sym(self.hv(loc, 'm'), None, None)), 1)
                if max(cs) <= 0:
                    return ('itmono', vv, L(sym(self.hv(loc, 'm'), None, None)), -1)
            if c[3] and not all(s.entails(cmp_('>=' if c[3] > 0 else '<=', d, 0)) for d, (_, _, s) in zip(ds, prs)):
                return ('itmono', vv, c[2], 0)
            return c
        if isinstance(v0, V) and v0.k == 'seq':
            if not all(isinstance(b, V) and b.k == 'seq' for _, b, _ in prs):
                return self.hav(loc)
            if k == 'trial':
                base = c[1].a[0][0][1]
                apps = [self.appended(h, b) for h, b, _ in prs]
                if all(a is not None for a in apps):
                    return self.appclass(loc, v0, apps)
                if len(v0.a[0]) == 1 and v0.a[0][0][0] == 's' and all(self.dropped(h, b) is not None for h, b, _ in prs):
                    return ('drop', v0.a[0][0], L(sym(self.hv(loc, 'd'), 0, 2 ** 62)))
                return self.hav(loc)
            if k in ('app', 'appc'):
                apps = [self.appended(h, b) for h, b, _ in prs]
                if any(a is None for a in apps):
                    return self.hav(loc)
                if k == 'appc':
                    n = self.appclass(loc, v0, apps)
                    return n if n[0] == 'appc' else n + ('final',)
                if len(c) == 3 and not any(x[0] == 'trial' for x in self.cl.values()):
                    n = self.appclass(loc, v0, apps)
                    return n if n[0] == 'appc' else c + ('final',)
                return c
            if k == 'drop':
                if any(self.dropped(h, b) is None for h, b, _ in prs):
                    return self.hav(loc)
                return c
            return c
        return c

    def monosym(self, loc):
        return self.intsym(loc, 'm')

    def intsym(self, loc, what):
        tk = self.I.loctk.get(loc)
        if tk is not None and tk.k == 'int':
            lo, hi = tk.range()
            if hi > 2 ** 63:
                hi = 2 ** 63       # counters do not wrap around within the life of a process
            return L(sym(self.hv(loc, what), lo, hi))
        return L(sym(self.hv(loc, what), None, None))

    def appended(self, h, b):
        hs, bs = h.a[0], b.a[0]
        if bs[:len(hs)] == hs:
            return bs[len(hs):]
        # the last segment of the head may have been merged with what follows
        if hs and bs[:len(hs) - 1] == hs[:-1] and len(bs) >= len(hs):
            p, q = hs[-1], bs[len(hs) - 1]
            if p[0] == 's' and q[0] == 's' and p[1] is q[1] and p[2] == q[2]:
                return normsegs((('s', p[1], p[3], q[3]),) + bs[len(hs):])
            if p[0] == 'r' and q[0] == 'r' and p[1] == q[1]:
                return normsegs((('r', p[1], q[2] - p[2]),) + bs[len(hs):])
        return None

    def dropped(self, h, b):
        if not b.a[0]:
            return seqlen(h.a[0])
        if len(b.a[0]) == 1 and len(h.a[0]) == 1:
            p, q = h.a[0][0], b.a[0][0]
            if p[0] == 's' and q[0] == 's' and p[1] is q[1] and p[3] == q[3]:
                return q[2] - p[2]
            if p[0] == 's' and q[0] == 'e':
                el = elemof(q)
                if el and el[0] is p[1] and el[1] + 1 == p[3]:
                    return p[3] - 1 - p[2]
        return None

    def appclass(self, loc, v0, apps):
        K = self.K
        a0 = apps[0]
        if all(a == a0 for a in apps) and a0 and not self.foreign(a0, loc):
            k = sym(('comp', self.info.id), 0, 2 ** 62)
            tmpl = subst(a0, lambda y: L(k) if y is K else None)
            return ('appc', v0, tmpl, k)
        return ('app', v0, sym(self.hv(loc, 'n'), 0, 2 ** 62))

    def foreign(self, x, loc):
        """mentions symbols of the iteration other than K"""
        lid = self.info.id
        return bool(mentioned(x, lambda y: hasattr(y, 'key') and isinstance(y.key, tuple) and len(y.key) >= 2 and
                            ((y.key[0] in ('t', 'm', 'h', 'n', 'd') and y.key[1] == lid) or y.key[0] in FRESH or y.key[0] == 'comp'
                             or (y.key[0] == 'iter' and y.key[1] > lid))))

    # -- invariants
    def headsyms(self):
        """symbols standing for head values: sym -> loc"""
        out = {}
        for loc, c in self.cl.items():
            if c[0] in ('trial', 'mono', 'hav') and isinstance(c[1], Lin) and c[1].single() is not None:
                out[c[1].single()] = (loc, 'v')
            elif c[0] == 'itmono':
                out[c[2].single()] = (loc, 'i')
            elif c[0] == 'app':
                out[c[2]] = (loc, 'n')
            elif c[0] == 'drop':
                out[c[2].single()] = (loc, 'd')
            elif c[0] in ('hav',) and isinstance(c[1], V) and c[1].k == 'seq':
                out[c[1].a[0][0][1].len] = (loc, 'len')
        return out

    def invariants(self):
        hs = self.headsyms()
        heads = self.heads()
        backs, _ = self.run(heads)
        cands = []
        cands0 = []
        for s, (loc, kind) in hs.items():
            if kind == 'len':
                n0 = seqlen(self.v0(loc).a[0])
                cands0 += [L(s) - n0, n0 - L(s)]

        def add(l):
            if l.t and l not in cands and len(cands) < 60:
                cands.append(l)
        for combo, h, b in backs:
            for a in b.asm[len(h.asm):]:
                if a[0] not in ('le', 'eq', 'ne'):
                    continue
                l = a[1]
                if not any(s is self.K or s in hs for s in l.syms()):
                    continue
                if a[0] == 'le':
                    add(l)
                    add(l - 1)
                    c = abs(l.coef(self.K))
                    if c > 1:
                        add(l - c)
                else:
                    add(l)
                    add(-l)
        for s, (loc, kind) in hs.items():
            if kind == 'n':
                # what the rounds add, when the lengths are known
                ns = []
                for combo, h, b in backs:
                    hv, bv = h.store.get(loc), b.store.get(loc)
                    a = self.appended(hv, bv) if isinstance(hv, V) and isinstance(bv, V) and hv.k == 'seq' and bv.k == 'seq' else None
                    n = seqlen(a) if a is not None else None
                    ns.append(n.c if n is not None and not n.t else None)
                if ns and None not in ns:
                    if min(ns) > 0:
                        cands0.append(L(self.K).scale(min(ns)) - L(s))
                    cands0.append(L(s) - L(self.K).scale(max(ns)))
        cands += [l for l in cands0 if l.t and l not in cands]
        if not cands:
            return []
        entry = {self.K: L(0)}
        for s, (loc, kind) in hs.items():
            v0 = self.v0(loc)
            entry[s] = v0 if kind == 'v' else v0.a[1] if kind == 'i' else L(0) if kind in ('n', 'd') else seqlen(v0.a[0])
        good = []
        for c in cands:
            e = substmap(c, entry)
            if self.st0.entails(atom('le', e)):
                good.append(c)
        for rnd in range(8):
            if not good:
                return []
            heads = self.heads([atom('le', c) for c in good])
            backs, _ = self.run(heads)
            bad = []
            for combo, h, b in backs:
                m = {self.K: L(self.K) + 1}
                for s, (loc, kind) in hs.items():
                    hv, bv = h.store[loc], b.store[loc]
                    if kind == 'v':
                        m[s] = bv if isinstance(bv, Lin) else L(s)
                    elif kind == 'i':
                        m[s] = bv.a[1]
                    elif kind == 'n':
                        m[s] = L(s) + seqlen(self.appended(hv, bv) or ())
                    elif kind == 'd':
                        d = self.dropped(hv, bv)
                        m[s] = L(s) + (d if d is not None else 0)
                    else:
                        m[s] = seqlen(bv.a[0])
                for c in good:
                    if c not in bad and not b.entails(atom('le', substmap(c, m))):
                        bad.append(c)
            if not bad:
                return good
            good = [c for c in good if c not in bad]
        return []

    def deadlocs(self, nub, nsk):
        """variables with several values at the head that are always written before they are read: the values need no partitions"""
        I = self.I
        if self.tried or self.combos is None or len(self.combos) < 2:
            return ()
        self.tried = True
        cand = [l for i, l in enumerate(self.fin) if l[0] == 'v' and len(l) == 3 and len(set(c[i] for c in self.combos)) > 1 and l not in I.poison]
        if not cand:
            return ()
        heads = self.heads()
        real = {}
        for combo, h in heads:
            for l in cand:
                real[l] = h.store[l]
                h.store[l] = POISON
        I.poison.update(real)
        read = I.poisoned
        I.poisoned = set()
        try:
            backs, exits = self.run(heads)
            for st, away in [(b, False) for _, _, b in backs] + [(x, fl is not None and fl[0] in ('ret', 'throw')) for _, x, fl in exits]:
                for l in cand:
                    if st.store.get(l) is POISON and not (away and l[1] == self.fr.id):
                        I.poisoned.add(l)
            dead = [l for l in cand if l not in I.poisoned]
        except (AttributeError, TypeError, KeyError, IndexError):
            dead = ()
        finally:
            for l in cand:
                I.poison.pop(l, None)
            I.poisoned = read | I.poisoned
        del I.ubs[nub:]
        del I.sink[nsk:]
        return dead

    def unrolled(self, n):
        """pass by pass, when every path leaves the loop within n of them"""
        I = self.I
        nub, nsk, nl = len(I.ubs), len(I.sink), len(I.loops)
        cur, out = [self.st0.copy()], []
        for i in range(n + 1):
            nxt = []
            for s in cur:
                r, _ = self.step(s)
                for kind, y, fl in r:
                    if kind == 'back':
                        nxt.append(y)
                    else:
                        out.append((y, fl))
            cur = nxt
            if not cur:
                return out
            if len(cur) > 400:
                break
        del I.ubs[nub:]
        del I.sink[nsk:]
        del I.loops[nl:]
        return None

    def go(self):
        I = self.I
        if I.pol.unroll:
            r = self.unrolled(I.pol.unroll)
            if r is not None:
                return r
        nub, nsk = len(I.ubs), len(I.sink)
        backs = []
        for rnd in range(30):
            heads = self.heads()
            backs, exits = self.run(heads)
            del I.ubs[nub:]
            del I.sink[nsk:]
            if not backs:
                break
            if not self.classify(backs):
                dead = self.deadlocs(nub, nsk)
                if not dead:
                    break
                for loc in dead:
                    self.cl[loc] = self.hav(loc)
                self.combos = None
        else:
            I.note(self.st0, 'loop summary did not converge')
            for loc in list(self.cl):
                if self.cl[loc][0] != 'gone':
                    self.cl[loc] = self.hav(loc)
            self.combos = None
            for rnd in range(30):
                heads = self.heads()
                backs, exits = self.run(heads)
                del I.ubs[nub:]
                del I.sink[nsk:]
                ch = False
                old = dict(self.cl)
                self.classify(backs)
                for loc in list(self.cl):
                    if loc not in old and self.cl[loc][0] != 'gone':
                        self.cl[loc] = self.hav(loc)
                        ch = True
                if not ch:
                    break
        if not backs:
            # at most one pass
            del I.ubs[nub:]
            r, _ = self.step(self.st0.copy())
            return [(y, fl) for kind, y, fl in r if kind == 'exit']
        invs = self.invariants()
        del I.ubs[nub:]
        del I.sink[nsk:]
        heads = self.heads([atom('le', c) for c in invs])
        backs, exits = self.run(heads)
        info = self.info
        info.classes = dict(self.cl)
        info.finlocs = tuple(self.fin)
        info.entry = self.entry
        info.invs = invs
        for combo, h, b in backs:
            k = Back()
            k.src = combo
            k.dst = tuple(b.store[l] for l in self.fin)
            k.state, k.head = b, h
            k.events = b.events[len(h.events):]
            k.trans = {l: (h.store.get(l), b.store.get(l)) for l in self.cl}
            info.backs.append(k)
        try:
            sk = (info.line, info.file, info.fn, info.entry, frozenset((b.src, b.dst, b.state.key(since=len(b.head.events))) for b in info.backs))
            info.skey = 'loop%d' % _skeys.setdefault(sk, len(_skeys))
        except TypeError:
            pass
        I.loops.append(info)
        return [(y, fl) for combo, y, fl in exits]


def summarise(I, st0, fr, n, step):
    return Sum(I, st0.copy(), fr, n, step).go()
