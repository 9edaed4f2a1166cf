"""C27: no deferred callback touches a destroyed object."""
from .roles import *
from .callgraph import calls, bodyof, lib

META = {
    'technique': 'ownership and liveness analysis of every callback handed over for later execution: abstract execution of the functions that hand one over gives the captured values and what they own; abstract execution of the callback checks that every access to an object that is not kept alive happens only where the check of its lifetime token succeeded',
    'note': 'Callbacks are found by where they are given to (the scheduler, the asynchronous operations of the network library), through any helper function.',
    'explanation': 'Every callback given to Scheduler::Post, to an asynchronous operation or to post/dispatch/defer: no capture by reference of the enclosing function; an object used through a raw pointer is kept alive by a captured owner, or a weak reference to something only that object owns is found valid before each use; buffers of asynchronous operations are not locals of the enclosing function.',
    'assumptions': ['a check of the lifetime token and the use that follows it are not interleaved with the destruction of the object (both happen on the thread of the scheduler)', 'no use of an object by a callback of the application'],
}
DEFER = ('Post', 'post', 'dispatch', 'defer')
T0 = ('o', 'this')


def deferring(name):
    sn = name.split('::')[-1]
    return sn in DEFER or sn.startswith('async_')


def check(rep, tier):
    rep.rule('noref', 'a deferred callback captures nothing of the enclosing function by reference')
    rep.rule('alive', 'it uses an object only while it keeps it alive, or after having checked that it still exists')
    rep.rule('token', 'what is checked is owned by that object alone')
    rep.rule('buffer', 'the buffer of an asynchronous operation is no local of the function that starts it')
    for n in ('core', 'boost', 'standalone'):
        Check(rep, prog(n)).run()


class Notes(Policy):
    def __init__(self):
        self.bufs = {}
        self.kept = []

    def hook(self, I, st, fr, name, e, obj, args):
        sn = name.split('::')[-1]
        if sn == 'buffer' and args:
            self.bufs[e.get('l')] = args[0]
        return None


class Uses(Policy):
    """records the accesses to some objects made without a successful check"""
    watch = True

    def __init__(self, objs, tokens):
        self.objs, self.tokens = objs, tokens
        self.found = []
        self.used = set()

    def of(self, loc):
        for o in self.objs:
            if isinstance(loc, tuple) and loc[:len(o)] == o:
                return o
        return None

    def checked(self, st, o):
        for w in self.tokens.get(o, ()):
            for k, v in st.preds.items():
                if k[0] == 'expired' and v is False and len(k) > 1 and k[1] == w:
                    return True
                if k[0] == 'nonnull' and v is True and w.a and len(k) > 1 and k[1] == w.a[0]:
                    return True
        return False

    def see(self, I, st, loc):
        o = self.of(loc)
        if o is None:
            return
        self.used.add(o)
        if not self.checked(st, o):
            f = I.curfn()
            self.found.append((o, loc, f, st))

    def on_load(self, I, st, loc):
        self.see(I, st, loc)

    def on_store(self, I, st, loc, v):
        self.see(I, st, loc)

    def hook(self, I, st, fr, name, e, obj, args):
        o = obj
        if isinstance(o, V) and o.k == 'ptr':
            o = o.a[0]
        if isinstance(o, tuple) and o and e.get('k') == 'mcall' and o in self.objs and e.get('t') is not None and not deferring(name):
            self.see(I, st, o)
            # what happens inside is on the same object
            tk = I.p.tk(e['t'])
            if tk.k in ('ref', 'rec', 'opq'):
                return None
            return [(st, VOID if tk.s == 'void' else tk.mk(('res', name, st.fresh())))]
        return None


class Check(object):
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.seen = set()

    def roots(self):
        """the functions from which a callback is handed over, directly or through other functions"""
        p = self.p
        fs = [f for f in p.functions.values() if f.get('repo') and f.get('body') is not None and lib(f)]
        callees = {}
        direct = []
        for f in fs:
            cs = calls(bodyof(f))
            callees[f['id']] = set(strip(c['n']) for c in cs)
            if any(deferring(strip(c['n'])) and c.get('k') in ('call', 'mcall') for c in cs):
                direct.append(f)
        out = list(direct)
        names = set(strip(f['n']) for f in direct)
        for depth in range(2):
            nxt = [f for f in fs if f not in out and callees[f['id']] & names and haslambda(bodyof(f))]
            if depth == 0:
                nxt += [f for f in fs if f not in out and f not in nxt and callees[f['id']] & names and not f.get('rec_lam')]
            if depth == 0:
                nxt += [f for f in fs if f not in out and f not in nxt and reflambda(bodyof(f))]
            out += nxt
            names = set(strip(f['n']) for f in nxt)
        return direct, out

    def run(self):
        p, rep = self.p, self.rep
        direct, roots = self.roots()
        n = 0
        for f in roots:
            if strip(f['n']).startswith('harness'):
                continue
            r = p.rec(f['rec']) if f.get('rec') is not None else None
            if r is not None and r.get('lam'):
                continue            # runs as part of the function that makes it
            for leaf in self.leaves(r):
                pol = Notes()
                st = State()
                if leaf is not None:
                    st.dyn[T0] = leaf
                try:
                    I, outs = runfn(rep, p, f, pol, st, maxsteps=200000 if f in direct else 20000)
                except Exception as x:
                    if f in direct:
                        rep.und('alive', '%s: %s' % (strip(f['n']), x))
                    continue
                for s, fl in outs:
                    n += self.events(f, s, s.events, pol, I)
                    self.stored(f, s)

    def leaves(self, r):
        """the classes an object can have, whose member functions are the final overriders"""
        p = self.p
        if r is None or not any(p.fn(m) and p.fn(m).get('virt') for m in r.get('methods') or []):
            return [None]
        out = []
        for q in p.records.values():
            if not q.get('repo') or q.get('lam') or q['id'] == r['id'] or strip(q['n']).startswith('harness'):
                continue
            if r['id'] in p.bases(q['id']):
                out.append(q['id'])
        top = [i for i in out if not any(i != j and i in p.bases(j) for j in out)]
        return top[:4] or [r['id']]

    def events(self, f, s, evs, pol, I):
        n = 0
        bufs = {}
        bound = {}
        for e in evs:
            if e.kind == 'loop':
                for b in e.x.backs:
                    n += self.events(f, b.state, b.events, pol, I)
                continue
            if e.kind not in ('ext', 'vcall', 'user'):
                continue
            sn = (e.name or '').split('::')[-1]
            if sn == 'buffer':
                bufs[repr(e.res)] = (e, pol.bufs.get(e.line))
            if sn in ('bind', 'mem_fn', 'bind_front'):
                bound[repr(e.res)] = e
            if not e.name or not deferring(strip(e.name)):
                continue
            for a in e.args:
                if isinstance(a, V) and a.k == 'ptr' and isinstance(a.a[0], tuple):
                    v = s.store.get(a.a[0])
                    if v is not None:
                        a = v
                if isinstance(a, V) and a.k == 'clo':
                    n += 1
                    self.callback(f, s, e, a)
                elif repr(a) in bound:
                    self.bound(f, s, e, bound[repr(a)])
                elif repr(a) in bufs:
                    self.buffer(f, s, e, *bufs[repr(a)])
        return n

    def buffer(self, f, s, e, be, loc):
        if isinstance(loc, V) and loc.k == 'ptr':
            loc = loc.a[0]
        if isinstance(loc, tuple) and loc and loc[0] in ('v', 'n', 't') and not strip(e.name).split('::')[-1] in DEFER:
            self.rep.bad('buffer', *at(e), msg='the buffer of an asynchronous operation is a local of the function that starts it', path=trace(s))
        else:
            self.rep.ok('buffer')

    def bound(self, f, s, e, be):
        raw = [a for a in be.args if isinstance(a, V) and a.k == 'ptr' and a.a[0][:2] == T0]
        own = any(x.kind == 'shared_from_this' for x in s.events)
        if raw and not own:
            self.rep.bad('alive', *at(e), msg='a callback bound to a raw pointer is executed later', path=trace(s))
        else:
            self.rep.und('alive', 'a bound callback')

    # ------------------------------------------------------------
    def callback(self, f, s, e, clo):
        p, rep = self.p, self.rep
        key = (p.name, clo.a[1], tuple((b, v.k, v.a[0].k if v.k == 'weak' else '') if isinstance(v, V) else b for nm, b, v in clo.a[2]), e.line)
        if key in self.seen:
            return
        r = p.rec(clo.a[1])
        ftks = [p.tk(x['t']) for x in r['fields']] if r else []
        caps = clo.a[2]
        refs = [c for c in caps if c[1] == 'ref']
        where = at(e)
        local = [c for c in refs]
        if local:
            rep.bad('noref', *where, msg='the callback captures %d variable%s of the enclosing function by reference' % (len(local), 's' if len(local) > 1 else ''), path=trace(s))
        else:
            rep.ok('noref')
        owned, raw, weak = [], [], []
        for i, (nm, by, v) in enumerate(caps):
            tk = ftks[i] if i < len(ftks) else None
            self.classify(s, by, v, tk, owned, raw, weak)
        objs = [o for o in raw if not any(o[:len(w)] == w for w in owned)]
        self.seen.add(key)
        if not objs:
            rep.ok('alive')
            self.inside(f, s, clo)
            return
        # tokens: weak references to what only the object owns
        tokens = {}
        for o in objs:
            for w in weak:
                k = w.a[0]
                if k == ptr(o) or k == psym(('weak', o)):
                    tokens.setdefault(o, []).append(w)
                elif isinstance(k, V) and k.k == 'ptr':
                    # made by the constructor
                    at_ = [l for l, v in s.store.items() if v == k and l[:len(o)] == o and len(l) == len(o) + 1]
                    if any(self.unshared(l[-1]) for l in at_):
                        tokens.setdefault(o, []).append(w)
                        rep.ok('token')
                    elif at_:
                        rep.bad('token', *where, msg='what is checked before the object is used (%s) is not owned by that object alone' % (at_[0][-1],), path=trace(s))
                elif isinstance(k, V) and k.k == 'psym' and isinstance(k.a[0], tuple) and k.a[0][0] == 'init':
                    loc = k.a[0][1]
                    if isinstance(loc, tuple) and loc[:len(o)] == o and len(loc) == len(o) + 1 and not isinstance(loc[-1], tuple):
                        if self.unshared(loc[-1]):
                            tokens.setdefault(o, []).append(w)
                            rep.ok('token')
                        else:
                            rep.bad('token', *where, msg='what is checked before the object is used (%s) is not owned by that object alone' % (loc[-1],), path=trace(s))
                    elif isinstance(loc, tuple) and loc and loc[0] == 'g':
                        rep.bad('token', *where, msg='what is checked before the object is used does not belong to the object', path=trace(s))
        g = self.body(clo)
        if g is None:
            rep.und('alive', 'the body of a callback is not known')
            return
        pol = Uses(objs, tokens)
        st = s.copy()
        for k in [k for k in st.preds if k and k[0] in ('expired', 'nonnull')]:
            del st.preds[k]             # it may have changed since
        try:
            I = Interp(p, pol)
            outs = I.run(g, st=st, args=None, clo=clo)
            rep.ran(I, outs)
        except Exception as x:
            rep.und('alive', 'the body of a callback: %s' % x)
            return
        inner = Notes()
        for s2, fl in outs:
            self.events(f, s2, s2.events, inner, I)
        if pol.found:
            o, loc, fn_, st2 = pol.found[0]
            rep.bad('alive', *where, msg='the callback uses %s without knowing that it still exists' % self.what(o, loc), path=trace(st2) or [repr(e)])
        else:
            rep.ok('alive')

    def inside(self, f, s, clo):
        """what the callback hands over in turn"""
        g = self.body(clo)
        if g is None or not any(deferring(strip(c['n'])) for c in calls(bodyof(g))):
            return
        st = s.copy()
        st.dyn = {}
        st.events = []
        try:
            I = Interp(self.p, Notes())
            I.maxsteps = 60000
            outs = I.run(g, st=st, args=None, clo=clo)
            self.rep.ran(I, outs)
        except Exception as x:
            self.rep.und('alive', 'what a callback does: %s' % x)
            return
        for s2, fl in outs:
            self.events(f, s2, s2.events, I.pol, I)

    def what(self, o, loc):
        x = [q for q in loc if isinstance(q, str) and '::' in q]
        return 'the object it was made for' + (' (%s)' % x[-1] if x else '')

    def stored(self, f, s):
        """callbacks kept in an object"""
        for loc, v in s.store.items():
            if not (isinstance(loc, tuple) and loc[:2] == T0 and isinstance(v, V)):
                continue
            for c in clos(v):
                refs = [w for nm, by, w in c.a[2] if by == 'ref' and not (isinstance(w, tuple) and w[:2] == T0)]
                if refs:
                    r = self.p.rec(c.a[1])
                    self.rep.bad('noref', r['file'] if r else f['file'], c.a[3] or f['l'], strip(f['n']), 'a callback kept for later captures a variable of the function by reference', path=trace(s))

    def classify(self, s, by, v, tk, owned, raw, weak):
        if isinstance(v, tuple) and by == 'this':
            raw.append(v)
        elif isinstance(v, tuple) and by == 'ref':
            if v and v[0] == 'o':
                raw.append(v)
        elif isinstance(v, V) and v.k == 'weak':
            weak.append(v)
        elif isinstance(v, V) and v.k in ('ptr', 'psym'):
            o = v.a[0] if v.k == 'ptr' else ('o', v.a[0])
            if tk is not None and tk.k == 'sptr':
                owned.append(o)
            elif tk is not None and tk.k in ('ptr', 'ref') or tk is None:
                raw.append(o)
        elif isinstance(v, V) and v.k == 'clo':
            # a callback that holds another one
            r = self.p.rec(v.a[1])
            ftks = [self.p.tk(x['t']) for x in r['fields']] if r else []
            for i, (nm, b, w) in enumerate(v.a[2]):
                self.classify(s, b, w, ftks[i] if i < len(ftks) else None, owned, raw, weak)

    def body(self, clo):
        f = self.p.fn(clo.a[0]) if clo.a[0] is not None else None
        if f is None:
            for x in self.p.functions.values():
                if x.get('rec') == clo.a[1] and x['sn'] == 'operator()' and x.get('body') is not None:
                    return x
        return f

    def unshared(self, fk):
        """the member is given to no other owner: it is not static, and nowhere copied as an owner"""
        p = self.p
        for f in p.functions.values():
            if not f.get('repo') or f.get('body') is None or not lib(f):
                continue
            if copies(bodyof(f), fk.split('::')[-1], p):
                return False
        return True


def clos(v, d=0):
    out = []
    if d > 6:
        return out
    if isinstance(v, V):
        if v.k == 'clo':
            out.append(v)
        for a in v.a:
            out += clos(a, d + 1)
    elif isinstance(v, tuple):
        for a in v:
            if isinstance(a, (V, tuple)):
                out += clos(a, d + 1)
    return out


def reflambda(x):
    if isinstance(x, dict):
        if x.get('k') == 'lambda' and any(c.get('by') == 'ref' for c in x.get('caps') or []):
            return True
        return any(reflambda(y) for y in x.values() if isinstance(y, (dict, list)))
    if isinstance(x, list):
        return any(reflambda(y) for y in x)
    return False


def haslambda(x):
    if isinstance(x, dict):
        return x.get('k') == 'lambda' or any(haslambda(y) for y in x.values() if isinstance(y, (dict, list)))
    if isinstance(x, list):
        return any(haslambda(y) for y in x)
    return False


def copies(x, name, p):
    """a copy is made of the owner of that name: shared_ptr(const shared_ptr&) of the member"""
    if isinstance(x, dict):
        if x.get('k') == 'ctor' and len(x.get('args') or []) == 1 and x.get('t') is not None and p.tk(x['t']).k == 'sptr' and p.tk(x['t']).s.startswith(('std::shared_ptr', 'const std::shared_ptr')):
            a = x['args'][0]
            while isinstance(a, dict) and a.get('k') in ('cast', 'mat', 'load') and isinstance(a.get('e'), dict):
                a = a['e']
            if isinstance(a, dict) and a.get('k') == 'mem' and str(a.get('fn', '')).split('::')[-1] == name:
                return True
        return any(copies(y, name, p) for y in x.values() if isinstance(y, (dict, list)))
    if isinstance(x, list):
        return any(copies(y, name, p) for y in x)
    return False
