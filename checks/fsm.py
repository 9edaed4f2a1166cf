"""The decoder of a telnet connection as a finite state machine: one step of the received-data function from every reachable state."""
from .kbd import *

TEL = 'cli::detail::CliTelnetSession'
DATA = ('o', 'data')
MAXSTATES = 400


class Reads(Policy):
    watch = True

    def __init__(self, read, globs):
        self.read, self.globs = read, globs

    def on_load(self, I, st, loc):
        if loc[:2] == THIS and len(loc) > 2:
            self.read.add(loc)

    def on_store(self, I, st, loc, v):
        if loc[:1] == ('g',):
            self.globs.add(loc)


class Step(object):
    """on these bytes: the outputs, in order, and the next state"""
    __slots__ = ('bytes', 'out', 'next', 'st', 'flow')


class Telnet(object):
    def __init__(self, rep, p, n=1):
        self.p, self.rep = p, rep
        self.rec = recof(p, TEL)
        self.idle = idle(p, self.rec)
        self.f = self.override('OnDataReceived')
        self.states, self.why = {}, None
        self.open = False                # more states than can be enumerated: explored as far as asked for
        self.tk = {}
        self.init = self.initial()
        self.read, self.globals = set(), set()
        while True:
            n = len(self.read)
            self.explore()
            if len(self.read) == n:
                break
        for l in sorted(self.read, key=repr):
            tk = self.tk.get(l)
            if l not in self.init and l[-1] not in self.idle and tk is not None and tk.k in ('int', 'bool', 'enum', 'seq'):
                self.why = self.why or 'the initial value of %s is not known' % (l[-1],)
        for a in self.states.values():
            for t in a:
                if t.next is None:
                    self.why = self.why or 'the next state of the decoder is not known'

    def explore(self):
        """the states are the values of the members that a step reads"""
        self.states, self.why, self.order = {}, None, []
        todo = [self.freeze(self.init)]
        self.start = todo[0]
        seen = set(todo)
        n = len(self.read)
        while todo and len(self.read) == n:
            s = todo.pop(0)
            self.order.append(s)
            self.states[s] = self.steps(s)
            for t in self.states[s]:
                if t.next is not None and t.next not in seen:
                    seen.add(t.next)
                    todo.append(t.next)
            if len(self.order) > MAXSTATES:
                self.open = True
                break

    def override(self, name):
        best = None
        todo = [self.rec]
        while todo:
            r = todo.pop(0)
            todo += [self.p.rec(self.p.types[b['t']].get('r')) for b in r.get('bases', [])]
            todo = [x for x in todo if x]
            for f in self.p.functions.values():
                if f['sn'] == name and f.get('rec') == r['id'] and f.get('body') is not None:
                    best = best or f
        if best is None:
            raise Anchor('no %s in the telnet session' % name)
        return best

    def initial(self):
        """what the constructor leaves in the members"""
        cs = [f for f in self.p.functions.values() if f.get('rec') == self.rec['id'] and f.get('kind') == 'ctor' and f.get('body') is not None and len(f['ps']) >= 3]
        if not cs:
            raise Anchor('no constructor of the telnet session')
        I = Interp(self.p, Policy())
        outs = I.run(cs[0], this=THIS)
        self.rep.ran(I, outs)
        vals = {}
        for s, fl in outs:
            for k, v in s.store.items():
                if k[:2] == THIS and self.const(v):
                    vals.setdefault(k, set()).add(v)
        return {k: list(v)[0] for k, v in vals.items() if len(v) == 1 and all(k in s.store for s, fl in outs)}

    def const(self, v):
        if isinstance(v, Lin):
            return v.is_const()
        if isinstance(v, tuple):
            return v in (T, F)
        return isinstance(v, V) and v.k == 'seq' and all(g[0] == 'e' and isinstance(g[1], Lin) and g[1].is_const() for g in v.a[0])

    def freeze(self, d):
        return frozenset((k, v) for k, v in d.items() if k in self.read and k[-1] not in self.idle)

    def run(self, state, data):
        st = State()
        st.dyn[THIS] = self.rec['id']
        st.store.update(self.init)
        st.store.update(dict(state))
        st.store[DATA] = seq(*[('e', x) for x in data])
        pol = Reads(self.read, self.globals)
        pol.unroll = len(data) + 1
        I = Interp(self.p, pol)
        outs = I.run(self.f, st=st, this=THIS, args=[ptr(DATA)])
        self.rep.ran(I, outs)
        self.tk.update((l, k) for l, k in I.loctk.items() if l[:2] == THIS)
        return outs

    def steps(self, state):
        b = BYTE
        out = []
        known = dict(state)
        for s, fl in self.run(state, [L(b)]):
            t = Step()
            t.st, t.flow = s, fl
            t.bytes = allowed(s, b)
            if not t.bytes:
                continue
            t.out = self.outputs(s)
            nxt = {}
            dep = False
            for k in known:
                v = s.store.get(k)
                if v is None or any(k[:i] in s.ver for i in range(2, len(k) + 1)) and v != known[k]:
                    nxt = None
                    break
                nxt[k] = v
                dep = dep or not self.const(v)
            if nxt is None:
                t.next = None
                out.append(t)
            elif not dep:
                t.next = self.freeze(nxt)
                out.append(t)
            else:
                # the byte is remembered: one state for each
                for c in sorted(t.bytes):
                    u = Step()
                    u.st, u.flow, u.bytes, u.out = s, fl, frozenset([c]), t.out
                    n2 = self.at(s, nxt, {b: c})
                    u.next = self.freeze(n2) if n2 is not None and all(self.const(v) for v in n2.values()) else None
                    out.append(u)
        return out

    def at(self, s, vals, m):
        """the values under an assignment of the bytes"""
        out = {}
        t = None
        for k, v in vals.items():
            if isinstance(v, tuple) and v not in (T, F):
                d = truth(v, m)
                if d is not None:
                    out[k] = T if d else F
                    continue
                if t is None:
                    ts = s.copy().assume(and_(*[cmp_('==', L(b), L(c)) for b, c in m.items()]))
                    if not ts:
                        return None
                    t = ts[0]
                d = t.decide(v)
                out[k] = T if d is True else F if d is False else v
            else:
                out[k] = subst(v, lambda y: L(m[y]) if y in m else None) if v is not None else None
        return out

    def one(self, state, byte):
        """the step on one byte of a state that was not enumerated"""
        out = []
        n = len(self.read)
        for s, fl in self.run(state, [L(byte)]):
            t = Step()
            t.st, t.flow, t.bytes, t.out = s, fl, frozenset([byte]), self.outputs(s)
            nxt = {k: s.store.get(k) for k, v in state}
            if any(v is None or not self.const(v) for v in nxt.values()):
                return []
            t.next = self.freeze(nxt)
            out.append(t)
        return out if len(self.read) == n else []

    def outputs(self, s):
        out = []
        for e, x, lp in all_events(s):
            if e.kind == 'vcall' and e.name == POST:
                ks = postedkeys(self.p, s, e)
                out.append(('key',) + (ks[0] if len(ks) == 1 else (None, None)) + (e,))
            elif e.kind == 'out':
                o = e.obj.a[0] if isinstance(e.obj, V) and e.obj.k == 'ptr' else None
                out.append(('send' if o is not None and o[:2] == THIS else 'log', e.args[0] if e.args else None, e))
            elif e.kind == 'flush':
                o = e.obj.a[0] if isinstance(e.obj, V) and e.obj.k == 'ptr' else None
                if o is not None and o[:2] == THIS:
                    out.append(('flush', e))
            elif e.kind in ('user', 'vcall', 'rec', 'ext', 'getline', 'extract', 'throw'):
                out.append(('other', e))
        return out

    def step(self, state, byte):
        if self.open and state is not None and state not in self.states:
            return self.one(state, byte)
        return [t for t in self.states.get(state, ()) if byte in t.bytes]


def allowed(s, b):
    """the bytes with which this path is taken"""
    rows, own = [], True
    for coll, op in ((s.le, 'le'), (s.eq, 'eq'), (s.ne, 'ne')):
        for r in coll:
            ss = [q for q, k in r.t]
            if b in ss:
                if len(ss) > 1:
                    own = False
                rows.append((op, r))
    d = s.domof(b)
    out = set()
    for c in range(-128, 128):
        if d is not None and c not in d:
            continue
        ok = True
        for op, r in rows:
            if len(r.t) == 1:
                v = r.t[0][1] * c + r.c
                if (op == 'le' and v > 0) or (op == 'eq' and v != 0) or (op == 'ne' and v == 0):
                    ok = False
                    break
        if ok and not own:
            ok = s.can(cmp_('==', L(b), L(c)))
        if ok:
            out.add(c)
    return frozenset(out)


_t = {}


def telnet(rep, p):
    if p.name not in _t:
        _t[p.name] = Telnet(rep, p)
    return _t[p.name]


def concrete(v, m):
    """a number under an assignment of the bytes, or None"""
    if isinstance(v, Lin):
        c = v.c
        for q, k in v.t:
            if q not in m:
                return None
            c += k * m[q]
        return c
    return None


def truth(c, m):
    """whether a condition holds under an assignment of the bytes, or None"""
    k = c[0]
    if k in ('T', 'F'):
        return k == 'T'
    if k == 'in':
        return m[c[1]] in c[2] if c[1] in m else None
    if k in ('le', 'eq', 'ne'):
        v = concrete(c[1], m)
        return None if v is None else v <= 0 if k == 'le' else (v == 0) == (k == 'eq')
    if k in ('and', 'or'):
        ds = [truth(x, m) for x in c[1]]
        if (k == 'or') in ds:
            return k == 'or'
        return None if None in ds else k == 'and'
    return None


def content(v, m):
    """the bytes of a text under an assignment, or None"""
    if isinstance(v, Lin):
        c = concrete(v, m)
        return None if c is None else (c & 255,)
    if isinstance(v, V) and v.k == 'seq':
        out = []
        for g in v.a[0]:
            c = concrete(g[1], m) if g[0] == 'e' else None
            if c is None:
                return None
            out.append(c & 255)
        return tuple(out)
    return None


def happens(outs, m):
    """(keys, bytes sent, flushed, anything else) of a list of outputs under an assignment of the bytes"""
    keys, sent, flushed, other = [], [], True, []
    for o in outs:
        if o[0] == 'key':
            keys.append((concrete(o[1], m), None if concrete(o[2], m) is None else concrete(o[2], m) & 255))
        elif o[0] == 'send':
            c = content(o[1], m)
            sent = None if c is None or sent is None else sent + list(c)
            flushed = False
        elif o[0] == 'flush':
            flushed = True
        elif o[0] == 'other':
            other.append(o[1])
    return tuple(keys), None if sent is None else tuple(sent), flushed, tuple((e.kind, e.name) for e in other)


BYTE = sym(('byte', 0), -128, 127)


def signed(b):
    return b - 256 if b > 127 else b


class Machine(object):
    """the decoder on concrete bytes 0..255"""
    def __init__(self, t):
        self.t = t
        self.memo = {}

    def go(self, s, b):
        """[(next, keys, sent, flushed, other, step)]"""
        k = (s, b)
        if k not in self.memo:
            self.memo[k] = [(u.next,) + happens(u.out, {BYTE: signed(b)}) + (u,) for u in self.t.step(s, signed(b))]
        return self.memo[k]

    def classes(self, s):
        """one byte of each class the steps of a state distinguish"""
        return self.t.states[s]
