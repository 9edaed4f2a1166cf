"""The history class: its state, the inductive invariant of its operations and their effects (C10, C11, C13)."""
import itertools
from .lib import *

BIG = 2 ** 62
NAMES = ('NewCommand', 'Previous', 'Next', 'Show', 'At', 'LoadCommands', 'GetCommands')
UB = ('bounds', 'divzero', 'empty', 'emptycall', 'erase', 'null', 'overflow', 'range', 'length', 'terminate', 'iterator-invalidation')


class Op(object):
    __slots__ = ('name', 'f', 'combo', 'I', 'outs', 'st0')


class Hist(object):
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.rec = recof(p, 'cli::detail::History')
        self.buf = None
        self.ints, self.fin, self.const = [], [], []
        out = idle(p, self.rec)
        for fk, f, tk in fields(p, self.rec, lambda t, f: True):
            if fk in out:
                continue
            loc = ('o', 'this', fk)
            if tk.k == 'seq' and tk.sub('elem') is not None and tk.sub('elem').k == 'seq':
                if self.buf is not None:
                    raise Anchor('the history has several containers')
                self.buf, self.eltk = loc, tk.sub('elem')
            elif tk.k == 'int':
                (self.const if self.never_written(fk) else self.ints).append(loc)
            elif tk.k in ('bool', 'enum'):
                self.fin.append(loc)
            else:
                raise Anchor('field %s of the history' % f['n'])
        if self.buf is None:
            raise Anchor('container of the history')
        cs = [f for f in fns(p, 'cli::detail::History::History') if len(f['ps']) == 1 and p.tk(f['ps'][0]['t']).k == 'int']
        if not cs:
            raise Anchor('constructor of the history')
        self.ctor = cs[0]
        self.ops = {n: fn(p, 'cli::detail::History::' + n) for n in NAMES}
        self.more = [f for f in p.functions.values() if f.get('repo') and f.get('body') is not None and f.get('rec') == self.rec['id'] and f.get('access') == 0
                     and f.get('kind') not in ('ctor', 'dtor') and strip(f['n']).split('::')[-1] not in NAMES and not strip(f['n']).split('::')[-1].startswith(('History', '~', 'operator'))] \
            if isinstance(p.functions, dict) else []
        self.line = sbase('ITEM', 'char')
        self.base = sbase('B', self.eltk)
        self.N = L(self.base.len)
        # the constructor tells which field is the size
        I, outs = runfn(rep, p, self.ctor, Policy(), State())
        size = L(sym(('arg', 0), 0, 2 ** 64 - 1))
        self.start = None
        for s, fl in outs:
            if fl and fl[0] == 'throw':
                continue
            self.start = s
        if self.start is None:
            raise Anchor('constructor of the history')
        ms = []
        for loc in self.const + self.ints:
            v = self.start.store.get(loc)
            if isinstance(v, Lin) and len(v.t) == 1 and 'arg' in repr(v) and loc in self.const:
                ms.append(loc)
        if len(ms) != 1:
            raise Anchor('size limit of the history (%d candidates)' % len(ms))
        self.M = ms[0]
        self.vars = [l for l in self.ints]

    def never_written(self, fk):
        """a const field, or one assigned only when constructed"""
        for k, f in self.p.allfields(self.rec['id']):
            if k == fk and self.p.tk(f['t']).const:
                return True
        return not any(writes(f.get('body'), fk.split('::')[-1]) for f in self.p.functions.values() if f.get('rec') == self.rec['id'] and f.get('body') is not None and f.get('kind') != 'ctor')

    def sym(self, loc):
        return L(sym(('fld', loc[-1]), 0, BIG))

    def state(self, combo, inv=None):
        st = State()
        st.store[self.buf] = wholeseq(self.base)
        for l in self.ints + self.const:
            st.store[l] = self.sym(l)
        for l, v in zip(self.fin, combo):
            st.store[l] = fval(self.p, l, v)
        st = st.assume(cmp_('<=', self.N, L(BIG)))[0]
        for t in sorted(inv or (), key=repr):
            for x in st.assume(self.atom(t, self.vals(st))):
                st = x
                break
            else:
                return None
        return st

    def vals(self, st):
        """{var: value} of a state"""
        out = {}
        b = st.store.get(self.buf)
        out['n'] = seqlen(b.a[0]) if isinstance(b, V) and b.k == 'seq' else None
        out['M'] = st.store.get(self.M)
        for l in self.ints:
            v = st.store.get(l)
            out[l] = v if isinstance(v, Lin) else None
        return out

    def templates(self):
        ts = [('le', 'n', 'M', 0), ('ge', 'n', 1), ('ge', 'M', 1), ('ge', 'n', 2)]
        for l in self.ints:
            ts += [('eq', l, 0), ('le', l, 'n', 0), ('le', l, 'n', 1), ('le', l, 'M', 0)]
        return ts

    def atom(self, t, v):
        if t[0] == 'le':
            a, b = v.get(t[1]), v.get(t[2])
            return None if a is None or b is None else cmp_('<=', a + L(t[3]), b)
        a = v.get(t[1])
        if a is None:
            return None
        return cmp_('>=' if t[0] == 'ge' else '==', a, L(t[2]))

    def combo(self, st):
        out = []
        for l in self.fin:
            v = st.store.get(l)
            if isinstance(v, Lin) and v.is_const():
                out.append(v.c)
            elif v in (T, F):
                out.append(1 if v == T else 0)
            else:
                return None
        return tuple(out)

    # ---- running
    def run(self, name, f, st, combo):
        o = Op()
        o.name, o.f, o.combo, o.st0 = name, f, combo, st.copy()
        s = st.copy()
        for i, q in enumerate(f['ps']):
            tk = self.p.tk(q['t'])
            to = tk.sub('to') if tk.k == 'ref' else tk
            if to.k == 'seq' and to.sub('elem') is not None and to.sub('elem').k == 'int':
                s.store[('o', ('arg', i))] = wholeseq(self.line)
            elif to.k == 'seq':
                s.store[('o', ('arg', i))] = wholeseq(sbase('CMDS', self.eltk))
        o.I, o.outs = runfn(self.rep, self.p, f, Policy(), s)
        return o

    def solve(self):
        """{combo: invariant}, operations run from every combo"""
        c0 = self.combo(self.start)
        if c0 is None:
            raise Anchor('state after construction')
        ts = self.templates()
        v0 = self.vals(self.start)
        inv = {c0: {t for t in ts if self.atom(t, v0) is not None and self.start.entails(self.atom(t, v0))}}
        after_new = set()
        self.breaks = []
        for rnd in range(12):
            changed = False
            self.runs = []
            self.breaks = []
            for c in sorted(inv):
                for name, f in self.allops(c, c0, after_new):
                    st = self.state(c, inv[c])
                    if st is None:
                        continue
                    o = self.run(name, f, st, c)
                    self.runs.append(o)
                    for s, fl, src in self.posts(o, inv):
                        d = self.combo(s)
                        if d is None:
                            continue
                        if name == 'NewCommand' and d not in after_new:
                            after_new.add(d)
                            changed = True
                        v = self.vals(s)
                        ok = set()
                        cand = inv.get(d)
                        for t in (ts if cand is None else sorted(cand, key=repr)):
                            a = self.atom(t, v)
                            if a is not None and s.entails(a):
                                ok.add(t)
                            elif cand is not None:
                                self.breaks.append((o, s, t, d))
                        if cand is None or ok != cand:
                            inv[d] = ok
                            changed = True
            if not changed:
                break
        self.inv, self.after_new = inv, after_new
        return inv

    def allops(self, c, c0, after_new):
        out = [(n, f) for n, f in self.ops.items() if n != 'LoadCommands' or c in after_new or c == c0]
        for f in self.more:
            if f.get('const') or c in after_new:
                out.append((strip(f['n']).split('::')[-1], f))
        return out

    def posts(self, o, inv):
        """states after the operation, and after each iteration of a loop that changes the history"""
        for s, fl in o.outs:
            good = [s]
            for e in s.events:
                if e.kind == 'loop' and self.buf in e.x.classes:
                    good = [y for x in good for y in self.headinv(x, e.x, inv)]
            for x in good:
                yield x, fl, None
        for lp in o.I.loops:
            if self.buf in lp.classes:
                for bk in lp.backs:
                    for x in self.headinv(bk.state.copy(), lp, inv):
                        yield x, None, lp

    def headvals(self, lp, st):
        v = {}
        for l in [self.buf] + self.ints + self.const:
            c = lp.classes.get(l)
            if c is None:
                x = lp.entrystate.store.get(l) if lp.entrystate is not None else None
            elif c[0] in ('hav', 'mono'):
                x = c[1]
            else:
                x = None
            if l == self.buf:
                v['n'] = seqlen(x.a[0]) if isinstance(x, V) and x.k == 'seq' else None
            else:
                v['M' if l == self.M else l] = x if isinstance(x, Lin) else None
        return v

    def headinv(self, st, lp, inv):
        c = self.combo(lp.entrystate) if lp.entrystate is not None else None
        ss = [st]
        if c in inv:
            v = self.headvals(lp, st)
            for t in sorted(inv[c], key=repr):
                a = self.atom(t, v)
                if a is not None:
                    ss = [y for x in ss for y in x.assume(a)]
        return ss

    # ---- effects
    def pieces(self, v, st, base=None):
        """[(index after, 'old', lo, hi) | (index after, 'new', value) | (index after, '?', seg)] of a history"""
        base = base or self.base
        pos, out = L(0), []
        for g in v.a[0]:
            n = seglen(g)
            if g[0] == 's' and g[1] == base:
                out.append((pos, 'old', L(g[2]), L(g[3])))
            elif g[0] == 'e':
                e = g[1]
                k = single_el(e)
                if k is not None and k[0] == base:
                    out.append((pos, 'old', L(k[1]), L(k[1]) + L(1)))
                else:
                    out.append((pos, 'new', e, None))
            else:
                out.append((pos, '?', g, None))
            pos = pos + n
        return out

    def element(self, v):
        """index in the history before of a returned string"""
        if isinstance(v, V) and v.k == 'seq':
            k = whole_el(v)
            if k is not None and k[0] == self.base:
                return L(k[1])
        return None

    def text(self, o):
        return wholeseq(self.line)

    # ---- numbers
    def listing(self):
        """(op, loop, element index in terms of K, number printed in terms of K, back) from the listing"""
        out = []
        for o in self.runs:
            if o.name != 'Show':
                continue
            for lp in o.I.loops:
                for bk in lp.backs:
                    evs = [e for e in bk.events if e.kind == 'out']
                    el = [(e, self.element(e.args[0])) for e in evs if self.element(e.args[0]) is not None]
                    nums = [(e, num(e.args[0])) for e in evs if num(e.args[0]) is not None]
                    if el or nums:
                        out.append((o, lp, bk, el, nums, evs))
        return out

    def numbering(self):
        """number of the element with index j, as a function, or None"""
        for o, lp, bk, el, nums, evs in self.listing():
            if len(el) != 1 or len(nums) != 1:
                continue
            j, i = el[0][1], nums[0][1]
            K = lp.K
            cj, ci = j.coef(K), i.coef(K)
            if abs(cj) != 1:
                continue
            J = sym(('J',), 0, BIG)
            # K = (J - rest) / cj
            rest = j - L(K).scale(cj)
            k = (L(J) - rest).scale(cj)
            e = i - L(K).scale(ci) + k.scale(ci)
            return lambda x, e=e, J=J: substl(e, J, x)
        return None

    def numat(self, E, st, idx):
        """the number of the entry with that index in the state st"""
        e = E(L(idx))
        m = {sym(('fld', l[-1]), 0, BIG): st.store.get(l) for l in self.ints + self.const}
        m[self.base.len] = self.vals(st)['n']
        r = L(e.c)
        for q, k in e.t:
            x = m.get(q, L(q))
            if not isinstance(x, Lin):
                return None
            r = r + x.scale(k)
        return r

    def small(self, st, pairs=()):
        """the state with small concrete values, or None: confirms that the abstract state is not empty"""
        vs = [L(self.N), self.sym(self.M)] + [self.sym(l) for l in self.ints]
        doms = [range(4), range(4)] + [range(3)] * len(self.ints)
        for vals in itertools.product(*doms):
            ss = [st.copy()]
            for a, b in zip(vs, vals):
                if not ss:
                    break
                ss = [y for x in ss for y in x.assume(cmp_('==', a, L(b)))]
            if ss:
                return ss[0]
        return None


def fval(p, loc, v):
    return L(v) if p is None or not isinstance(v, bool) else (T if v else F)


def writes(n, field):
    """does a body assign the field of that name"""
    if isinstance(n, list):
        return any(writes(x, field) for x in n)
    if not isinstance(n, dict):
        return False
    k = n.get('k')
    if k in ('asg', 'casg') and target(n.get('a'), field):
        return True
    if k == 'un' and n.get('op', '').strip('prepost') in ('++', '--') and target(n.get('e'), field):
        return True
    return any(writes(x, field) for x in n.values() if isinstance(x, (dict, list)))


def target(n, field):
    while isinstance(n, dict) and n.get('k') in ('load', 'cast'):
        n = n.get('e')
    return isinstance(n, dict) and n.get('k') == 'mem' and n.get('fn') == field


def single_el(v):
    return whole_el(v)


def whole_el(v):
    """(base, index) of a string that is an unchanged element of an unknown sequence"""
    if isinstance(v, V) and v.k == 'seq' and len(v.a[0]) == 1:
        g = v.a[0][0]
        if g[0] == 's' and L(g[2]) == L(0) and L(g[3]) == L(g[1].len):
            k = g[1].key
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'el':
                return k[1], k[2]
    return None


def num(v):
    if isinstance(v, V) and v.k == 'term' and v.a[0] == 'num' and isinstance(v.a[1], Lin):
        return v.a[1]
    if isinstance(v, Lin):
        return v
    return None


def substl(e, s, x):
    k = e.coef(s)
    return e - L(s).scale(k) + L(x).scale(k)
