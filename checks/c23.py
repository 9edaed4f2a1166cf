"""C23: completion offers exactly the commands that continue the line."""
from .roles import *
from engine import models as mods
from .screen import samesegs, Model, models, syms, Unknown

META = {
    'technique': 'abstract execution of every function that collects completions, calls on other commands kept opaque: the result is decomposed into what it consists of (names, results of calls for every element of a command list, a prefix put before each) and compared with the equations of completion, for every line, name and number of commands; the equations compose by induction on the menu tree',
    'note': 'std::sort and std::unique are taken to be what they are.',
    'explanation': 'Equations: the completions of the session are those of the session-wide menu and of the current menu for the line without leading blanks, sorted, without duplicates; those of a menu are those of its commands and of its enclosing menu; a command offers its name exactly when enabled and the name starts with the line; a menu named at the start of the line (or, where reached as enclosing menu, by the shortcut) offers that prefix, a blank, and the completions of the rest of its commands and of its enclosing menu.',
    'assumptions': ['a line that starts with the name of a menu names it'],
}
M = ('o', 'M')
SPACES = frozenset([9, 10, 11, 12, 13, 32])
LB = sbase('LINE', 'char')
WHOLE = (('s', LB, L(0), L(LB.len)),)
SHORTCUT = strseq(b'..')
BLANKS = b' \t\n\v\f\r'
ANY = 'any'         # the prefix of no results


class Calls(Policy):
    """calls on other commands and menus are kept opaque"""
    def __init__(self, me):
        self.me = me

    def hook(self, I, st, fr, name, e, obj, args):
        if not name.startswith('cli::Menu::') or e.get('virt') or e.get('k') != 'mcall':
            return None
        tk = I.p.tk(e['t']) if e.get('t') is not None else None
        if tk is None or tk.k != 'seq' or tk.sub('elem') is None or tk.sub('elem').k != 'seq':
            return None
        o = obj
        if isinstance(o, tuple):
            if o == self.me:
                return None
            o = ptr(o)
        if isinstance(o, V) and o.k == 'ptr' and o.a[0] == self.me:
            return None
        vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
        res = wholeseq(sbase(('res', name, st.fresh()), tk.sub('elem')))
        I.event(st, 'ext', name, o, vals, res, e, x=e.get('f'))
        return [(st, res)]


class Piece(object):
    """strings of a result: a text, or a prefix before every result of a call made for every element"""
    __slots__ = ('prefix', 'call', 'st', 'binders', 'why')


def strvec(p, f):
    t = p.tk(f['ret'])
    return t.k == 'seq' and t.sub('elem') is not None and t.sub('elem').k == 'seq' and t.sub('elem').base == 'std::basic_string'


def check(rep, tier):
    rep.rule('session', 'the completions of the session: those of the session-wide and of the current menu, for the line without leading blanks')
    rep.rule('sorted', 'they are sorted and free of duplicates')
    rep.rule('menu', 'the completions of a menu: those of its commands and of the enclosing menu')
    rep.rule('command', 'a command is offered exactly when it is enabled and its name starts with the line')
    rep.rule('named', 'a menu named at the start of the line offers its name (or the shortcut), a blank and the completions of the rest')
    rep.rule('safe', 'completion has no undefined behaviour for any bytes of the line')
    p = prog()
    C = Check(rep, p)
    C.session()
    C.done()


class Check(object):
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.R = roles(p)
        self.parents, self.menus = [], []     # functions called on the enclosing menu, by the session on a menu
        self.seen = set()
        self.virt = None
        self.ubseen = set()

    # ------------------------------------------------------------ runs
    def run(self, f, me, st, args):
        I = Interp(self.p, Calls(me))
        outs = I.run(f, st=st, this=me, args=args)
        self.rep.ran(I, outs)
        self.I = I
        for kind, fn_, l, s, what in I.ubs:
            if (kind, fn_['n'], l) in self.ubseen:
                continue
            self.ubseen.add((kind, fn_['n'], l))
            if kind in ('ctype', 'bounds', 'range', 'iterator-invalidation', 'erase'):
                if kind == 'ctype' or self.possible(s):
                    self.rep.bad('safe', fn_['file'], l, strip(fn_['n']), 'undefined behaviour (%s): %s' % (kind, what if isinstance(what, str) else ''), trace(s))
                else:
                    self.rep.und('safe', '%s at line %s' % (kind, l))
        self.rep.ok('safe')
        return outs

    def bad(self, rule, f, msg, st, line=None):
        self.rep.bad(rule, f['file'], line or f['l'], strip(f['n']), msg, path=trace(st))

    # ------------------------------------------------------------ decomposition of results
    def loops(self, events, out=None):
        out = {} if out is None else out
        for e in events:
            if e.kind == 'loop':
                out[e.x.id] = e.x
                for b in e.x.backs:
                    self.loops(b.events, out)
        return out

    def pieces(self, st, v, binders=(), events=None):
        """[Piece] of a sequence of texts; raises Unknown"""
        out = []
        events = events if events is not None else st.events
        lps = self.loops(events)
        for g in v.a[0]:
            out += self.seg(st, g, binders, events, lps)
        # calls that returned nothing
        if events is st.events:
            for e in events:
                if e.kind in ('ext', 'vcall') and isinstance(e.res, V) and e.res.k == 'seq' and e.res.a[0] and e.res.a[0][0][0] == 's':
                    if st.equal(L(e.res.a[0][0][1].len), L(0)) and not any(x.call is e for x in out):
                        x = Piece()
                        x.prefix, x.call, x.st, x.binders, x.why = ANY, e, st, binders, None
                        out.append(x)
        return out

    def seg(self, st, g, binders, events, lps):
        if g[0] == 'e':
            return [self.text(st, g[1], binders, events)]
        if g[0] == 's' and st.equal(g[2], L(0)) and st.equal(g[3], L(g[1].len)):
            x = Piece()
            x.prefix, x.call, x.st, x.binders, x.why = None, self.call(st, g[1], events), st, binders, None
            if x.call is None:
                k = g[1].key
                if isinstance(k, tuple) and len(k) == 3 and k[0] == 'h' and k[1] in lps:
                    lp = lps[k[1]]
                    for b in lp.backs:
                        t = b.trans.get(k[2])
                        if t is not None and g[1] not in bases(t[1], True) and isinstance(t[1], V) and t[1].k == 'seq' and not approx(t[1]) and st.can(cmp_('>=', L(lp.K), 2)):
                            raise Short('what a round of the loop at line %s collects is lost in the next one' % lp.line)
                raise Unknown('the source of %s is not known' % (g[1],))
            return [x]
        if g[0] == 'c':
            out = []
            bs = binders + ((g[1], g[3]),)
            bs += tuple((l.K, g[3]) for l in lps.values() if l.K.key[1] == g[1].key[1])
            for h in g[2]:
                out += self.seg(st, h, bs, events, lps)
            return out
        if g[0] == 'l':
            lp = lps.get(g[1])
            if lp is None:
                raise Unknown('a loop is not known')
            out = []
            for b in lp.backs:
                t = b.trans.get(g[2])
                if t is None or not all(isinstance(x, V) and x.k == 'seq' for x in t):
                    raise Unknown('what a loop adds is not known')
                h, r = t[0].a[0], t[1].a[0]
                if r[:len(h)] != h:
                    raise Unknown('what a loop adds is not known')
                if not r[len(h):]:
                    # a round that adds nothing: the calls made returned nothing
                    cs = [e for e in b.events if e.kind in ('ext', 'vcall') and isinstance(e.res, V) and e.res.k == 'seq' and e.res.a[0] and e.res.a[0][0][0] == 's']
                    if not cs or not all(b.state.equal(L(e.res.a[0][0][1].len), L(0)) for e in cs):
                        if len(cs) and not approx(cs[0].res) or not cs:
                            raise Short('for some of the commands nothing is taken over')
                    continue
                # the state in which the loop was left says how many times it went round
                bs = binders + ((lp.K, L(lp.K)),)
                for x in self.pieces(b.state, V('seq', r[len(h):]), bs, b.events + events):
                    out.append(x)
            return out
        raise Unknown('a part of the result is not known: %s' % segstr(g))

    def text(self, st, v, binders, events):
        x = Piece()
        x.st, x.binders, x.why = st, binders, None
        if not (isinstance(v, V) and v.k == 'seq'):
            raise Unknown('a text is not known')
        segs = v.a[0]
        last = segs[-1] if segs else None
        if last is not None and last[0] == 's' and isinstance(last[1].key, tuple) and last[1].key[0] == 'el' and isinstance(last[1].key[1], SBase):
            rb, idx = last[1].key[1], last[1].key[2]
            c = self.call(st, rb, events)
            if c is not None:
                if not (st.equal(last[2], L(0)) and st.equal(last[3], L(last[1].len))):
                    raise Unknown('a part of a completion')
                s = idx.single()
                bd = dict(binders)
                if idx.c is not None and not idx.t:
                    x.call, x.prefix, x.why = c, tuple(segs[:-1]), (rb, idx)
                    return x
                if s is None or s not in bd:
                    raise Unknown('a single completion is picked')
                # every result: the index runs from 0 to the number of results
                x.call, x.prefix = c, tuple(segs[:-1])
                x.why = (rb, s)
                return x
        x.call, x.prefix = None, tuple(segs)
        return x

    def call(self, st, rb, events):
        """the event that returned this sequence"""
        def go(evs):
            for e in evs:
                if e.kind in ('ext', 'vcall') and isinstance(e.res, V) and e.res.k == 'seq' and e.res.a[0] and e.res.a[0][0][0] == 's' and e.res.a[0][0][1] is rb:
                    return e
                if e.kind == 'loop':
                    for b in e.x.backs:
                        r = go(b.events)
                        if r is not None:
                            return r
            return None
        return go(events)

    # ------------------------------------------------------------ canonical pieces
    def canon(self, st, x, me):
        """('name'/'text', segs) | ('el'|'par'|'menu', prefix, argument, callee)"""
        if x.call is None:
            return ('text', x.prefix)
        e = x.call
        o = e.obj
        if isinstance(o, tuple):
            o = ptr(o)
        arg = e.args[0] if e.args else None
        if not (isinstance(arg, V) and arg.k == 'seq'):
            raise Unknown('the argument of a call is not known')
        # all the results of the call
        if x.why is not None:
            rb, s = x.why
            if isinstance(s, Lin):
                self.few = (rb, x.st)
                if x.st.can(cmp_('>=', L(rb.len), 2)):
                    raise Short('only one of the completions of a command is taken')
                raise Unknown('a single completion is picked')
            if not (x.st.equal(L(s), L(rb.len)) or self.exhausted(st, x, s, L(rb.len))):
                raise Unknown('not all the results of a call are taken')
        m = self.R.menu_of(o) if isinstance(o, V) else None
        if m is not None:
            ml, base, idx = m
            if ml != me:
                raise Unknown('commands of another menu')
            s = idx.single()
            if s is None:
                for q, n in x.binders:
                    c = idx - L(q)
                    if not c.t and c.c > 0 and st.can(cmp_('>=', L(base.len), 1)):
                        raise Short('the first %d commands of the menu are not asked' % c.c)
                raise Unknown('a single command is asked')
            self.whole(st, x, s, base)
            return ('el', x.prefix, arg.a[0], e)
        if o == psym(('init', me + (self.R.m_parent,))):
            return ('par', x.prefix, arg.a[0], e)
        return ('menu', x.prefix, arg.a[0], e, o)

    def exhausted(self, st, x, s, n):
        """the loop with counter s goes round n times, in the final state or in that of an enclosing iteration"""
        for y in [st] + [b.state for l in self.loops(st.events).values() for b in l.backs]:
            if y.equal(L(s), n):
                return True
        return False

    def whole(self, st, x, s, base):
        """a call is made for every command of the list"""
        bd = dict(x.binders)
        n = L(base.len)
        if s in bd:
            if st.equal(bd[s], n) or self.exhausted(st, x, s, n):
                return
            for t in st.copy().assume(cmp_('!=', bd[s], n)):
                if not approx(bd[s]):
                    for m in models(t, syms(bd[s], n)):
                        raise Short('%d of %d commands are asked for their completions' % (m.num(bd[s]), m.num(n)))
        raise Unknown('not every command is asked')

    # ------------------------------------------------------------ the session
    def session(self):
        p, rep, R = self.p, self.rep, self.R
        f = fn(p, 'cli::CliSession::GetCompletions')
        st = R.session()
        t = p.tk(f['ps'][0]['t'])
        if t.k == 'ref':
            st.store[('o', 'LINE')] = wholeseq(LB)
            args = [ptr(('o', 'LINE'))]
        else:
            args = [wholeseq(LB)]
        for s, fl in self.run(f, R.S, st, args):
            if not fl or fl[0] != 'ret':
                rep.und('session', 'an exception')
                continue
            v = fl[1]
            u = unsort(s, v)
            if u is None and isinstance(v, V) and v.k == 'seq' and v.a[0] and all(g[0] == 's' and isinstance(g[1].key, tuple) and g[1].key[:1] == ('init',) and g[1].key[1][:len(R.S)] == R.S for g in v.a[0]) and s.can(cmp_('>', seqlen(v.a[0]), L(0))) and not approx(s):
                self.bad('session', f, 'the completions are not those of the menus but something kept in the session', s)
                continue
            if u is None:
                rep.und('sorted', 'the result is not the work of sort and unique: %s' % (v,))
                # what it consists of is still looked at
                src = v
            else:
                src, srt, unq, cmp = u
                if cmp is not None:
                    rep.und('sorted', 'sorted by another order')
                elif srt and unq:
                    rep.ok('sorted')
                else:
                    self.bad('sorted', f, 'the completions are %s' % ('not sorted before duplicates are removed' if unq else 'not free of duplicates' if srt else 'neither sorted nor free of duplicates'), s)
            self.compare('session', f, s, src, R.S, self.expect_session, lambda q: None)
        for g in list(self.menus):
            self.menu(g)

    def expect_session(self, s, items):
        """the pieces of the session"""
        R = self.R
        want = []
        gm = ptr(R.GM)
        cur = (psym(('init', R.S + (R.s_current,))), ptr(('o', ('init', R.S + (R.s_current,)))), ptr(('o', 'ROOT')))
        got = []
        rest = self.restof(s, WHOLE, L(0))
        for it in items:
            if it[0] != 'menu' or it[1] not in (None, ANY):
                return 'the completions of the session contain something else than those of menus'
            d = self.check_text(s, it[2], rest, lambda nm, ln: ln.lstrip(BLANKS), 'the completions asked for are those of')
            if d:
                return d
            got.append(it[4])
            f = self.p.fn(it[3].x) if it[3].x is not None else None
            if f is not None and f not in self.menus:
                self.menus.append(f)
        if not any(o == gm for o in got):
            return 'the session-wide commands are not asked for completions'
        if not any(o in cur for o in got):
            return 'the current menu is not asked for completions'
        if any(o != gm and o not in cur for o in got):
            raise Unknown('the completions of another menu')
        if cur[0] not in got and cur[1] not in got:
            # the root menu instead: only where the current menu does not exist any more
            if not any(k and self.R.S in places(k) and k != ('nonnull', cur[0]) for k, v in s.preds.items()):
                return 'the root menu is asked instead of the current one'
        return True

    def restof(self, s, line, off):
        """the text from off on, without leading blanks: the slice that the path determines"""
        lo = None
        # candidates: the ends of the loops of the path
        cands = [off, L(LB.len)] + [off + L(l.K) for l in self.loops(s.events).values()] + [L(l.K) for l in self.loops(s.events).values()]
        for c in cands:
            if self.trimmed(s, off, c):
                return (('s', LB, c, L(LB.len)),)
        return None

    def trimmed(self, s, off, lo):
        """line[off..lo) are blanks and line[lo] is not, or is the end"""
        if not (s.entails(cmp_('>=', lo, off)) and s.entails(cmp_('<=', lo, L(LB.len)))):
            return False
        if not s.equal(lo, L(LB.len)):
            d = s.domof(elemval(LB, lo).single())
            if d is None or set(d) & SPACES:
                return False
        if s.equal(lo, off):
            return True
        # the loop that went over the blanks
        for l in self.loops(s.events).values():
            for base in (off, L(0)):
                if not s.equal(base + L(l.K), lo) or base != off and not s.equal(base, off):
                    continue
                ok = bool(l.backs)
                for b in l.backs:
                    q = elemval(LB, base + L(l.K)).single()
                    d = b.state.domof(q)
                    if d is None or not set(d) <= SPACES:
                        ok = False
                if ok:
                    return True
        return False

    def check_text(self, s, got, want, conc, msg):
        """None: the text is the wanted one (conc: for a line and a name); a message where it is not"""
        if want is not None and samesegs(s, normsegs(got), normsegs(want)):
            return None
        if approx(got):
            raise Unknown('the text is not known')
        name = self.name(s)
        for m, nm, ln in witnesses(s, name, list(self.loops(s.events).values())):
            try:
                g = m.text(got)
            except Unknown:
                continue
            w = conc(nm, ln)
            if g != w:
                return '%s %r instead of %r, for the line %r%s' % (msg, g.decode('latin1'), w.decode('latin1'), ln.decode('latin1'), ' and the menu %r' % nm.decode('latin1') if nm else '')
        raise Unknown('the text is not known')

    # ------------------------------------------------------------ comparison
    def compare(self, rule, f, s, v, me, expect, callee):
        rep = self.rep
        try:
            if not (isinstance(v, V) and v.k == 'seq'):
                raise Unknown('the result is not known')
            items = [self.canon(s, x, me) for x in self.pieces(s, v)]
            r = expect(s, items)
        except Short as x:
            r = str(x)
        except Unknown as x:
            rep.und(rule, '%s: %s' % (f['sn'], x))
            return
        if r is True:
            rep.ok(rule)
        elif self.possible(s):
            self.bad(rule, f, r, s)
        else:
            rep.und(rule, '%s: no small line takes a path on which: %s' % (f['sn'], r))

    def possible(self, s):
        """there is a line, and a name, that take the path"""
        try:
            for m in witnesses(s, self.name(s), list(self.loops(s.events).values())):
                return True
        except Unknown:
            pass
        return False

    def note(self, items):
        for it in items:
            if it[0] == 'par':
                g = self.target(it[3])
                if g is not None and g not in self.parents:
                    self.parents.append(g)
            if it[0] == 'el':
                self.virt = self.virt or it[3].name

    def target(self, e):
        """what a call on a menu runs"""
        g = self.p.fn(e.x) if e.kind == 'ext' and e.x is not None else None
        if g is None:
            sn = e.name.split('::')[-1]
            for f in self.p.functions.values():
                if f['sn'] == sn and f.get('rec') == self.R.menu['id'] and f.get('body') is not None and strvec(self.p, f):
                    g = f
        return g

    def start(self, f):
        R = self.R
        st = R.session()
        st.store[('o', 'LINE')] = wholeseq(LB)
        t = self.p.tk(f['ps'][0]['t'])
        args = [ptr(('o', 'LINE')) if t.k == 'ref' else wholeseq(LB)] + [None] * (len(f['ps']) - 1)
        st.dyn[M] = R.menu['id']
        return st, args

    def enabled(self, s):
        v = s.store.get(M + (self.R.c_enabled,))
        if v is None:
            v = self.p.tk(self.ftype(self.R.c_enabled)).mk(('init', M + (self.R.c_enabled,)))
        return v if isinstance(v, tuple) else cmp_('!=', v, L(0))

    def ftype(self, fk):
        for k, fd in self.p.allfields(self.R.menu['id']):
            if k == fk:
                return fd['t']

    def name(self, s):
        v = s.store.get(M + (self.R.c_name,))
        if v is None:
            v = self.p.tk(self.ftype(self.R.c_name)).mk(('init', M + (self.R.c_name,)))
        return v

    def parent(self, s):
        """condition: there is an enclosing menu"""
        v = s.store.get(M + (self.R.m_parent,))
        if v == NULL:
            return F
        return pred('nonnull', psym(('init', M + (self.R.m_parent,))))

    def rest(self, s, items, prefix, off):
        """the pieces of a menu named by a prefix (None: of the menu itself)"""
        rest = WHOLE if prefix is None else self.restof(s, WHOLE, off)
        cut = prefix is not None and off == L(2)
        conc = (lambda nm, ln: ln) if prefix is None else (lambda nm, ln: ln[2 if cut else len(nm):].lstrip(BLANKS))
        kinds = set()
        for it in items:
            if it[0] not in ('el', 'par'):
                return 'the completions of a menu contain something else than those of its commands and of the enclosing menu' if it[0] == 'text' and not approx(it[1]) else self.unknown('another menu is asked')
            if prefix is None:
                if it[1] not in (None, (), ANY):
                    return 'the completions of a menu are changed'
            elif it[1] != ANY:
                want = tuple(prefix) + (('e', L(32)),)
                d = self.check_text(s, it[1] or (), want, lambda nm, ln: (b'..' if cut else nm) + b' ', 'the completions of the rest follow')
                if d:
                    return d
            d = self.check_text(s, it[2], rest, conc, 'the completions asked for are those of')
            if d:
                return d
            kinds.add(it[0])
        if 'el' not in kinds and not self.empty(s):
            return 'the commands of the menu are not asked for their completions'
        pr = self.parent(s)
        if s.decide(pr) is True and 'par' not in kinds:
            return 'the enclosing menu is not asked for its completions'
        if s.decide(pr) is None and 'par' not in kinds:
            return 'the enclosing menu is not asked for its completions'
        self.note(items)
        return True

    def unknown(self, why):
        raise Unknown(why)

    def empty(self, s):
        """the path has no commands in the menu, or none of the asked ones offers anything"""
        for l in self.loops(s.events).values():
            pass
        k = [b for b in sbases(s) if self.R.menu_of_base(b) == M]
        return any(s.equal(L(b.len), L(0)) for b in k)

    def conds(self, s, line, cs):
        """the state split by conditions: [(state, [truth])]"""
        work = [(s, [])]
        for c in cs:
            nxt = []
            for t, v in work:
                a, b = t.split(c)
                nxt += [(x, v + [True]) for x in a] + [(x, v + [False]) for x in b]
            work = nxt
        return work

    def menu(self, f):
        """the completions of a menu itself"""
        self.seen.add(f['id'] if 'id' in f else f['n'])
        st, args = self.start(f)
        for s, fl in self.run(f, M, st, args):
            if not fl or fl[0] != 'ret':
                self.rep.und('menu', 'an exception')
                continue
            for t, (en,) in self.conds(s, None, [self.enabled(s)]):
                if not en:
                    self.nothing('menu', f, t, fl[1], 'a disabled menu offers completions')
                else:
                    self.compare('menu', f, t, fl[1], M, lambda q, items: self.rest(q, items, None, L(0)), None)

    def nothing(self, rule, f, t, v, msg):
        if v == EMPTY or isinstance(v, V) and v.k == 'seq' and t.equal(seqlen(v.a[0]), L(0)):
            self.rep.ok(rule)
            return
        try:
            if not any(g[0] == 'e' for g in v.a[0]):
                if not [x for x in self.pieces(t, v) if x.prefix != ANY]:
                    raise Unknown('what is offered is not known')
            if not self.possible(t):
                raise Unknown('no small line takes a path on which: %s' % msg)
            self.bad(rule, f, msg, t)
        except (Unknown, AttributeError) as x:
            self.rep.und(rule, str(x))

    def done(self):
        """the functions found to be called on commands and on enclosing menus"""
        if self.virt is None:
            self.rep.und('command', 'the function that asks a command is not found')
            return
        sn = self.virt.split('::')[-1]
        base = [f for f in self.p.functions.values() if f['sn'] == sn and f.get('rec') == self.R.cmd['id'] and f.get('body') is not None]
        over = [f for f in self.p.functions.values() if f['sn'] == sn and f.get('body') is not None and f.get('rec') not in (None, self.R.cmd['id']) and f.get('virt') and strvec(self.p, f)]
        for f in base:
            self.named('command', f, False, False)
        for f in over:
            if f.get('rec') == self.R.menu['id']:
                self.named('named', f, True, False)
            else:
                self.rep.und('command', 'another command answers for itself: %s' % strip(f['n']))
        n = 0
        while n < len(self.parents):
            self.named('named', self.parents[n], True, True)
            n += 1

    def named(self, rule, f, menu, shortcut):
        R = self.R
        st, args = self.start(f)
        if not menu:
            st.dyn.pop(M, None)
        for s, fl in self.run(f, M, st, args):
            if not fl or fl[0] != 'ret':
                self.rep.und(rule, 'an exception')
                continue
            name = self.name(s)
            line = wholeseq(LB)
            pc = models_prefix
            cs = [self.enabled(s), pc(self.I, s, name, line)]
            if menu:
                cs.append(pc(self.I, s, line, name))
            if shortcut:
                cs.append(pc(self.I, s, line, SHORTCUT))
            for t, tr in self.conds(s, None, cs):
                en, starts = tr[:2]
                v = fl[1]
                if not en:
                    self.nothing(rule, f, t, v, 'a disabled command is offered')
                    continue
                byname = menu and tr[2]
                bycut = shortcut and tr[3]
                if byname and bycut:
                    continue                # a menu whose name starts like the shortcut
                if byname:
                    self.compare(rule, f, t, v, M, lambda q, items: self.rest(q, items, name.a[0], L(seqlen(name.a[0]))), None)
                elif bycut:
                    self.compare(rule, f, t, v, M, lambda q, items: self.rest(q, items, SHORTCUT.a[0], L(2)), None)
                elif starts:
                    self.compare(rule, f, t, v, M, lambda q, items: self.only(q, items, name), None)
                else:
                    self.nothing(rule, f, t, v, 'a command is offered whose name does not start with the line')

    def only(self, s, items, name):
        if not items:
            return 'a command whose name starts with the line is not offered'
        for it in items:
            if it[0] != 'text':
                return 'a command offers something else than its name'
            d = self.check_text(s, it[1], name.a[0], lambda nm, ln: nm, 'a command offers')
            if d:
                return d
        return True


class Short(Exception):
    pass


# ---------------------------------------------------------------- concrete witnesses
LINES = [b'', b'f', b'fo', b'g', b' f', b'f ', b'f g', b'f  g', b'f\tg', b'f\t g', b'\tg', b'  g', b'fo g', b'fog', b'fo  g', b'..', b'.. g', b'..  g', b'..\tg', b'..g', b'. g', b'f.. g', b' .. g', b'fo .. g']
NAMES = [b'f', b'fo', b'g', b'']


class Line(Model):
    """a line and the name of the menu that take the path"""
    def __init__(self, st, vals, texts):
        Model.__init__(self, st, vals)
        self.texts = texts

    def letter(self, base, i):
        t = self.texts.get(base)
        if t is None:
            raise Unknown('no text')
        if not 0 <= i < len(t):
            raise Unknown('not in the text')
        return t[i]


def isel(q, bs):
    return isinstance(q.key, tuple) and len(q.key) == 3 and q.key[0] == 'el' and q.key[1] in bs


def statesyms(s):
    out = set(s.dom)
    for coll in (s.le, s.eq, s.ne):
        for r in coll:
            out |= set(q for q, k in r.t)
    return out


def witnesses(s, name, loops):
    """small lines and names that take the path of the state"""
    nb = name.a[0][0][1] if name.a[0] and name.a[0][0][0] == 's' else None
    bs = [b for b in (LB, nb) if b is not None]
    # the loops that read these texts
    mine = []
    for l in loops:
        for b in l.backs:
            if any(isel(q, bs) for q in statesyms(b.state) - statesyms(s)) or l.K in syms(*[q.key[2] for q in statesyms(b.state) if isel(q, bs)]):
                mine.append(l)
                break
    for nm in NAMES if nb is not None else [b'']:
        for ln in LINES:
            texts = {LB: ln}
            if nb is not None:
                texts[nb] = nm
            sts = [s.copy()]
            for b, t in texts.items():
                sts = [y for x in sts for y in x.assume(cmp_('==', L(b.len), L(len(t))))]
            for x in sts:
                for m in counts(x, mine, texts, 0, dict((b.len, len(t)) for b, t in texts.items())):
                    yield m, nm, ln


def counts(st, mine, texts, i, vals):
    if i < len(mine):
        l = mine[i]
        for k in range(0, len(texts[LB]) + 1):
            for t in st.copy().assume(cmp_('==', L(l.K), L(k))):
                v = dict(vals)
                v[l.K] = k
                if all(any(takes(b.state, dict(v, **{}), l.K, j, texts) for b in l.backs) for j in range(k)):
                    for m in counts(t, mine, texts, i + 1, v):
                        yield m
        return
    m = Line(st, vals, texts)
    if consistent(st, m, texts):
        yield m


def takes(st, vals, K, j, texts):
    vals[K] = j
    m = Line(st, vals, texts)
    sts = st.copy().assume(cmp_('==', L(K), L(j)))
    for q, k in vals.items():
        if q is not K:
            sts = [y for x in sts for y in x.assume(cmp_('==', L(q), L(k)))] if not isinstance(q.key, tuple) or q.key[0] != 'iter' else sts
    return any(consistent(x, m, texts) for x in sts)


def consistent(st, m, texts):
    """the characters of the texts agree with what the path assumes"""
    sts = [st]
    for q in statesyms(st):
        if isel(q, texts):
            try:
                c = m.letter(q.key[1], m.num(q.key[2]))
            except Unknown:
                return False
            sts = [y for x in sts for y in x.copy().assume(cmp_('==', L(q), L(c)))]
    if not sts:
        return False
    for k, v in st.preds.items():
        if k and k[0] in ('prefix', 'seqeq', 'contains') and any(b in texts for b in bases(k, True)):
            try:
                a, b = m.text(k[1].a[0]), m.text(k[2].a[0])
            except (Unknown, AttributeError):
                raise Unknown('an assumption about the line is not understood')
            r = b.startswith(a) if k[0] == 'prefix' else a == b if k[0] == 'seqeq' else None
            if r is None:
                raise Unknown('an assumption about the line is not understood')
            if r != v:
                return False
    return True


def models_prefix(I, s, v, p):
    return mods.prefixcond(I, s, v, p)


def places(x, out=None):
    """the objects whose initial contents a condition is about"""
    out = [] if out is None else out
    if isinstance(x, V):
        places(x.a, out)
    elif isinstance(x, Sym) or isinstance(x, SBase):
        places(x.key, out)
    elif isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'init' and isinstance(x[1], tuple):
            for n in range(len(x[1])):
                out.append(x[1][:n])
        for y in x:
            if isinstance(y, (tuple, V, Sym, SBase)):
                places(y, out)
    return out


def sbases(s):
    out = []
    for coll in (s.le, s.eq, s.ne):
        for r in coll:
            for q, k in r.t:
                if isinstance(q.key, tuple) and q.key[0] == 'len':
                    b = sbase.__globals__['SBase']._last.get(q.key[1])
                    if b is not None:
                        out.append(b)
    return out


def unsort(s, v):
    """(what was sorted, sorted?, duplicates removed?, order)"""
    if not (isinstance(v, V) and v.k == 'seq'):
        return None
    if v == EMPTY:
        return v, True, True, None
    if len(v.a[0]) != 1 or v.a[0][0][0] != 's':
        return None
    g = v.a[0][0]
    b = g[1]
    if not (s.equal(g[2], L(0)) and s.equal(g[3], L(b.len))) or not isinstance(b.key, tuple):
        return None
    if b.key[0] == 'uniq':
        r = unsort(s, b.key[1])
        if r is None:
            return b.key[1], False, True, None
        return r[0], r[1], True, r[3]
    if b.key[0] == 'sorted':
        return b.key[1], True, False, b.key[2] if len(b.key) > 2 else None
    return None
