"""C29: output goes to the right sessions only."""
import re
from .roles import *
from .callgraph import calls, bodyof, lib
from .cmds import *

META = {
    'technique': 'effect analysis of every function of a session: the stream of each output event and of each callback; abstract execution of the global stream with registries of streams, for blocks of unknown content and for single characters, and of the construction and destruction of a session on the same registry',
    'note': 'The registry of the global stream is found as the container of streams of the object that Cli::cout() returns.',
    'explanation': 'Every output of a session is on its stream or on a stream it was given as parameter, and so is the stream given to handlers and actions. '
                   'The global stream writes a block, or a character, once to each stream of its registry. Constructing a session adds its stream once to that registry; destroying it removes one occurrence, and changes nothing else; nothing else changes the registry.',
    'assumptions': ['a stream accepts what is written to it', 'diagnostics about malformed telnet negotiation are not output of a session'],
}
T0 = ('o', 'this')
OUTSYM = ('o', 'OUT1')
DATA = sbase('DATA', 'char')
DL = ('o', 'DATA')


def check(rep, tier):
    rep.rule('own', 'what a session prints is printed on its own stream')
    rep.rule('handlers', 'handlers and actions are given the stream of the session')
    rep.rule('block', 'a block written to the global stream is written once to every registered stream')
    rep.rule('char', 'so is every single character')
    rep.rule('reported', 'what is written to the global stream is reported as written')
    rep.rule('join', 'a session registers its stream once when it is created')
    rep.rule('leave', 'and removes it once when it is destroyed, whatever the other sessions')
    rep.rule('elsewhere', 'nothing else changes the registry')
    for n in ('core', 'boost', 'standalone'):
        Check(rep, prog(n), tier).run()


def glob(o):
    """a stream that is neither of the session nor given"""
    if isinstance(o, V) and o.k == 'ptr':
        o = o.a[0]
    return isinstance(o, tuple) and o and (o[0] == 'g' or o[0] == 'o' and len(o) == 2 and isinstance(o[1], tuple) and o[1][:1] in (('static',), ('g',)))


def isstream(p, tk):
    return tk is not None and tk.k in ('ref', 'rec', 'opq', 'ptr') and re.match(r'^(const )?(std::)?(basic_ostream<char>|ostream)( [&*])?$', tk.s) is not None


class Check(object):
    def __init__(self, rep, p, tier):
        self.rep, self.p, self.tier = rep, p, tier
        self.R = Roles(p)

    def bad(self, rule, f, msg, st, ev=None):
        w = at(ev) if ev is not None else (f['file'], f['l'], strip(f['n']))
        self.rep.bad(rule, *w, msg=msg, path=trace(st))

    def run(self):
        self.global_()
        self.life()
        self.own()

    # ------------------------------------------------------------ the global stream
    def registry(self):
        """(class, key of its container of streams)"""
        p, R = self.p, self.R
        f = fn(p, 'cli::Cli::cout')
        self.coutfn = f
        I, outs = runfn(self.rep, p, f, Policy(), State(), None)
        locs = set(fl[1] for s, fl in outs if fl and fl[0] == 'ret' and isinstance(fl[1], tuple))
        if len(locs) != 1:
            return None
        self.G = locs.pop()
        tk = p.tk(f['ret'])
        while tk.k in ('ref', 'ptr', 'sptr'):
            tk = tk.sub('to')
        r = p.rec(tk.rec) if tk.rec is not None else None
        if r is None:
            return None
        self.grec = r
        for k, fd in p.allfields(r['id']):
            t = p.tk(fd['t'])
            if t.k == 'seq' and t.sub('elem') is not None and ('basic_ostream' in t.sub('elem').s):
                return k, t
        return None

    def method(self, sn):
        p = self.p
        for f in p.functions.values():
            if f.get('rec') is not None and f['rec'] in p.bases(self.grec['id']) and f['sn'] == sn and f.get('body') is not None and f.get('repo'):
                return f
        return None

    def state(self, base, names):
        st = State()
        st.store[base + (self.key,)] = V('seq', tuple(('e', ptr(('o', n))) for n in names))
        return st

    def content(self, s, base):
        v = s.store.get(base + (self.key,))
        if not (isinstance(v, V) and v.k == 'seq'):
            return None
        out = []
        for q in v.a[0] if len(v.a) == 1 and isinstance(v.a[0], tuple) and (not v.a[0] or isinstance(v.a[0][0], tuple)) else v.a:
            if q[0] != 'e':
                return None
            x = q[1]
            if not (isinstance(x, V) and x.k == 'ptr'):
                return None
            out.append(x.a[0])
        return out

    def global_(self):
        p, rep = self.p, self.rep
        k = self.registry()
        self.key = None
        if k is None:
            rep.und('block', 'the registry of the global stream is not known')
            return
        self.key, self.rtk = k
        x = self.method('xsputn')
        o = self.method('overflow')
        if o is None:
            self.bad('char', self.coutfn, 'single characters written to the global stream are lost', State())
        regs = [(), ('A',), ('A', 'B'), ('A', 'A'), ('B', 'A', 'C'), ('A', 'B', 'A')]
        if self.tier == 'thorough':
            regs += [('A', 'B', 'C', 'D'), ('A', 'A', 'B', 'B', 'C')]
        self.names = set('ABCD') | set('S%d' % i for i in range(300))
        for names in regs:
            if x is not None:
                for n in (None, 0, 1, 2, 3):
                    self.block(x, names, n)
            if o is not None:
                for c in range(256) if names == ('A', 'B') else (0, 10, 13, 97, 255):
                    self.char(o, names, c)

        for n in self.many():
            names = tuple('S%d' % i for i in range(n))
            if x is not None:
                self.block(x, names, 1)
            if o is not None:
                self.char(o, names, 97)

    def many(self):
        """more streams than any limit the code mentions"""
        ks = set()
        for f in self.p.functions.values():
            if f.get('rec') is not None and f.get('repo') and f.get('body') is not None and f['rec'] in set(self.p.bases(self.grec['id'])) | {self.R.ses['id']}:
                ints(f['body'], ks)
        return sorted(set([20] + [k + 1 for k in ks if 7 <= k <= 260]))[:4]

    def pol(self, n=0):
        pol = Policy()
        pol.unroll = max(12, n + 3)
        return pol

    def texts(self, evs):
        """{stream: text written}, None when not known"""
        out = {}
        for e in evs:
            if e.kind == 'loop':
                if any(q.kind in ('out', 'flush') for b in e.x.backs for q in b.events):
                    return None
            if e.kind in ('ext', 'vcall', 'user') and e.obj is not None and isinstance(e.obj, V) and e.obj.k == 'ptr' and e.obj.a[0][:1] == ('o',) and e.obj.a[0][1:] and e.obj.a[0][1] in self.names:
                if e.name and e.name.split('::')[-1] in ('setstate', 'clear', 'flush', 'rdbuf', 'good', 'width', 'sync', 'pubsync', 'tellp', 'tellg', 'rdstate', 'exceptions', 'getloc', 'flags', 'precision', 'fill', 'tie'):
                    continue
                return None
            if e.kind == 'out':
                o = e.obj.a[0] if isinstance(e.obj, V) and e.obj.k == 'ptr' else e.obj
                out.setdefault(o, []).append(e.args[0] if e.args else None)
        return out

    def judge(self, rule, f, names, s, want, what):
        t = self.texts(s.events)
        if t is None or approx(s):
            self.rep.und(rule, 'what is written is not known')
            return
        for n in sorted(set(names)):
            if any(k[0] in ('fail', 'bad', 'eof') and v is True and len(k) > 1 and k[1] == ptr(('o', n)) for k, v in s.preds.items()):
                continue            # that stream is broken: whether it is tried does not matter
            got = t.get(('o', n), [])
            need = list(want(s)) * names.count(n)
            segs = []
            for g in got:
                if (isinstance(g, Lin) or isinstance(g, V) and g.k == 'term' and g.a[0] == 'num') and rule == 'char':
                    self.bad(rule, f, '%s written to the global stream is written as a number' % what, s)
                    return
                if not (isinstance(g, V) and g.k == 'seq'):
                    self.rep.und(rule, 'a value written')
                    return
                segs += list(g.a[0])
            a, b = normsegs(tuple(segs)), normsegs(tuple(need))
            if self.same(s, a, b):
                self.rep.ok(rule)
            elif all(q[0] in ('e', 's', 'r') for q in a) or len(need) == 1 and need[0][0] == 'e' and need[0][1].is_const():
                self.bad(rule, f, '%s written to the global stream with %d registered stream%s: one registered %d time%s receives %s' % (
                    what, len(names), 's' if len(names) != 1 else '', names.count(n), 's' if names.count(n) != 1 else '', 'nothing' if not a else 'other characters, or not as many times'), s)
            else:
                self.rep.und(rule, 'the text written: %r' % (a,))
        others = [o for o in t if o not in [('o', n) for n in names]]
        for o in others:
            if o[0] in ('g', 'o') and t[o] and any(q is not None and not (isinstance(q, V) and q.k == 'seq' and not q.a[0]) for q in t[o]):
                self.bad(rule, f, 'the global stream writes to a stream that is not registered', s)

    def same(self, s, a, b):
        a = [q for q in a if not s.equal(seqlen((q,)), L(0))]
        b = [q for q in b if not s.equal(seqlen((q,)), L(0))]
        a, b = expand(s, a), expand(s, b)
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x == y:
                continue
            if x[0] != y[0]:
                return False
            if x[0] == 'e' and isinstance(x[1], Lin) and isinstance(y[1], Lin) and s.equal(x[1], y[1]):
                continue
            if x[0] == 's' and x[1] == y[1] and s.equal(x[2], y[2]) and s.equal(x[3], y[3]):
                continue
            return False
        return True

    def block(self, f, names, n):
        p = self.p
        st = self.state(T0, names)
        if n is None:
            ln = L(DATA.len)
        else:
            ln = L(n)
            for y in st.assume(cmp_('>=', L(DATA.len), ln)):
                st = y
        st.store[DL] = wholeseq(DATA)
        I, outs = runfn(self.rep, p, f, self.pol(len(names)), st, T0, [V('iter', DL, L(0), False), ln], maxsteps=60000)
        for s, fl in outs:
            if not fl or fl[0] != 'ret':
                continue
            self.judge('block', f, names, s, lambda z: [('s', DATA, L(0), ln)], 'a block')
            r = fl[1]
            if isinstance(r, Lin):
                if s.equal(r, ln):
                    self.rep.ok('reported')
                elif s.can(cmp_('<', r, ln)) and not approx(s) and definite(s, r, ln):
                    self.bad('reported', f, 'a block is reported as written in part', s)

    def char(self, f, names, c):
        st = self.state(T0, names)
        I, outs = runfn(self.rep, self.p, f, self.pol(len(names)), st, T0, [L(c)], maxsteps=60000)
        ch = c - 256 if c > 127 else c
        for s, fl in outs:
            if not fl or fl[0] != 'ret':
                continue
            self.judge('char', f, names, s, lambda z: [('e', L(ch))], 'the character %d' % c)
            if isinstance(fl[1], Lin) and fl[1].is_const():
                if fl[1].c == -1:
                    self.bad('reported', f, 'the character %d is reported as not written' % c, s)
                else:
                    self.rep.ok('reported')

    # ------------------------------------------------------------ joining and leaving
    def life(self):
        p, rep, R = self.p, self.rep, self.R
        if self.key is None:
            return
        ctors = [f for f in p.functions.values() if f.get('repo') and f.get('kind') == 'ctor' and f.get('body') is not None and f.get('rec') == R.ses['id'] and not f.get('defaulted')]
        dt = [f for f in p.functions.values() if f.get('kind') == 'dtor' and f.get('rec') == R.ses['id'] and f.get('body') is not None]
        for f in ctors:
            oi = [i for i, a in enumerate(f['ps']) if isstream(p, p.tk(a['t']))]
            if len(oi) != 1:
                rep.und('join', 'a constructor without a stream')
                continue
            for names in [(), ('X',), ('OUT1',), ('X', 'OUT1', 'Y')] + [tuple('S%d' % i for i in range(n)) for n in self.many()]:
                st = self.state(self.G, names)
                args = [ptr(('o', 'CLI1')) if p.tk(a['t']).k == 'ref' and i not in oi else ptr(OUTSYM) if i in oi else None for i, a in enumerate(f['ps'])]
                try:
                    I, outs = runfn(rep, p, f, FeedPolicy(), st, T0, args, maxsteps=200000)
                except Exception as x:
                    rep.und('join', str(x)[:100])
                    continue
                seen = set()
                for s, fl in outs:
                    if fl and fl[0] == 'throw':
                        continue
                    if fiction(s):
                        continue
                    c = self.content(s, self.G)
                    if c is None:
                        rep.und('join', 'the registry is not known')
                        continue
                    want = sorted([('o', n) for n in names] + [OUTSYM])
                    if sorted(c, key=repr) == sorted(want, key=repr):
                        rep.ok('join')
                    elif approx(s) and False:
                        rep.und('join', 'not certain')
                    else:
                        self.bad('join', f, 'creating a session with %d registered streams leaves %d in the registry, its own %d times' % (len(names), len(c), c.count(OUTSYM)), s)
                        continue
                    if not dt:
                        self.bad('leave', f, 'a session never leaves the registry of the global stream', s)
                        continue
                    if len(seen) >= 3:
                        continue
                    seen.add(len(seen))
                    self.leave(dt[0], s, names)

    def leave(self, d, s0, names):
        rep = self.rep
        s = s0.copy()
        s.events = type(s.events)(s.events)[:0] if isinstance(s.events, (list, tuple)) else s.events
        # the session has been used, and others have been created
        names = names + ('Z',)
        v = s.store.get(self.G + (self.key,))
        s.store[self.G + (self.key,)] = V('seq', tuple(v.a[0]) + (('e', ptr(('o', 'Z'))),))
        for k, fd in self.p.allfields(self.R.ses['id']):
            tk = self.p.tk(fd['t'])
            if tk.k in ('bool', 'int', 'enum', 'ptr'):
                s.store.pop(T0 + (k,), None)
        try:
            I, outs = runfn(rep, self.p, d, self.pol(len(names)), s, T0, [], maxsteps=60000)
        except Exception as x:
            rep.und('leave', str(x)[:100])
            return
        for q, fl in outs:
            if fl and fl[0] == 'throw':
                continue
            if fiction(q):
                continue
            c = self.content(q, self.G)
            if c is None:
                rep.und('leave', 'the registry is not known')
                continue
            want = [('o', n) for n in names]
            if sorted(c, key=repr) == sorted(want, key=repr):
                rep.ok('leave')
            else:
                n = c.count(OUTSYM)
                self.bad('leave', d, 'destroying a session %s: its stream is then registered %d time%s, %d expected%s' % (
                    'whose stream is shared with another session' if OUTSYM in want else 'with %d other registered streams' % len(want), n, 's' if n != 1 else '', want.count(OUTSYM),
                    '' if n != want.count(OUTSYM) else ', and another stream is removed'), q)

    # ------------------------------------------------------------ sessions
    def own(self):
        p, rep, R = self.p, self.rep, self.R
        mut = self.mutators() if self.key is not None else []
        for f in sorted((f for f in p.functions.values() if f.get('repo') and f.get('body') is not None and f.get('rec') is not None and lib(f)), key=lambda f: f['id']):
            r = p.rec(f['rec'])
            if r.get('lam') or f.get('static'):
                continue
            cs = calls(bodyof(f))
            # who changes the registry
            for c in cs:
                if c.get('f') in mut and f['id'] not in mut:
                    self.mutates(f, c)
            if R.ses['id'] in p.bases(r['id']):
                self.session(f, r)
            elif any(p.tk(fd['t']).k == 'ref' and p.tk(fd['t']).sub('to') is not None and p.tk(fd['t']).sub('to').rec == R.ses['id'] for k, fd in p.allfields(r['id'])):
                self.editor(f, r)
            elif self.prints(f, r):
                self.other(f, r)
        self.commands()

    def mutators(self):
        """the functions that change the registry"""
        from .hist import writes
        p = self.p
        out = []
        nm = self.key.split('::')[-1]
        for f in p.functions.values():
            if f.get('rec') == self.grec['id'] and f.get('body') is not None and f.get('kind') not in ('ctor', 'dtor') and not f.get('const'):
                if f['sn'] in ('xsputn', 'overflow', 'sync'):
                    continue
                st = self.state(T0, ('X', 'Y'))
                try:
                    I, outs = runfn(self.rep, p, f, self.pol(), st, T0, [ptr(('o', 'X')) if p.tk(a['t']).k == 'ref' else ptr(('o', 'X')) for a in f['ps']], maxsteps=20000)
                except Exception:
                    continue
                if any(self.content(s, T0) != [('o', 'X'), ('o', 'Y')] for s, fl in outs):
                    out.append(f['id'])
        return out

    def mutates(self, f, c):
        """changes of the registry belong to construction and destruction"""
        p, rep = self.p, self.rep
        seen, work = set(), [f]
        while work:
            x = work.pop()
            if x['id'] in seen:
                continue
            seen.add(x['id'])
            if x.get('kind') in ('ctor', 'dtor'):
                rep.ok('elsewhere')
                continue
            cs = [g for g in p.functions.values() if g.get('repo') and g.get('body') is not None and lib(g) and g['id'] != x['id'] and any(q.get('f') == x['id'] for q in calls(bodyof(g)))]
            pub = x.get('access') == 0 and self.R.ses['id'] in p.bases(x['rec']) if x.get('rec') is not None else False
            if pub or not cs:
                if x.get('rec') is not None and (self.R.ses['id'] in p.bases(x['rec']) or p.rec(x['rec']).get('lam')):
                    rep.bad('elsewhere', f['file'], c.get('l') or f['l'], strip(f['n']), '%s changes the registry of the global stream while the session exists' % strip(x['n']), path=[strip(x['n'])])
                continue
            work += cs

    def prints(self, f, r):
        """a function of the command line editor, of the menus or of the commands that prints"""
        return any(isstream(self.p, self.p.tk(a['t'])) for a in f['ps']) or any(isstream(self.p, self.p.tk(fd['t'])) and self.p.tk(fd['t']).k in ('ref', 'ptr') for k, fd in self.p.allfields(r['id']))

    def allevents(self, evs, st):
        for e in evs:
            if e.kind == 'loop':
                for b in e.x.backs:
                    for q in self.allevents(b.events, b.state):
                        yield q
            else:
                yield e, st

    def session(self, f, r):
        p, rep, R = self.p, self.rep, self.R
        if f.get('kind') in ('ctor', 'dtor'):
            return self.derived(f, r)
        pol = FeedPolicy()
        pol.opaque = ('cli::CliSession::Feed', 'cli::CliSession::GetCompletions') + (('cli::CliSession::Prompt',) if f['sn'] != 'Prompt' else ()) if f['sn'] not in ('Feed', 'GetCompletions') else ('cli::Menu::ScanCmds',)
        if f['sn'] == 'GetCompletions':
            pol.opaque += ('cli::Menu::GetCompletions',)
        try:
            if f['sn'] == 'Feed':
                pol = FeedPolicy(('std::exception', 'other'))
            I, outs = runfn(rep, p, f, pol, R.session(), R.S, maxsteps=400000)
        except Exception as x:
            rep.und('own', '%s: %s' % (strip(f['n']), str(x)[:80]))
            return
        self.judgeall(f, outs, [ptr(R.OUT), R.OUT])

    def editor(self, f, r):
        """what works for a session: its streams are that of the session"""
        p, rep, R = self.p, self.rep, self.R
        sk = next(k for k, fd in p.allfields(r['id']) if p.tk(fd['t']).k == 'ref' and p.tk(fd['t']).sub('to') is not None and p.tk(fd['t']).sub('to').rec == R.ses['id'])
        E = ('o', 'ED')
        st = R.session()
        if f.get('kind') == 'ctor':
            if f.get('defaulted') or not f.get('ps'):
                return
            args = [ptr(R.S) if p.tk(a['t']).k == 'ref' and p.tk(a['t']).sub('to') is not None and p.tk(a['t']).sub('to').rec == R.ses['id'] else None for a in f['ps']]
            try:
                I, outs = runfn(rep, p, f, FeedPolicy(), st, E, args, maxsteps=60000)
            except Exception as x:
                rep.und('own', '%s: %s' % (strip(f['n']), str(x)[:80]))
                return
            for s, fl in outs:
                for loc, v in s.store.items():
                    if loc[:1] == E[:1] and loc[:2] == E and isinstance(v, (V, tuple)) and isinstance(loc[-1], str) and self.isstreamfield(loc[-1]):
                        o = v.a[0] if isinstance(v, V) and v.k == 'ptr' else v
                        if o == R.OUT or repr(o) == repr(R.OUT):
                            rep.ok('own')
                        elif isinstance(o, tuple) and glob(o):
                            self.bad('own', f, 'the command line of the session is not printed on its stream', s)
                        else:
                            rep.und('own', 'the stream of the command line: %r' % (o,))
            return
        if f.get('kind') == 'dtor':
            return
        st.store[E + (sk,)] = ptr(R.S)
        pol = FeedPolicy()
        pol.opaque += ('cli::CliSession::Feed', 'cli::CliSession::Prompt', 'cli::CliSession::GetCompletions')
        try:
            I, outs = runfn(rep, p, f, pol, st, E, maxsteps=150000)
        except Exception as x:
            rep.und('own', '%s: %s' % (strip(f['n']), str(x)[:80]))
            return
        self.judgeall(f, outs, None)

    def isstreamfield(self, key):
        p = self.p
        if not hasattr(self, '_sf'):
            self._sf = set()
            for r in p.records.values():
                if r.get('repo'):
                    for k, fd in p.allfields(r['id']):
                        if isstream(p, p.tk(fd['t'])):
                            self._sf.add(k)
        return key in self._sf

    def other(self, f, r):
        p, rep = self.p, self.rep
        if f.get('kind') in ('ctor', 'dtor') or r['id'] == getattr(self, 'grec', {}).get('id'):
            return
        if R_exec(p, f):
            return
        try:
            I, outs = runfn(rep, p, f, FeedPolicy(), State(), T0, maxsteps=30000)
        except Exception as x:
            return
        self.judgeall(f, outs, None)

    def allowed(self, o, out):
        if isinstance(o, V) and o.k in ('ptr', 'psym'):
            o = o.a[0] if o.k == 'ptr' else ('o', o.a[0])
        if out is not None and (ptr(o) in out or o in out):
            return True
        if not isinstance(o, tuple) or not o:
            return None
        if o == self.R.OUT:
            return True
        if glob(o):
            return False
        if o[0] in ('v', 'n', 't'):
            return True             # a stream made here
        if o[0] == 'o' and isinstance(o[1], tuple):
            t = o[1]
            if t[:1] == ('arg',):
                return True
            if t[:1] == ('init',) and isinstance(t[1], tuple) and t[1][-1] == self.R.s_out:
                return True         # a reference is never bound again
            if t[:1] == ('res',) and t[1].split('::')[-1] == 'OutStream':
                return True
            if out is None:
                return True
            return None
        return None

    def judgeall(self, f, outs, out):
        p, rep = self.p, self.rep
        for s, fl in outs:
            for e, st in self.allevents(s.events, s):
                if e.kind in ('out', 'flush', 'manip'):
                    a = self.allowed(e.obj, out)
                    if a is True:
                        rep.ok('own')
                    elif a is False:
                        rep.bad('own', *at(e), msg='output of the session is not printed on its stream', path=trace(s))
                    else:
                        rep.und('own', 'an unknown stream: %r' % (e.obj,))
                elif e.kind in ('user', 'vcall', 'ext') and e.args:
                    self.given(f, s, e, out)

    def given(self, f, s, e, out):
        p, rep = self.p, self.rep
        for a in e.args:
            o = a.a[0] if isinstance(a, V) and a.k == 'ptr' else a
            if isinstance(o, tuple) and glob(o) and (e.kind == 'user' or e.kind == 'vcall') and self.streamloc(o):
                rep.bad('handlers', *at(e), msg='a handler or an action is given a stream that is not that of the session', path=trace(s))
            elif e.kind == 'user' and isinstance(o, tuple) and out is not None and o in out:
                rep.ok('handlers')

    def streamloc(self, o):
        return o == self.G or any(x in repr(o) for x in ('cout', 'cerr', 'clog', 'Cout'))

    def derived(self, f, r):
        """a session class hands its stream to the base"""
        p, rep, R = self.p, self.rep, self.R
        if f.get('kind') != 'ctor' or r['id'] == R.ses['id'] or f.get('defaulted'):
            return
        oi = [i for i, a in enumerate(f['ps']) if isstream(p, p.tk(a['t']))]
        if len(oi) != 1:
            return
        pol = FeedPolicy()
        pol.opaque = ('cli::CliSession::Prompt', 'cli::CliSession::Enter')
        try:
            I, outs = runfn(rep, p, f, pol, State(), T0, maxsteps=60000)
        except Exception as x:
            rep.und('own', '%s: %s' % (strip(f['n']), str(x)[:80]))
            return
        want = ptr(('o', ('arg', oi[0])))
        for s, fl in outs:
            if fl and fl[0] == 'throw':
                continue
            v = s.store.get(T0 + (R.s_out,))
            if v is None:
                rep.und('own', 'the stream of a session')
            elif v == want or v == want.a[0]:
                rep.ok('own')
            elif isinstance(v, V) and v.k == 'ptr':
                self.bad('own', f, 'the session does not print on the stream it is created with', s)
        self.judgeall(f, outs, [want, want.a[0]])

    def commands(self):
        """the stream given to the function of a command"""
        p, rep, R = self.p, self.rep, self.R
        if p.name != 'core':
            return
        for f in commands(p, R):
            if not application(f):
                continue
            try:
                I, outs = run_command(rep, p, R, f)
            except Exception as x:
                rep.und('handlers', '%s: %s' % (strip(f['n'])[:60], str(x)[:60]))
                continue
            for s, fl in outs:
                for e, st in self.allevents(s.events, s):
                    if e.kind == 'user' and e.args:
                        a = e.args[0]
                        o = a.a[0] if isinstance(a, V) and a.k == 'ptr' else a
                        if o == R.OUT or ptr(R.OUT) == a:
                            rep.ok('handlers')
                        elif isinstance(o, tuple) and glob(o):
                            rep.bad('handlers', *at(e), msg='the function of a command is given a stream that is not that of the session', path=trace(s))
                        else:
                            rep.und('handlers', 'the stream given to a command: %r' % (a,))
                    elif e.kind in ('out', 'flush') and glob(e.obj):
                        rep.bad('own', *at(e), msg='output of a command is not printed on the stream of the session', path=trace(s))


def expand(s, segs):
    """slices of a known small length, element by element"""
    out = []
    for q in segs:
        if q[0] == 's':
            n = next((k for k in range(1, 6) if s.equal(q[3] - q[2], L(k))), None)
            if n is not None:
                out += [('e', elemval(q[1], q[2] + L(i))) for i in range(n)]
                continue
        out.append(q)
    return out


def fiction(s):
    """different objects do not have the same address"""
    def named(x):
        return isinstance(x, V) and x.k == 'ptr' and x.a[0][0] == 'o' and len(x.a[0]) == 2 and isinstance(x.a[0][1], str)
    return any(k[0] == 'peq' and v is True and len(k) == 3 and named(k[1]) and named(k[2]) and k[1] != k[2] for k, v in s.preds.items()) or \
        any(k[0] == 'peq' and v is False and len(k) == 3 and k[1] == k[2] for k, v in s.preds.items())


def R_exec(p, f):
    return f['sn'] == 'Exec' and len(f.get('ps') or []) == 2 and f.get('rec') is not None


def definite(s, a, b):
    return all(not (isinstance(q.key, tuple) and q.key[:1] in (('res',), ('wrap',))) for q in list(a.syms()) + list(b.syms()))


def ints(x, out):
    if isinstance(x, dict):
        if x.get('k') == 'int' and isinstance(x.get('v'), int):
            out.add(x['v'])
        for y in x.values():
            ints(y, out)
    elif isinstance(x, list):
        for y in x:
            ints(y, out)
