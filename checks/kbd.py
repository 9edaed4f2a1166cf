"""The keyboard: its thread, run abstractly against every result of the system calls, and the functions called from outside."""
from .roles import *
import re
from .c17 import SyncPolicy, SyncInterp
from engine.interp import Budget

KB = 'cli::detail::LinuxKeyboard'
POST = 'cli::Scheduler::Post'
ERRNO = ('g', 'errno')
EINTR = 4
THIS = ('o', 'this')


def postedkeys(p, st, ev):
    """(kind of key, character) the posted task gives to the handler, found by running it"""
    clos = [a for a in ev.args if isinstance(a, V) and a.k == 'clo']
    f = p.fn(clos[0].a[0]) if clos and clos[0].a[0] is not None else None
    if f is None:
        return ()
    J = Interp(p, Policy())
    got = set()
    s0 = st.copy()
    s0.events = []
    for s, fl in J.run(f, st=s0, clo=clos[0]):
        for e, x, lp in all_events(s):
            if e.kind == 'user' and e.args and isinstance(e.args[0], V) and e.args[0].k == 'rec':
                r = e.args[0].a[0]
                got.add((s.store.get(r + ('pair::first',)), s.store.get(r + ('pair::second',))))
    return tuple(got)


class KbPolicy(SyncPolicy):
    """accesses with the locks held; every outcome of the system calls"""
    def __init__(self, p, shared, flag, active):
        SyncPolicy.__init__(self, None, p, THIS, shared, None, flag, active)
        self.all = True
        self.flagfield = flag
        self.quiet = False

    def fresh(self, I, st):
        for fk, tk in self.shared.items():
            loc = THIS + (fk,)
            st.store[loc] = tk.mk(('env', st.fresh(), loc))

    def note(self, I, st, kind, e):
        I.event(st, kind, None, None, (), self.running(st), e)

    def on_event(self, I, st, ev):
        if ev.kind == 'vcall' and ev.name == POST:
            I.event(st, 'posted', None, None, postedkeys(I.p, st, ev), None, ev.line)
        if ev.kind == 'wait':
            i = st.events.pop()
            self.note(I, st, 'rel', i.line)
            st.events.append(i)
            self.fresh(I, st)
        return [st]

    def touch(self, I, st, loc, write):
        if loc[:1] != THIS[:1] or loc[:2] != THIS or len(loc) <= 2:
            return
        if not write and loc[2:] == (self.flagfield,) and not self.held(st):
            st.store[loc] = self.shared[self.flagfield].mk(('env', st.fresh(), loc))        # changed by others at any time
        kinds = [e.kind for e in st.events]
        phase = 'after' if 'join' in kinds else 'spawned' if 'spawn' in kinds else 'before'
        f = I.curfn()
        if f:
            self.accesses.append((loc[2:], self.held(st), write, phase, f['file'], f['l'], strip(f['n'])))

    def hook(self, I, st, fr, name, e, obj, args):
        if name in ('vf_fd_set', 'vf_fd_clr', 'vf_fd_zero', 'vf_fd_isset'):
            vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
            if name != 'vf_fd_isset':
                I.event(st, name[3:], None, vals[-1], vals[:-1], None, e)
                return [(st, VOID)]
            out = []
            # a wait that succeeds reports at least one of the descriptors waited for
            last = [i for i, x in enumerate(st.events) if x.kind == 'select']
            since = st.events[last[-1]:] if last else []
            ready = bool(since) and since[0].res == 'ready' and since[0].name == 'select'
            others = set()
            for x in reversed(st.events[:last[-1]] if last else []):
                if x.kind == 'fd_zero' or x.kind == 'select':
                    break
                if x.kind == 'fd_set' and x.args[0] != vals[0]:
                    others.add(x.args[0])
            no = set(x.args[0] for x in since if x.kind == 'isset' and x.res is False)
            must = ready and last and others <= no
            for r in (1, 0) if not must else (1,):
                s = st.copy()
                I.event(s, 'isset', None, vals[1], [vals[0]], r == 1, e)
                out.append((s, L(r)))
            return out
        if name in ('select', 'pselect', 'poll', 'ppoll'):
            vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
            out = []
            forever = name == 'select' and vals[-1] == NULL
            for what, r, err in (('ready', 1, None), ('intr', -1, EINTR), ('error', -1, 0)) + (() if forever else (('timeout', 0, None),)):
                s = st.copy()
                I.event(s, 'select', name, None, vals, what, e)
                self.seterr(I, s, err)
                out.append((s, L(r)))
            return out
        if name == 'read' and len(args) == 3:
            vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
            if not (isinstance(vals[1], V) and vals[1].k == 'ptr' and vals[2] == L(1)):
                return None
            return self.reads(I, st, e, vals, vals[1].a[0], (('got', 1, None), ('eof', 0, None), ('intr', -1, EINTR), ('error', -1, 0)))
        if name in ('getchar', 'std::getchar', 'fgetc', 'std::fgetc', 'getc'):
            return self.reads(I, st, e, [I.argval(st, a, x) for a, x in zip(args, e['args'])], None, (('got', None, None), ('eof', -1, None), ('intr', -1, EINTR), ('error', -1, 0)))
        return None

    def seterr(self, I, s, err):
        if err is None:
            return
        if err == 0:
            v = sym(('env', s.fresh(), 'errno'), 1, 4095)
            s.store[ERRNO] = L(v)
            for x in s.assume(cmp_('!=', L(v), L(EINTR)))[:1]:
                I.become(s, x)
        else:
            s.store[ERRNO] = L(err)

    def reads(self, I, st, e, vals, loc, outcomes):
        out = []
        for what, r, err in outcomes:
            s = st.copy()
            c = L(self.char(s, loc is None)) if what == 'got' else None
            I.event(s, 'read', None, None, vals[:1] + [c], what, e)
            self.seterr(I, s, err)
            if c is not None and loc is not None:
                I.put(s, loc, c)
            out.append((s, c if r is None else L(r)))
        return out

    def char(self, s, unsigned):
        return sym(('env', s.fresh(), 'key'), 0 if unsigned else -128, 255 if unsigned else 127)


class Silent(object):
    def __getattr__(self, n):
        return lambda *a, **k: None


class KbInterp(SyncInterp):
    """the outcomes of a function that reads one character which differ in nothing that matters to its callers are merged
    (every path of that function is judged on its own)"""
    def __init__(self, p, pol, kb, units):
        SyncInterp.__init__(self, p, pol)
        self.kb, self.units = kb, units

    def call_fn(self, st, fr, f, this, args, e, clo=None):
        if f['id'] not in self.units:
            return SyncInterp.call_fn(self, st, fr, f, this, args, e, clo)
        n0, e0, s0, i0 = len(self.sink), len(st.events), dict(st.store), self.frid
        out = SyncInterp.call_fn(self, st, fr, f, this, args, e, clo)
        mine = self.sink[n0:]
        del self.sink[n0:]
        self.sink += self.merged(mine, e0, s0, i0)
        return self.merged(out, e0, s0, i0)

    def merged(self, outs, e0, s0, i0):
        seen, res = set(), []
        for s, v in outs:
            k = self.key(s, v, e0, s0)
            if k not in seen:
                seen.add(k)
                res.append((s, v))
        return res

    def key(self, s, v, e0, s0):
        mon = Reading(Silent(), self.kb, ())
        ends = frozenset(repr(m) for m in walk.run_events(mon, s.events[e0:], ((None, None, None, frozenset(), None, 0, None, True, 0),), s))
        chg = tuple(sorted((repr(k), self.norm(w)) for k, w in s.store.items() if s0.get(k) != w and k[0] != 'v' and k != ERRNO and k[0] != 'curexc'))
        own = tuple(sorted((repr(k), self.norm(w)) for k, w in s.store.items() if k in s0 and s0[k] != w and k[0] == 'v'))
        facts = sorted(re.sub(r'\d+', '#', repr(c)) for cs in (s.le, s.eq, s.ne) for c in cs if "'key'" in repr(c))
        dom = sorted(repr(d) for q, d in s.dom.items() if "'key'" in repr(q)) if isinstance(s.dom, dict) else ()
        return ends, chg, own, self.norm(v), tuple(facts), tuple(dom)

    def norm(self, v):
        if isinstance(v, Lin) and v.is_const() or v in (T, F):
            return repr(v)
        if isinstance(v, V):
            return v.k + (str(v.a[0]) if v.k == 'exc' else '')
        return 'sym'


class Keyboard(object):
    def __init__(self, rep, p):
        self.p = p
        self.rec = c = recof(p, KB)
        fs = [(fk, f, p.tk(f['t'])) for fk, f in p.allfields(c['id'])]
        self.fs = fs
        self.shared = {fk: tk for fk, f, tk in fs if tk.k in ('bool', 'int', 'enum')}
        self.mutexes = [fk for fk, f, tk in fs if 'mutex' in tk.s]
        self.flag = self.active = None
        ctors = fns(p, KB + '::LinuxKeyboard')
        if not ctors:
            raise Anchor('no constructor of the keyboard')
        self.ctor = ctors[0]
        self.runs = {}
        # the flag: what activating and deactivating set to different values
        vals = {}
        for n in ('ActivateInput', 'DeactivateInput'):
            f = fn(p, KB + '::' + n)
            I, outs = runfn(rep, p, f, Policy(), State())
            for s, fl in outs:
                for k, v in s.store.items():
                    if k[:2] == THIS and len(k) == 3 and v in (T, F):
                        vals.setdefault(k[2], {}).setdefault(n, set()).add(v)
        for fk, d in vals.items():
            a = d.get('ActivateInput')
            if a and len(a) == 1 and fk in self.shared and self.shared[fk].k == 'bool' and d.get('DeactivateInput') != a:
                self.flag, self.active = fk, list(a)[0]
        if self.flag is None:
            bs = [fk for fk, tk in self.shared.items() if tk.k == 'bool']
            if len(bs) == 1:
                self.flag = bs[0]
                a = [v for d in [vals.get(self.flag, {})] for v in d.get('ActivateInput', ())]
                i = [v for d in [vals.get(self.flag, {})] for v in d.get('DeactivateInput', ())]
                self.active = a[0] if a else F if i == [T] else T
        self.thread = None
        self.run(rep, self.ctor)
        sp = [(e, s) for s, fl in self.runs[self.ctor['id']][2] for e, x, lp in all_events(s) if e.kind == 'spawn']
        if not sp:
            raise Anchor('the keyboard starts no thread')
        v = sp[0][0].args[0]
        self.spawnev = sp[0][0]
        self.clo = v if isinstance(v, V) and v.k == 'clo' else None
        if self.clo is None and isinstance(v, V) and v.k == 'fnptr':
            raise Anchor('the thread function is not known')
        pol = self.pol()
        f = p.fn(self.clo.a[0])
        self.units, self.unitruns = self.readers(rep)
        I = KbInterp(p, pol, self, self.units)
        I.maxsteps = 16000000
        self.parts = []
        try:
            outs = I.run(f, st=self.state(), clo=self.clo)
        except Budget as x:
            # too many paths: only the functions that read a key, each of them alone
            rep.und('signals' if rep.id == 'C20' else 'woken', 'the thread as a whole: %s' % x)
            outs = []
            pol, I, self.parts = self.pieces(rep)
        self.forever = not outs and not self.parts
        if self.forever and I.loops:
            s = self.state()
            s.events.append(Ev('loop', None, None, (), None, I.loops[-1].line, I.loops[-1].file, I.loops[-1].fn, I.loops[-1]))
            outs = [(s, ('forever',))]
        self.thread = (f, pol, I, outs)
        rep.ran(I, outs + self.parts)

    def readers(self, rep):
        """the functions that wait for a character and read it"""
        ids, runs = set(), []
        pub = set(f['id'] for f in self.outside())
        for f in self.p.functions.values():
            if f.get('rec') != self.rec['id'] or f.get('body') is None or f['id'] in pub or f.get('kind') in ('ctor', 'dtor') or f.get('static'):
                continue
            if self.p.tk(f['ret']).k not in ('int', 'bool', 'void', 'enum'):
                continue
            I = SyncInterp(self.p, self.pol())
            I.maxsteps = 300000
            try:
                outs = I.run(f, st=self.state(), this=THIS)
            except Budget:
                continue
            outs += [(s, ('throw', x)) for s, x in I.sink]
            kinds = [set(e.kind for e, x, lp in all_events(s)) for s, fl in outs]
            if any('read' in k for k in kinds) and not any('wait' in k or 'spawn' in k for k in kinds):
                ids.add(f['id'])
                runs += outs
        return ids, runs

    def pieces(self, rep):
        out, done = [], set()
        todo = [(self.rec['id'], THIS)]
        todo += [(tk.rec, THIS + (fk,)) for fk, f, tk in self.fs if tk.k == 'rec' and self.p.rec(tk.rec)]
        pub = set(f['id'] for f in self.outside())
        pol = self.pol()
        I = SyncInterp(self.p, pol)
        for rid, this in todo:
            for f in self.p.functions.values():
                if f.get('rec') != rid or f.get('body') is None or f['id'] in pub or f.get('kind') in ('ctor', 'dtor') or f.get('static'):
                    continue
                I = SyncInterp(self.p, pol)
                I.maxsteps = 600000
                try:
                    outs = I.run(f, st=self.state(), this=this)
                except Budget:
                    continue
                for s, fl in outs:
                    kinds = [e.kind for e, x, lp in all_events(s)]
                    if 'read' in kinds and 'select' in kinds:
                        out.append((s, fl))
        return pol, I, out

    def pol(self):
        return KbPolicy(self.p, self.shared, self.flag, self.active)

    def state(self):
        st = State()
        for m in self.mutexes:
            st.store[('held', ptr(THIS + (m,)))] = F
        return st

    def run(self, rep, f, name=None):
        if f['id'] in self.runs:
            return self.runs[f['id']]
        pol = self.pol()
        I = SyncInterp(self.p, pol)
        outs = I.run(f, st=self.state(), this=THIS)
        rep.ran(I, outs)
        self.runs[f['id']] = (pol, I, outs)
        return self.runs[f['id']]

    def outside(self):
        """the functions called from the other threads"""
        return [f for f in self.p.functions.values() if f.get('rec') == self.rec['id'] and f.get('body') is not None and not f.get('static') and
                (f.get('access', 0) == 0 or f.get('kind') in ('ctor', 'dtor'))]

    def keyname(self, ev):
        ts = set(a[0] for a in ev.args)
        if len(ts) == 1:
            t = list(ts)[0]
            if isinstance(t, Lin) and t.is_const():
                return keytypes(self.p).get(t.c)
        return None

    def fd(self, v):
        """'in', a field path, or None: which descriptor a value is"""
        if v == L(0):
            return 'in'
        if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
            k = v.t[0][0].key
            if k[0] == 'init' and k[1][:2] == THIS:
                return k[1][2:]
        return None


_kb = {}


def keyboard(rep, p):
    if p.name not in _kb:
        _kb[p.name] = Keyboard(rep, p)
    return _kb[p.name]


def parts(kb, mon):
    """what can be said when the thread as a whole is too large"""
    mon.init = (None, None, None, frozenset(), None, 0, None, True, 0)
    for s, fl in kb.parts + kb.unitruns:
        walk.run(mon, s)
    mon.finish()
    return mon


class Reading(Monitor):
    """select result, stdin ready, stop requested, descriptors prepared, last read, keys since the last post, ended, flag seen active"""
    init = (None, None, None, frozenset(), None, 0, None, False, 0)

    def __init__(self, rep, kb, rules):
        self.rep, self.kb, self.rules = rep, kb, rules
        self.stopfd = set()
        self.n = {}
        self.looked, self.unseen = False, []

    def bad(self, rule, ev, st, msg):
        if rule in self.rules:
            self.rep.bad(rule, *at(ev), msg=msg, path=trace(st) if st is not None else ())

    def ok(self, rule):
        if rule in self.rules:
            self.rep.ok(rule)

    def finish(self):
        """a stop is looked for in the descriptors, but not where input is ready as well"""
        if self.looked:
            for ev, st in self.unseen[:4]:
                self.bad('wakeable', ev, st, 'while input keeps coming a stop request is not noticed')
        self.unseen = []

    def step(self, ms, ev, st):
        sel, inp, stop, prep, rd, keys, end, act, posted = ms
        k = ev.kind
        if k == 'fd_zero':
            prep = frozenset(['zero']) | (prep & {'unseen'})
        elif k == 'fd_set':
            d = self.kb.fd(ev.args[0])
            prep = prep | {d}
            if d not in ('in', None):
                self.stopfd.add(d)
        elif k == 'rel':
            if ev.res is True:
                act = True
        elif k == 'select':
            if ev.name != 'select':
                self.rep.und(list(self.rules)[0], 'waits with %s' % ev.name)
                prep = frozenset(['zero', 'in', 'other'])
            if end:
                self.bad('ends', ev, st, 'waits for input again although %s' % end)
            else:
                self.ok('ends')
            if not act:
                self.bad('deactivated', ev, st, 'waits for input although the input may be deactivated')
            else:
                self.ok('deactivated')
            if 'zero' not in prep or 'in' not in prep:
                self.bad('signals', ev, st, 'the descriptors to wait for are not set: they are undefined after a wait that was interrupted')
            if 'unseen' in prep:
                self.unseen.append((ev, st))
            if len(prep - {'unseen'}) < 3:
                self.bad('wakeable', ev, st, 'the wait for input cannot be ended by a stop request')
            else:
                self.ok('wakeable')
            sel, inp, stop, prep = ev.res, None, None, frozenset()
            if ev.res == 'error':
                end = 'the wait failed'
        elif k == 'isset':
            d = self.kb.fd(ev.args[0])
            if sel in ('intr', 'timeout') or sel == 'error':
                return ((sel, inp, stop, prep, rd, keys, end, act, posted),) if not ev.res else ()
            if d == 'in':
                inp = ev.res
            elif d is not None:
                self.stopfd.add(d)
                self.looked = True
                prep = prep - {'unseen'}
                stop = ev.res
                if ev.res:
                    end = 'a stop was requested' if not inp else end
            if sel == 'ready' and inp is False and stop is False:
                return ()           # something is ready
            if sel == 'ready' and stop and inp is False:
                end = 'a stop was requested'
        elif k == 'read':
            if self.kb.fd(ev.args[0]) not in ('in', None) and isinstance(ev.args[0], Lin):
                return (ms,)
            if sel is None:
                self.bad('wakeable', ev, st, 'waits for a key where a stop request cannot wake it up')
            elif sel in ('intr', 'timeout'):
                self.bad('signals', ev, st, 'a signal interrupting the wait is taken for input')
            elif end:
                self.bad('ends', ev, st, 'reads although %s' % end)
            elif inp is not True and stop is not False:
                self.bad('signals', ev, st, 'reads without looking whether there is input')
            else:
                self.ok('signals')
            if sel == 'ready' and stop is not False:
                prep = prep | {'unseen'}
            sel = inp = stop = None
            rd = ev.res
            if rd == 'got':
                keys = min(keys + 1, 6)
            elif rd in ('eof', 'error'):
                end = 'the input has ended'
        elif k == 'posted':
            if rd in ('eof', 'error') and end:
                if posted:
                    self.bad('notified', ev, st, 'the end of the input is notified twice')
                t = self.kb.keyname(ev)
                if t == 'eof':
                    self.ok('notified')
                    posted = 1
                elif t is not None:
                    self.bad('notified', ev, st, 'the end of the input is taken for a key')
                    posted = 1
                else:
                    self.rep.und(list(self.rules)[0], 'the key notified is not known')
                    posted = 1
            elif end:
                self.bad('signals', ev, st, 'a key is notified although %s' % end)
            elif rd == 'intr':
                self.bad('signals', ev, st, 'a signal interrupting the reading is taken for a key')
            elif not keys:
                self.bad('onekey', ev, st, 'a key is notified that was not read, or twice')
            else:
                self.ok('onekey')
            keys = 0
            act = False
        return ((sel, inp, stop, prep, rd, keys, end, act, posted),)


def keytypes(p):
    out = {}
    for t in p.types:
        if t['k'] == 'enum' and strip(t.get('n', '')).endswith('detail::KeyType'):
            for n, v in t.get('v', []):
                out[v] = n
    return out
