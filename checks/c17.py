"""C17: the loop scheduler runs posted tasks exactly once, in order, until stopped."""
from .roles import *

META = {
    'technique': 'lockset analysis of every access to the shared fields, and a rely-guarantee typestate over abstract paths: at every lock and after every wait the shared fields take arbitrary values, every critical section is judged by how it changes the queue and the stop flag',
    'note': 'A new acquisition of the lock forgets everything known about the shared fields, which stands for every interleaving of the other threads (the only rely is that they respect the same rules).',
    'explanation': 'Each member function of the scheduler is executed abstractly. Rules: shared fields only under one common lock; a critical section leaves the queue as it was, appends the posted task, or takes the first '
                   'task while not stopped; a taken task is run exactly once, in order, with no lock held; a wait only while the queue is empty and the scheduler runs; posting and stopping wake the waiting threads; '
                   'the run loop ends exactly when stopped.',
    'assumptions': ['a task does not throw', 'the standard mutex and condition variable work as specified'],
}


def cls(p):
    return recof(p, 'cli::LoopScheduler')


class SyncPolicy(Policy):
    watch = True

    def __init__(self, rep, p, this, shared, q, flag, runval):
        self.rep, self.this, self.shared, self.q, self.flag, self.runval = rep, this, shared, q, flag, runval
        self.accesses = []
        self.quiet = False

    def fresh(self, I, st):
        for fk, tk in self.shared.items():
            loc = self.this + (fk,)
            for k in [k for k in st.store if k[:len(loc)] == loc]:
                del st.store[k]
            st.store[loc] = tk.mk(('env', st.fresh(), loc))
        st.store.pop(('env', 'q0'), None)

    def running(self, st):
        """whether the scheduler is known to run in this state"""
        return self.told(st, st.store.get(self.this + (self.flag,)))

    def told(self, st, x):
        if x is None:
            return None
        d = (x == T) if x in (T, F) else st.decide(x) if isinstance(x, tuple) else None
        return None if d is None else d == (self.runval == T)

    def note(self, I, st, kind, e):
        loc = self.this + (self.q,)
        q = st.store.get(loc)
        q0 = st.store.get(('env', 'q0'), q)
        emp = lambda v: None if not isinstance(v, V) or v.k != 'seq' else st.decide(cmp_('==', seqlen(v.a[0]), L(0)))
        kept = False
        if isinstance(q0, V) and isinstance(q, V) and q0.k == 'seq' and q != q0:
            b = bases(q0)
            kept = any(any(y in b for y in bases(v)) for k, v in st.store.items() if isinstance(v, V) and k[:1] != ('env',) and v.k == 'seq' and k != loc)
        n0 = None
        if isinstance(q0, V) and q0.k == 'seq':
            n0 = ([i for i in range(4) if st.decide(cmp_('==', seqlen(q0.a[0]), L(i))) is True] + [None])[0]
        I.event(st, kind, None, None, (q0, q, n0, emp(q0), emp(q), kept, st.store.get(self.this + (self.flag,))), self.running(st), e)

    def on_lock(self, I, st, m, ev):
        self.fresh(I, st)

    def on_event(self, I, st, ev):
        if ev.kind == 'wait':
            i = st.events.pop()
            self.note(I, st, 'rel', i.line)
            st.events.append(i)
            self.fresh(I, st)
        return [st]

    def held(self, st):
        return frozenset(k[1] for k, v in st.store.items() if k[:1] == ('held',) and v == T)

    def touch(self, I, st, loc, write):
        if self.quiet or loc[:len(self.this)] != self.this or len(loc) <= len(self.this):
            return
        fk = loc[len(self.this)]
        if fk in self.shared:
            f = I.curfn()
            self.accesses.append((fk, self.held(st), write, f['file'], f['l'], strip(f['n'])))

    def on_load(self, I, st, loc):
        self.touch(I, st, loc, False)

    def on_store(self, I, st, loc, v):
        self.touch(I, st, loc, True)


class Lock(Monitor):
    """held mutexes, tasks taken and not run, wake-up owed ('post'/'stop'), notified in this section, last known (running, empty)"""
    init = (frozenset(), (), None, None, None)

    def __init__(self, rep, recursive, waited):
        self.rep, self.recursive, self.waited = rep, recursive, waited
        self.one = self.cond = None

    def bad(self, rule, ev, st, msg):
        self.rep.bad(rule, *at(ev), msg=msg, path=trace(st) if st is not None else ())

    def step(self, ms, ev, st):
        held, pend, owed, noted, last = ms
        k = ev.kind
        ok = self.rep.ok
        if k == 'lock':
            if ev.obj in held and not self.recursive(ev.obj):
                self.bad('unlocked', ev, st, 'the lock is taken while it is held')
            held = held | {ev.obj}
            noted = None
        elif k == 'unlock':
            if ev.obj not in held:
                self.bad('unlocked', ev, st, 'a lock that is not held is released')
            held = held - {ev.obj}
        elif k == 'notify':
            if self.waited and ev.obj not in self.waited:
                self.bad('wakes', ev, st, 'the condition variable notified is not the one waited on')
            else:
                if held:
                    noted = 'notify_all' if ev.name == 'notify_all' else noted or ev.name
                if owed:
                    if owed == 'stop' and ev.name != 'notify_all':
                        self.bad('wakes', ev, st, 'stopping wakes only one of the threads running the scheduler')
                    elif ev.name != 'notify_all':
                        self.one = ev
                    ok('wakes')
                    owed = None
        elif k == 'rel':
            q0, q, n0, e0, e1, kept, x = ev.args
            if pend and ev.res is None and q0 == q:
                # asked again whether it is stopped: a task taken may then be dropped
                pend, last = (), ('asked', e1, x)
                return ((held, pend, owed, noted, last),)
            # how the queue changed
            ch = change(q0, q, n0)
            if ch is None:
                if kept or approx(q):
                    self.rep.und('queue', 'the queue is changed in a way not understood')
                elif e1 is True and ev.res is False:
                    pass
                else:
                    self.bad('queue', ev, st, 'tasks are lost or reordered')
            else:
                removed, added = ch
                if removed:
                    if ev.res is not True:
                        self.bad('stopped', ev, st, 'a task is taken although the scheduler may have been stopped')
                    else:
                        ok('stopped')
                    pend = pend + removed
                    if len(pend) > 2:
                        if ev.res is not False:
                            self.bad('once', ev, st, 'tasks are taken from the queue and not run')
                        pend = pend[-2:]
                if added:
                    if noted:
                        if noted != 'notify_all':
                            self.one = ev
                        ok('wakes')
                    elif e0 is False:
                        self.cond = self.cond or ev
                    else:
                        owed = 'post'
                ok('queue')
            if owed is None and ms[4] is None and ev.res is False and self.stops:
                if noted == 'notify_all':
                    ok('wakes')
                elif noted:
                    self.bad('wakes', ev, st, 'stopping wakes only one of the threads running the scheduler')
                else:
                    owed = 'stop'
            last = (ev.res, e1, x)
        elif k == 'wait':
            m = ev.args[0]
            if m not in held:
                self.bad('wait', ev, st, 'waits without the lock')
            if len(held) > 1:
                self.bad('wait', ev, st, 'another lock is held during the wait')
            if last is None or last[0] is not True or last[1] is not True:
                self.bad('wait', ev, st, 'waits although a task may be queued or the scheduler may have been stopped: the wake-up is missed')
            else:
                ok('wait')
        elif k == 'assume' and ev.name == 'nonempty' and ev.res is False and ev.args and ev.args[0] in pend:
            pend = tuple(x for x in pend if x != ev.args[0])
        elif k == 'user':
            if held:
                self.bad('unlocked', ev, st, 'a task runs while the lock is held')
            else:
                ok('unlocked')
            if pend and ev.obj == pend[0]:
                ok('once')
                pend = pend[1:]
            elif ev.obj in pend:
                self.bad('once', ev, st, 'tasks run in another order')
                pend = tuple(x for x in pend if x != ev.obj)
            elif last and last[0] == 'asked':
                self.rep.und('once', 'a task run after asking whether the scheduler is stopped')
            elif isinstance(ev.obj, V) and ev.obj.k == 'fsym' and not approx(ev.obj):
                self.bad('once', ev, st, 'a task is run that was not taken from the queue, or is run again')
            else:
                self.rep.und('once', 'an unknown task')
        return ((held, pend, owed, noted, last),)


def change(q0, q, n0=None):
    """(elements removed at the front, elements added at the back) or None"""
    if q0 == q:
        return (), ()
    if not (isinstance(q0, V) and isinstance(q, V) and q0.k == 'seq' and q.k == 'seq' and len(q0.a[0]) == 1):
        return None
    s0 = q0.a[0][0]
    segs = q.a[0]
    if n0 is not None and s0[0] == 's' and all(x[0] == 'e' for x in segs):
        # the content of a queue of known length, element by element
        old = [V('fsym', ('el', s0[1], s0[2] + i)) for i in range(n0)]
        new = [x[1] for x in segs]
        for k in range(n0 + 1):
            if new[:n0 - k] == old[k:]:
                return tuple(old[:k]), tuple(new[n0 - k:])
        return None
    if s0[0] != 's' or not segs or segs[0][0] != 's' or segs[0][1] != s0[1] or segs[0][3] != s0[3]:
        if s0[0] == 's' and all(x[0] == 'e' for x in segs):
            return None
        return None
    d = segs[0][2] - s0[2]
    if d.t or d.c < 0 or d.c > 8:
        return None
    if any(x[0] != 'e' for x in segs[1:]):
        return None
    b = s0[1]
    return tuple(V('fsym', ('el', b, s0[2] + i)) for i in range(d.c)), tuple(x[1] for x in segs[1:])


def check(rep, tier):
    p = prog()
    c = cls(p)
    this = ('o', 'this')
    rep.rule('lock', 'every access to the shared fields holds the lock of the scheduler')
    rep.rule('queue', 'a critical section keeps the queue, appends the posted task or takes the first')
    rep.rule('posted', 'posting keeps the task, last')
    rep.rule('stopped', 'no task is taken once stopped, and a stop is final')
    rep.rule('once', 'a task taken is run exactly once, in order')
    rep.rule('unlocked', 'tasks run with no lock held, locks are released')
    rep.rule('wait', 'waits only while there is nothing to do, with the lock')
    rep.rule('wakes', 'posting and stopping wake the waiting threads')
    rep.rule('runs', 'running ends exactly when stopped')
    qs = fields(p, c, lambda tk, f: tk.k == 'seq' and tk.sub('elem') is not None and tk.sub('elem').k == 'func')
    out = idle(p, c)
    bs = [b for b in fields(p, c, lambda tk, f: tk.k == 'bool') if b[0] not in out]
    if len(qs) != 1 or len(bs) != 1:
        raise Anchor('LoopScheduler: %d task queues and %d flags' % (len(qs), len(bs)))
    q, flag = qs[0][0], bs[0][0]
    shared = {fk: tk for fk, f, tk in fields(p, c, lambda tk, f: tk.k in ('seq', 'bool', 'int', 'enum', 'func'))}
    # the value of the flag of a new scheduler
    runval = None
    for k in fns(p, 'cli::LoopScheduler::LoopScheduler'):
        for s, fl in runfn(rep, p, k, Policy(), State())[1]:
            if s.store.get(this + (flag,)) in (T, F):
                runval = s.store[this + (flag,)]
                v = s.store.get(this + (q,))
                if isinstance(v, V) and v.k == 'seq' and s.decide(cmp_('==', seqlen(v.a[0]), L(0))) is True:
                    rep.ok('queue')
    if runval is None:
        raise Anchor('the flag of a new scheduler is not known')
    methods = [f for f in p.functions.values() if f.get('rec') == c['id'] and f.get('body') is not None and f.get('kind') not in ('ctor',) and not f.get('static')]
    # only those called from outside: the others are seen in their callers
    pub = [f for f in methods if f.get('access', 0) == 0 or f.get('kind') == 'dtor']
    runs = {}
    written, waited = set(), set()
    for f in pub:
        pol = SyncPolicy(rep, p, this, shared, q, flag, runval)
        st = State()
        for fk, g in p.allfields(c['id']):
            t = p.tk(g['t'])
            if 'mutex' in t.s:
                st.store[('held', ptr(this + (fk,)))] = F
        pol.fresh(None, st)
        # locking is seen as the note of what the section did
        I = SyncInterp(p, pol)
        outs = I.run(f, st=st, this=this)
        rep.ran(I, outs)
        runs[f['id']] = (f, pol, I, outs)
        for a in pol.accesses:
            if a[2]:
                written.add(a[0])
        for s, fl in outs:
            for e, x, lp in all_events(s):
                if e.kind == 'wait':
                    waited.add(e.obj)
                if e.kind == 'rel' and e.args[0] != e.args[1]:
                    written.add(q)
    # lockset
    common = None
    acc = [(f, a) for f, pol, I, outs in runs.values() if f.get('kind') != 'dtor' for a in pol.accesses if a[0] in written]
    for f, a in acc:
        common = a[1] if common is None else common & a[1]
    if common:
        rep.ok('lock', len(acc))
    elif acc:
        best = {}
        for f, a in acc:
            for m in a[1]:
                best[m] = best.get(m, 0) + 1
        m = max(best, key=lambda x: best[x]) if best else None
        for f, a in acc:
            if m not in a[1]:
                rep.bad('lock', a[3], a[4], a[5], '%s is %s without the lock' % (a[0].split('::')[-1], 'written' if a[2] else 'read'))
            else:
                rep.ok('lock')
    rec = lambda m: 'recursive' in json.dumps([p.tk(g['t']).s for fk, g in p.allfields(c['id']) if isinstance(m, V) and m.k == 'ptr' and m.a[0][-1] == fk])
    one = cond = None
    for f, pol, I, outs in runs.values():
        w = (f['file'], f['l'], strip(f['n']))
        n = f['sn']
        for u in I.ubs:
            if u[0] == 'empty':
                rep.bad('queue', u[1]['file'] if isinstance(u[1], dict) else f['file'], u[2], strip(f['n']), 'a task is taken from a queue that may be empty')
        mon = Lock(rep, rec, waited)
        mon.stops = n == 'Stop' or f.get('kind') == 'dtor'
        for s, fl in outs:
            if fl[0] != 'ret':
                rep.und('once', '%s throws' % n)
                continue
            ends = walk.run(mon, s)
            rels = [e for e in s.events if e.kind == 'rel']
            for held, pend, owed, noted, last in ends:
                if last and last[0] is None:
                    last = (pol.told(s, last[2]),) + last[1:]        # looked at after the lock was released
                if held:
                    rep.bad('unlocked', *w, msg='the lock is still held at the end', path=trace(s))
                else:
                    rep.ok('unlocked')
                if pend and not (last and last[0] in (False, 'asked')):
                    rep.bad('once', *w, msg='a task is taken from the queue and not run', path=trace(s))
                if owed:
                    rep.bad('wakes', *w, msg='%s without waking the threads that wait' % ('a task is posted' if owed == 'post' else 'the scheduler is stopped'), path=trace(s))
                if n == 'Run':
                    if last is not None and last[0] is False:
                        rep.ok('runs')
                    else:
                        rep.bad('runs', *w, msg='Run can return although the scheduler has not been stopped', path=trace(s))
                if n in ('ExecOne', 'PollOne') and fl[1] in (T, F):
                    took = any(e.kind == 'rel' and change(*e.args[:3]) and change(*e.args[:3])[0] for e, x, lp in all_events(s))
                    if fl[1] == T and not took:
                        rep.bad('runs', *w, msg='%s tells it has run a task although it has not' % n, path=trace(s))
                    elif fl[1] == F and took:
                        rep.bad('runs', *w, msg='%s tells it has run no task although it has' % n, path=trace(s))
                    elif fl[1] == F and not (last and (last[0] is False or (n == 'PollOne' and last[1] is True))):
                        rep.bad('runs', *w, msg='%s gives up although the scheduler has not been stopped%s' % (n, ' and a task may be queued' if n == 'PollOne' else ''), path=trace(s))
                    else:
                        rep.ok('runs')
            # a stop is final
            x = s.store.get(this + (flag,))
            if n == 'Stop':
                if any(r.res is False for r in rels):
                    rep.ok('stopped')
                else:
                    rep.bad('stopped', *w, msg='the scheduler is not stopped', path=trace(s))
            if n == 'Post':
                adds = [a for r in rels for ch in [change(*r.args[:3])] if ch for a in ch[1]]
                arg = V('fsym', ('init', ('o', ('arg', 0))))
                und = any(change(*r.args[:3]) is None for r in rels)
                empty = any(e.kind == 'assume' and e.name == 'nonempty' and e.res is False for e in s.events)
                if adds == [arg]:
                    rep.ok('posted')
                elif und or any(approx(a) for a in adds):
                    rep.und('posted', 'how the queue is changed is not known')
                elif not adds and (empty or any(r.res is False for r in rels)):
                    rep.ok('posted')
                elif len(adds) > 1:
                    rep.bad('posted', *w, msg='the task is queued more than once', path=trace(s))
                elif not adds:
                    rep.bad('posted', *w, msg='a posted task is not kept', path=trace(s))
                else:
                    rep.bad('posted', *w, msg='the task queued is not the one posted', path=trace(s))
        for e in pol.flagset:
            if n != 'Stop' and e[0] == runval:
                rep.bad('stopped', e[1], e[2], e[3], 'a stopped scheduler is made to run again')
        for li in I.loops:
            seen = lambda b, e: e.res if e.res is not None else pol.told(b.state, e.args[6])
            first = [([seen(b, e) for e in b.events if e.kind == 'rel'] + [None])[0] for b in li.backs]
            for b in li.backs:
                rs = [e for e in b.events if e.kind == 'rel']
                if n == 'Run' and rs:
                    if seen(b, rs[-1]) is False and not all(x is True for x in first):
                        rep.bad('runs', *w, msg='Run goes on after the scheduler has been stopped', path=[repr(e) for e in b.events][-12:])
                    else:
                        rep.ok('runs')
        one = one or mon.one
        cond = cond or mon.cond
    if one is not None and cond is not None:
        rep.bad('wakes', *at(cond), msg='a task is posted without a wake-up when others are queued, while a wake-up reaches one thread only')
    if not waited:
        rep.und('wait', 'nothing waits')


class SyncInterp(Interp):
    def __init__(self, p, pol):
        Interp.__init__(self, p, pol)
        pol.flagset = []

    def locking(self, st, kind, m, e):
        if kind == 'unlock':
            self.pol.note(self, st, 'rel', e)
        Interp.locking(self, st, kind, m, e)

    def put(self, st, loc, v):
        if loc == self.pol.this + (self.pol.flag,) and v in (T, F):
            f = self.curfn()
            self.pol.flagset.append((v, f['file'], f['l'], strip(f['n'])))
        ql = self.pol.this + (self.pol.q,)
        if loc[:len(ql)] == ql and ('env', 'q0') not in st.store and ql in st.store:
            # the queue as it was when the lock was taken
            st.store[('env', 'q0')] = st.store[ql]
        Interp.put(self, st, loc, v)
