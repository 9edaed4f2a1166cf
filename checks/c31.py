"""C31: the asio scheduler manages exactly what it owns."""
from .lib import *

META = {
    'technique': 'ownership and typestate analysis: abstract execution of both constructors, then of every sequence of operations up to a fixpoint over the states of the object, then of the destructor from every reachable state; compile-time witnesses for copies',
    'note': 'Context and work guards are recognised by the classes of the network library, the members that hold them by what the constructors store.',
    'explanation': 'On every history of a scheduler: without a context it creates one and holds a work guard on it until it is stopped or destroyed, and its destructor destroys the context once, after the guard; on a context of the application nothing destroys it. '
                   'Stop stops the context on every path; Run, ExecOne, PollOne, Stopped, Post and AsioContext use that very context. The scheduler cannot be copied.',
    'assumptions': ['an executor without work tracking does not use its context when destroyed', 'memory is available'],
}
T0 = ('o', 'this')
CTX = ('o', 'ctx')
RUN = ('run', 'run_one', 'run_for', 'run_until', 'run_one_for', 'run_one_until')
POLL = ('poll', 'poll_one')
OPS = ('Run', 'ExecOne', 'PollOne', 'Stopped', 'Post', 'AsioContext', 'Stop')


def check(rep, tier):
    rep.rule('owns', 'without a context one is created, otherwise the given one is used')
    rep.rule('keeps', 'the context created is kept running until it is stopped')
    rep.rule('destroys', 'the context created is destroyed exactly once, by the destructor')
    rep.rule('borrowed', 'the context of the application is never destroyed')
    rep.rule('order', 'nothing uses the context once it is destroyed')
    rep.rule('stop', 'stopping always stops the context')
    rep.rule('same', 'running, polling, posting and queries are those of the same context')
    rep.rule('copies', 'a scheduler cannot be copied')
    for n in ('boost', 'standalone'):
        Check(rep, prog(n)).run()


def iscontext(name):
    return strip(name or '').rsplit('::', 1)[-1] in ('io_context', 'io_service')


def isguard(name):
    n = strip(name or '').rsplit('::', 1)[-1]
    return n in ('executor_work_guard', 'work')


class Life(walk.Monitor):
    """(released guards, destroyed objects, current values of the smart pointers, operations on contexts)"""
    init = (frozenset(), frozenset(), frozenset(), frozenset())

    def __init__(self, chk):
        self.c = chk

    def step(self, ms, ev, st):
        released, dead, held, ops = ms
        c = self.c
        if ev.kind == 'delete':
            return ((released, self.kill(ev.obj, released, dead, ev, st), held, ops),)
        if ev.kind == 'reset':
            # a smart pointer gives up what it holds
            loc = ev.obj.a[0] if isinstance(ev.obj, V) and ev.obj.k == 'ptr' else None
            old, new = (tuple(ev.args) + (None, None))[:2]
            if isinstance(old, V) and old.k == 'ptr' and loc in c.smart:
                dead = self.kill(old, released, dead, ev, st)
            held = frozenset(x for x in held if x[0] != loc) | {(loc, new)}
            return ((released, dead, held, ops),)
        if ev.kind == 'destroy':
            loc = ev.obj.a[0] if isinstance(ev.obj, V) and ev.obj.k == 'ptr' else None
            v = dict(held).get(loc, c.start.get(loc))
            if repr(loc) in c.guards:
                return ((released, self.kill(ev.obj, released, dead, ev, st), held, ops),)
            if repr(loc) in c.contexts:
                return ((released, self.kill(ev.obj, released, dead, ev, st), held, ops),)
            if isinstance(v, V) and v.k == 'ptr' and loc in c.smart:
                return ((released, self.kill(v, released, dead, ev, st), held, ops),)
            return (ms,)
        if ev.kind in ('ext', 'vcall'):
            sn = ev.name.rsplit('::', 1)[-1]
            for x in (ev.obj,) + tuple(ev.args or ()):
                if isinstance(x, V) and x.k == 'ptr' and repr(x.a[0]) in c.contexts:
                    if repr(x.a[0]) in dead:
                        c.bad('order', ev, 'the context is used after it was destroyed', st)
            if isinstance(ev.obj, V) and ev.obj.k == 'ptr':
                k = repr(ev.obj.a[0])
                if k in c.guards:
                    if sn == 'reset':
                        if k in dead:
                            c.bad('order', ev, 'a work guard is used after it was destroyed', st)
                        elif c.guards[k] in dead and k not in released:
                            c.bad('order', ev, 'the work guard releases the context after it was destroyed', st)
                        released = released | {k}
                elif k in c.contexts or iscontext(ev.name.rsplit('::', 1)[0]):
                    ops = ops | {(sn, k, repr(ev.res))}
            elif ev.obj is None:
                for x in ev.args or ():
                    d = c.derive(x, st)
                    if d is not None:
                        ops = ops | {(sn, d, '')}
        return ((released, dead, held, ops),)

    def kill(self, o, released, dead, ev, st):
        if not isinstance(o, V) or o.k != 'ptr':
            return dead
        k = repr(o.a[0])
        c = self.c
        if k in dead:
            if k in c.contexts or k in c.guards:
                c.bad('destroys', ev, 'the %s is destroyed twice' % ('context' if k in c.contexts else 'work guard'), st)
            return dead
        if k in c.guards and c.guards[k] in dead and k not in released:
            c.bad('order', ev, 'the work guard, which uses the context, is destroyed after it', st)
        if k in c.contexts and not c.owned:
            c.bad('borrowed', ev, 'the context of the application is destroyed', st)
        return dead | {k}


class Check(object):
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.reported = set()

    def bad(self, rule, ev, msg, st):
        if approx(st):
            self.rep.und(rule, msg + ', on an imprecise path')
            return
        self.failed = True
        k = (rule, msg, at(ev))
        if k not in self.reported:
            self.reported.add(k)
            self.rep.bad(rule, *at(ev), msg=msg, path=trace(st))

    def badf(self, rule, f, msg, st):
        if approx(st):
            self.rep.und(rule, msg + ', on an imprecise path')
            return
        k = (rule, msg, f['id'])
        if k not in self.reported:
            self.reported.add(k)
            self.rep.bad(rule, f['file'], f['l'], strip(f['n']), msg, trace(st))

    # -------------------------------------------------- what a value comes from
    def derive(self, v, st, depth=0):
        """the context (key) that an executor or a work guard was made of"""
        if depth > 8:
            return None
        if isinstance(v, tuple):
            v = ptr(v)
        if isinstance(v, V) and v.k == 'ptr':
            k = repr(v.a[0])
            if k in self.contexts:
                return k
            if k in self.guards:
                return self.guards[k]
            w = st.store.get(v.a[0])
            if w is None:
                return None
            return self.derive(w, st, depth + 1)
        if isinstance(v, V) and v.k == 'term':
            for e, s, lp in all_events(st):
                if e.res is not None and repr(e.res) == repr(v) or e.kind in ('ext', 'ctor') and len(v.a) > 1 and repr(v.a[1]) == repr(getattr(e, 'x', None)):
                    return self.origin(e, st, depth + 1)
            if v.a and isinstance(v.a[-1], tuple) and len(v.a[-1]) >= 3 and v.a[-1][0] == 'res':
                for e, s, lp in all_events(st):
                    if e.kind == 'ext' and e.name == v.a[-1][1]:
                        d = self.origin(e, st, depth + 1)
                        if d is not None:
                            return d
        return None

    def origin(self, e, st, depth):
        if e.kind == 'ext' and e.name.endswith('::get_executor') and isinstance(e.obj, V) and e.obj.k == 'ptr' and iscontext(e.name.rsplit('::', 1)[0]) and repr(e.obj.a[0]) not in self.contexts:
            return 'another context'
        for x in (e.obj,) + tuple(e.args or ()):
            if isinstance(x, (V, tuple)):
                d = self.derive(x, st, depth)
                if d is not None:
                    return d
        return None

    # -------------------------------------------------- histories
    def run(self):
        p, rep = self.p, self.rep
        cs = [f for f in p.functions.values() if f.get('kind') == 'ctor' and strip(f['n']).endswith('GenericAsioScheduler::GenericAsioScheduler') and f.get('body') is not None]
        cs = [f for f in cs if not f.get('copy') and not f.get('deleted') and len(f['ps']) <= 1]
        if not cs:
            raise Anchor('no constructor of the asio scheduler')
        self.rawdelete = False
        for c in cs:
            self.owned = not c['ps']
            self.mode(c)
        self.copies(cs[0])

    def method(self, rec, n):
        fs = [f for f in self.p.functions.values() if f.get('rec') == rec and f['sn'] == n and f.get('body') is not None]
        return fs[0] if fs else None

    def mode(self, c):
        p, rep = self.p, self.rep
        self.contexts, self.guards, self.smart, self.start = {}, {}, set(), {}
        if not self.owned:
            self.contexts[repr(CTX)] = True
        I, outs = runfn(rep, p, c, Policy(), State(), T0, [] if self.owned else [ptr(CTX)])
        for s, fl in outs:
            if fl[0] != 'ret':
                continue
            self.scan(c, s)
            if self.owned and not self.contexts:
                rep.und('owns', 'the context is created in a way not modelled')
                continue
            mine = [k for k in self.contexts]
            ms = self.advance(s, 0, Life.init)
            rep.ok('owns')
            for m in ms:
                self.history(c, s, m)

    def scan(self, c, s):
        """contexts and guards made by the constructor, and the members that own things"""
        p = self.p
        for e, st, lp in all_events(s):
            if e.kind == 'new' and iscontext(e.name) and isinstance(e.obj, V) and e.obj.k == 'ptr':
                if self.owned:
                    self.contexts[repr(e.obj.a[0])] = True
        for k, fd in p.allfields(c['rec']):
            tk = p.tk(fd['t'])
            loc = T0 + (k,)
            if tk.k == 'sptr' and ('unique_ptr' in tk.s or 'shared_ptr' in tk.s):
                self.smart.add(loc)
            if tk.rec is not None and iscontext(tk.s) and self.owned:
                self.contexts[repr(loc)] = True
        for e, st, lp in all_events(s):
            if e.kind == 'new' and isguard(e.name) and isinstance(e.obj, V) and e.obj.k == 'ptr':
                d = self.origin(e, s, 0)
                self.guards[repr(e.obj.a[0])] = d
        for k, fd in p.allfields(c['rec']):
            tk = p.tk(fd['t'])
            loc = T0 + (k,)
            if tk.rec is not None and isguard(tk.s):
                self.guards[repr(loc)] = self.derive(s.store.get(loc), s)
        self.start = dict(s.store)

    def advance(self, s, n, init):
        return walk.run_events(Life(self), s.events[n:], (init,), s)

    def alive(self, m):
        """guards that keep the context running"""
        released, dead = m[0], m[1]
        return [g for g, ctx in self.guards.items() if ctx in self.contexts and g not in released and g not in dead]

    def held(self, s):
        """objects the scheduler holds at the end"""
        return {repr(v.a[0]) for k, v in s.store.items() if k[:2] == T0 and isinstance(v, V) and v.k == 'ptr'} | {repr(k) for k in s.store if k[:2] == T0}

    def key(self, s, m):
        vals = tuple(sorted((repr(k), repr(v)) for k, v in s.store.items() if k[:2] == T0))
        return vals, m[0], m[1]

    def history(self, c, s, m):
        p, rep = self.p, self.rep
        w = c
        if self.owned:
            if m[1] & set(self.contexts):
                self.badf('owns', c, 'the context created is destroyed by the constructor', s)
                return
            al = [g for g in self.alive(m) if g in self.held(s)]
            odd = [e for e, st, lp in all_events(s) if e.kind == 'ext' and e.name.rsplit('::', 1)[-1] in ('require', 'prefer', 'on_work_started', 'query')]
            if al:
                rep.ok('keeps')
            elif odd or None in self.guards.values():
                rep.und('keeps', 'the context is kept running in a way not modelled')
            else:
                self.badf('keeps', c, 'nothing keeps the context created running while there is no work', s)
            if len([k for k in self.contexts]) != 1:
                self.badf('owns', c, 'more than one context is created', s)
        seen = set()
        work = [(s, (m[0], m[1], m[2], frozenset()), False)]
        n = 0
        while work and n < 60:
            s0, m0, stopped = work.pop()
            k = (self.key(s0, m0), stopped)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            self.start = dict(s0.store)
            for op in OPS:
                f = self.method(c['rec'], op)
                if f is None:
                    if op != 'Post':
                        rep.und('same', 'no operation %s' % op)
                    continue
                for s1, m1 in self.operation(f, op, s0, m0, stopped):
                    work.append((s1, (m1[0], m1[1], m1[2], frozenset()), stopped or op == 'Stop'))
            self.destruction(c, s0, m0)
        rep.sample('%s: %d states of the object' % (strip(c['n']), n))

    def operation(self, f, op, s0, m0, stopped):
        p, rep = self.p, self.rep
        st = s0.copy()
        n = len(st.events)
        args = [ptr(('o', 'task'))] if f['ps'] else []
        I, outs = runfn(rep, p, f, Policy(), st, T0, args)
        out = []
        for s, fl in outs:
            for m in self.advance(s, n, m0):
                out += [(s, m)] if fl[0] == 'ret' else []
                self.judge(f, op, s, fl, m0, m, stopped)
        return out

    def judge(self, f, op, s, fl, m0, m, stopped):
        rep = self.rep
        mine = set(self.contexts)
        ops = {(sn, k) for sn, k, r in m[3]}
        other = {(sn, k) for sn, k in ops if k not in mine}
        if other:
            self.badf('same', f, 'another context is used', s)
            return
        if m[1] & mine and not m0[1] & mine and self.owned:
            self.badf('destroys', f, 'the context is destroyed before the scheduler', s)
            return
        names = {sn for sn, k in ops}
        if self.owned and not stopped and op != 'Stop':
            if self.alive(m0) and not self.alive(m):
                self.badf('keeps', f, 'the context is no longer kept running after this operation, although it was not stopped', s)
            else:
                rep.ok('keeps')
        if op == 'Stop':
            if 'stop' in names:
                rep.ok('stop')
            else:
                self.badf('stop', f, 'the context is not stopped on this path', s)
            return
        if op in ('Run', 'ExecOne', 'PollOne'):
            good, wrong = (POLL, RUN) if op == 'PollOne' else (RUN, POLL)
            if names & set(good) and not (names & set(wrong)):
                rep.ok('same')
            elif names & set(wrong):
                self.badf('same', f, 'this operation %s' % ('blocks' if op == 'PollOne' else 'does not wait for work'), s)
            elif fl[0] == 'ret':
                self.badf('same', f, 'the context is not run on this path', s)
            if 'stop' in names or 'restart' in names and op == 'PollOne':
                self.badf('same', f, 'this operation stops the context', s) if 'stop' in names else None
        elif op == 'Stopped':
            rs = [r for sn, k, r in m[3] if sn == 'stopped']
            if rs and repr(fl[1]) in rs:
                rep.ok('same')
            elif rs and any(repr(neg(fl[1])) == r for r in rs):
                self.badf('same', f, 'the state of the context is reported inverted', s)
            elif rs:
                rep.und('same', 'the result of Stopped is not known')
            else:
                self.badf('same', f, 'the state reported is not that of the context', s)
        elif op == 'AsioContext':
            v = fl[1] if len(fl) > 1 else None
            k = repr(v.a[0]) if isinstance(v, V) and v.k == 'ptr' else repr(v)
            if k in mine:
                rep.ok('same')
            elif isinstance(v, tuple) or isinstance(v, V) and v.k == 'ptr':
                self.badf('same', f, 'the context given to the application is another one', s)
            else:
                rep.und('same', 'the context given to the application is not known')
        elif op == 'Post':
            if names & {'post', 'dispatch', 'defer'}:
                rep.ok('same')
            else:
                rep.und('same', 'tasks are posted in a way not modelled')

    def destruction(self, c, s0, m0):
        p, rep = self.p, self.rep
        r = p.rec(c['rec'])
        d = None
        for f in p.functions.values():
            if f.get('rec') == c['rec'] and f.get('kind') == 'dtor' and f.get('body') is not None:
                d = f
        if d is None:
            rep.und('destroys', 'the destructor is implicit')
            return
        st = s0.copy()
        n = len(st.events)
        self.failed = False
        I, outs = runfn(rep, p, d, Policy(), st, T0, [])
        mine = set(self.contexts)
        for s, fl in outs:
            for m in self.advance(s, n, m0):
                if any(e.kind == 'delete' and isinstance(e.obj, V) and e.obj.k == 'ptr' and repr(e.obj.a[0]) in mine for e, x, lp in all_events(s)):
                    self.rawdelete = True
                if self.owned:
                    if m[1] & mine:
                        rep.ok('destroys')
                    elif any(repr(k) in mine for k in s0.store if k[:2] == T0):
                        rep.ok('destroys')
                    else:
                        self.badf('destroys', d, 'the context created is never destroyed', s)
                elif not m[1] & mine:
                    rep.ok('borrowed')
                if not self.failed:
                    rep.ok('order')

    # -------------------------------------------------- copies
    def copies(self, c):
        p, rep = self.p, self.rep
        r = p.rec(c['rec'])
        own = [f for f in p.functions.values() if f.get('rec') == c['rec'] and not f.get('deleted') and not f.get('defaulted') and
               (f.get('copy') or f.get('kind') == 'ctor' and len(f['ps']) == 1 and p.tk(f['ps'][0]['t']).s.startswith(strip(r['n'])) or f['sn'] == 'operator=')]
        flav = p.name
        h, t = ('boostasioscheduler.h', 'BoostAsioScheduler') if flav == 'boost' else ('standaloneasioscheduler.h', 'StandaloneAsioScheduler')
        code = '#include <type_traits>\n#include <cli/%s>\nusing S = cli::%s;\n' % (h, t)
        for i, (tr, what) in enumerate((('is_copy_constructible', 'copied'), ('is_move_constructible', 'moved'), ('is_copy_assignable', 'assigned'), ('is_move_assignable', 'move-assigned'))):
            code += 'static_assert(!std::%s<S>::value, "WITNESS %d");\n' % (tr, i)
        rc, out = compile_check(code)
        hits = [what for i, what in enumerate(('copied', 'moved', 'assigned', 'move-assigned')) if 'WITNESS %d' % i in out]
        if rc == 0:
            rep.ok('copies', 4)
        elif not hits:
            rep.und('copies', 'the witness does not compile: ' + out[:200])
        elif own or not self.rawdelete:
            rep.und('copies', 'the scheduler can be %s' % hits[0])
        else:
            rep.bad('copies', r['file'], r['l'], strip(r['n']), 'a scheduler can be %s member by member: two of them destroy the same context' % ' and '.join(hits))
