"""C33: callbacks may be left unset; those that are set are called."""
from .roles import *
from .callgraph import calls, bodyof, lib
from . import c28

META = {
    'technique': 'guard analysis by abstract interpretation: every call of a registered function object on every path of the operations that reach it, with each callback unset, empty or set; dataflow of the registered object from the setter to the call',
    'note': 'The callbacks are the members that the public setters write; calls are found in the call graph, and a call in a function none of the operations analysed reaches is counted as undecided.',
    'explanation': 'On every path of entering and exiting a session, feeding a line, handling a key, running a task and serving a connection, no function object is called unless the path found it set; where it is found set it is called once and its default is not used, where it is found unset the default is. '
                   'Each setter stores what it is given, over what was there, also an empty one, and in a member of its own.',
    'assumptions': ['callbacks are not registered while they are being called'],
}
T0 = ('o', 'this')


def check(rep, tier):
    rep.rule('stored', 'a setter stores the callback it is given, empty or not, and nothing else')
    rep.rule('guarded', 'a callback is called on paths that found it set only')
    rep.rule('called', 'a callback that is set is called, once')
    rep.rule('default', 'the default applies when the callback is unset')
    p = prog()
    c = Check(rep, p)
    c.setters()
    c.session()
    c.lines()
    c.keys()
    c.tasks()
    c.covered()
    for n in ('boost', 'standalone'):
        c = Check(rep, prog(n))
        c.servers()
        c.covered(server=True)


class Check(object):
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.met = set()
        self.own = {}

    @property
    def R(self):
        return roles(self.p)

    # ------------------------------------------------------------ setters
    def functype(self, tk):
        if tk.k == 'ref':
            tk = tk.sub('to')
        return tk is not None and tk.k == 'func'

    def setters(self):
        p, rep = self.p, self.rep
        written = {}
        names = ['cli::Cli::EnterAction', 'cli::Cli::ExitAction', 'cli::Cli::StdExceptionHandler', 'cli::Cli::WrongCommandHandler', 'cli::CliSession::EnterAction', 'cli::CliSession::ExitAction']
        fs = [f for n in names for f in fns(p, n)]
        fs += [f for f in p.functions.values() if f.get('body') is not None and lib(f) and f['sn'] == 'Register' and strip(f['n']).endswith('InputDevice::Register')]
        self.setter_list(fs, written)

    def setter_list(self, fs, written):
        p, rep = self.p, self.rep
        for f in fs:
            if len(f['ps']) != 1 or not self.functype(p.tk(f['ps'][0]['t'])):
                continue
            new = V('fsym', 'NEW')
            I, outs = runfn(rep, p, f, Policy(), State(), T0, [new])
            loc = None
            for s, fl in outs:
                hit = [k for k, v in s.store.items() if k[:2] == T0 and v == new]
                wrap = [k for k, v in s.store.items() if k[:2] == T0 and isinstance(v, V) and v.k == 'clo' and any(c[2] == new for c in v.a[2])]
                if not hit and len(wrap) == 1:
                    self.wrapped(f, wrap[0])
                    continue
                if len(hit) != 1:
                    self.bad('stored', f, 'the callback is %s' % ('stored in several places' if hit else 'not stored'), s)
                    continue
                loc = hit[0]
                rep.ok('stored')
            if loc is None:
                continue
            o = written.setdefault(loc, strip(f['n']))
            if o != strip(f['n']):
                self.bad('stored', f, 'the callback replaces the one of %s' % o, outs[0][0])
                continue
            for what, v in (('an empty one', V('nofn')), ('another one', new)):
                st = State()
                st.store[loc] = V('fsym', 'OLD')
                try:
                    I, outs = runfn(rep, p, f, Policy(), st, T0, [v])
                except Exception as x:
                    rep.und('stored', str(x))
                    continue
                for s, fl in outs:
                    now = s.store.get(loc)
                    if now == v:
                        rep.ok('stored')
                    elif now == V('fsym', 'OLD'):
                        self.bad('stored', f, 'a callback set before is not replaced by %s' % what, s)
                    else:
                        rep.und('stored', 'after %s the callback is %r' % (what, now))

    def wrapped(self, f, loc):
        """a setter that stores a function around the callback: what of an empty callback?"""
        rep = self.rep
        I, outs = runfn(rep, self.p, f, Policy(), State(), T0, [V('nofn')])
        for s, fl in outs:
            v = s.store.get(loc)
            if v == V('nofn'):
                rep.ok('stored')
            elif isinstance(v, V) and v.k == 'clo':
                r = runclo(rep, self.p, v, Policy(), s.copy())
                if r is None:
                    rep.und('stored', 'a function around the callback is stored')
                elif any(u[0] == 'emptycall' for u in r[1].ubs):
                    self.bad('guarded', r[0], 'the function stored calls a callback that may be empty', s)
                elif f['sn'].endswith('Handler'):
                    self.bad('default', f, 'an empty callback is stored as one that is set', s)
                else:
                    rep.ok('stored')
            else:
                rep.und('stored', 'what is stored for an empty callback is not known')

    # ------------------------------------------------------------ judging
    def bad(self, rule, f, msg, st, ev=None):
        w = at(ev) if ev is not None else (f['file'], f['l'], strip(f['n']))
        if approx(st):
            self.rep.und(rule, msg)
            return
        self.rep.bad(rule, *w, msg=msg, path=trace(st))

    def empties(self, I):
        """calls of function objects that may be empty"""
        for kind, fr, line, st, d in I.ubs:
            if kind != 'emptycall':
                continue
            k = (fr['id'] if fr else None, line, repr(d))
            if k in self.own:
                continue
            self.own[k] = 1
            f = fr or {}
            if approx(st):
                self.rep.und('guarded', 'a call on an imprecise path')
                continue
            self.rep.bad('guarded', f.get('file'), line, strip(f.get('n', '')), 'a function object is called although it may be empty', trace(st))

    def note(self, I, outs):
        self.empties(I)
        for s, fl in outs:
            for e, st, lp in all_events(s):
                if e.kind == 'user':
                    self.met.add((e.file, e.line))
                    self.rep.ok('guarded')

    def isset(self, s, cb):
        v = s.preds.get(('nonempty', cb))
        return v

    def uses(self, s, n0, cb):
        return [(e, st, lp) for e, st, lp in all_events(s)[n0:] if e.kind == 'user' and e.obj == cb]

    def judge(self, f, s, fl, cb, what, must, n0=0, args=None):
        """the callback cb on one path; must: the event it is for happened on the path"""
        us = self.uses(s, n0, cb)
        d = self.isset(s, cb)
        if us:
            if len(us) > 1 or us[0][2] is not None:
                self.bad('called', f, 'the %s is called more than once' % what, s, us[-1][0])
            elif args is not None and not args(us[0][0].args):
                self.bad('called', f, 'the %s is called with something else' % what, s, us[0][0])
            else:
                self.rep.ok('called')
        elif must and d is not False and fl and fl[0] == 'ret':
            self.bad('called', f, 'the %s is not called although it %s set' % (what, 'is' if d else 'may be'), s)
        elif d is False:
            self.rep.ok('default')
        return us

    # ------------------------------------------------------------ sessions
    def session(self):
        p, rep, R = self.p, self.rep, self.R
        onstream = lambda a: a and a[0] == ptr(R.OUT)
        for name, fields_, whats in (('cli::CliSession::Enter', (R.CLI + (R.k_enter,), R.S + (R.s_enter,)), 'enter action'), ('cli::CliSession::Exit', (R.CLI + (R.k_exit,), R.S + (R.s_exit,)), 'exit action')):
            f = fn(p, name)
            st = R.session()
            for k, fd in p.allfields(R.ses['id']):
                tk = p.tk(fd['t'])
                if tk.k == 'bool':
                    st.store[R.S + (k,)] = F
            for l in fields_:
                st.store[l] = V('fsym', ('init', l))
            I, outs = runfn(rep, p, f, FeedPolicy(), st, R.S)
            self.note(I, outs)
            for s, fl in outs:
                if not fl or fl[0] != 'ret':
                    continue
                for l, who in zip(fields_, ('application', 'session')):
                    self.judge(f, s, fl, V('fsym', ('init', l)), '%s of the %s' % (whats, who), True, args=onstream)

    def lines(self):
        """the handlers of wrong commands and of exceptions"""
        p, rep, R = self.p, self.rep, self.R
        wrong, exc = V('fsym', ('init', R.CLI + (R.k_wrong,))), V('fsym', ('init', R.CLI + (R.k_exc,)))
        f, I, outs = feed(rep, p, ('std::runtime_error', 'other'))
        self.note(I, outs)
        for s, fl in outs:
            self.report(f, s, fl, wrong, 'wrong command handler')
            self.report(f, s, fl, exc, 'exception handler')
            self.judge(f, s, fl, wrong, 'wrong command handler', False)
            self.judge(f, s, fl, exc, 'exception handler', any(e.kind == 'throws' and e.name != 'other' for e, x, lp in all_events(s)))

    def report(self, f, s, fl, cb, what):
        """found set: called, nothing printed instead; found unset: something printed"""
        R = self.R
        d = self.isset(s, cb)
        us = self.uses(s, 0, cb)
        evs = [e for e, x, lp in all_events(s)]
        ix = next((i for i, e in enumerate(evs) if e.kind == 'assume' and e.name == 'nonempty' and e.args and e.args[0] == cb), None)
        after = []
        for e in evs[ix + 1:] if ix is not None else ():
            if e.kind == 'throws':
                break           # from here on an exception is reported
            if e.kind == 'out':
                after.append(e)
        if d is True:
            if not us and fl and fl[0] == 'ret':
                self.bad('called', f, 'the %s is set, but not called' % what, s)
            elif after:
                self.bad('default', f, 'the default message is printed although the %s is set' % what, s, after[0])
            else:
                self.rep.ok('called')
        elif d is False and fl and fl[0] == 'ret':
            if not after and ix is not None:
                self.bad('default', f, 'no default message is printed although no %s is set' % what, s)
            else:
                self.rep.ok('default')

    # ------------------------------------------------------------ keys
    def keys(self):
        p, rep = self.p, self.rep
        done = False
        for f in list(p.functions.values()):
            if f.get('body') is None or not lib(f) or not strip(f['n']).startswith('cli::detail::InputDevice::') or f.get('kind') in ('ctor', 'dtor') or f['sn'] == 'Register':
                continue
            hs = [T0 + (k,) for k, fd in p.allfields(f['rec']) if p.tk(fd['t']).k == 'func']
            st = State()
            for l in hs:
                st.store[l] = V('fsym', ('init', l))
            try:
                I, outs = runfn(rep, p, f, Policy(), st, T0)
            except Exception as x:
                rep.und('called', str(x))
                continue
            self.note(I, outs)
            for s, fl in outs:
                for e in [e for e in s.events if e.kind == 'vcall' and e.name.endswith('::Post')]:
                    cl = next((a for a in e.args if isinstance(a, V) and a.k == 'clo'), None)
                    if cl is None:
                        rep.und('called', 'a task posted is not known')
                        continue
                    s2 = s.copy()
                    n0 = len(all_events(s2))
                    r = runclo(rep, p, cl, Policy(), s2)
                    if r is None:
                        rep.und('called', 'a task posted is not known')
                        continue
                    g, I2, outs2 = r
                    self.note(I2, outs2)
                    done = True
                    for s3, fl3 in outs2:
                        gone = any(k[0] == 'expired' and v is True for k, v in s3.preds.items()) or any(k[0] == 'nonnull' and v is False for k, v in s3.preds.items())
                        for l in hs:
                            self.judge(g, s3, fl3, V('fsym', ('init', l)), 'key handler', not gone, n0)
        if not done:
            rep.und('called', 'the call of the key handler is not known')

    # ------------------------------------------------------------ tasks of the loop scheduler
    def tasks(self):
        p, rep = self.p, self.rep
        ls = recof(p, 'cli::LoopScheduler')
        for name in ('ExecOne', 'PollOne', 'Run'):
            for f in fns(p, 'cli::LoopScheduler::' + name):
                I, outs = runfn(rep, p, f, Policy(), State(), T0)
                self.note(I, outs)
                for s, fl in outs:
                    for k, v in s.preds.items():
                        if k[0] == 'nonempty' and v is True and isinstance(k[1], V) and k[1].k == 'fsym' and fl and fl[0] == 'ret':
                            self.judge(f, s, fl, k[1], 'task', True)
                    if name != 'Run' and fl and fl[0] == 'ret' and fl[1] == T:
                        # a task was taken from the queue
                        if not any(e.kind == 'user' for e, x, lp in all_events(s)) and not any(k[0] == 'nonempty' and v is False for k, v in s.preds.items()):
                            self.bad('called', f, 'the task taken from the queue may be set, and is not run', s)
        for f in fns(p, 'cli::LoopScheduler::Post'):
            for v in (V('fsym', 'TASK'), V('nofn')):
                try:
                    I, outs = runfn(rep, p, f, Policy(), State(), T0, [v])
                except Exception as x:
                    rep.und('stored', str(x))
                    continue
                self.empties(I)
                for s, fl in outs:
                    kept = any(isinstance(x, V) and x.k == 'seq' and any(g[0] == 'e' and g[1] == v for g in x.a[0]) for k, x in s.store.items() if k[:2] == T0)
                    if any(e.kind == 'user' for e in s.events):
                        self.bad('called', f, 'the task is run when it is posted', s)
                    elif kept or v.k == 'nofn':
                        rep.ok('stored')
                    elif fl and fl[0] == 'ret':
                        self.bad('stored', f, 'the task posted is not kept', s)

    # ------------------------------------------------------------ servers
    def servers(self):
        p, rep, R = self.p, self.rep, self.R
        found = False
        for r in list(p.records.values()):
            if not r.get('repo') or r.get('lam') or not strip(r['n']).endswith('CliGenericTelnetServer'):
                continue
            fs = {sn: [f for f in p.functions.values() if f.get('rec') == r['id'] and f['sn'] == sn and f.get('body') is not None] for sn in ('EnterAction', 'ExitAction')}
            if not fs['EnterAction'] or not fs['ExitAction']:
                continue
            written = {}
            self.setter_list(fs['EnterAction'] + fs['ExitAction'], written)
            locs = {n.rsplit('::', 1)[-1]: l for l, n in written.items()}
            if set(locs) != {'EnterAction', 'ExitAction'}:
                rep.und('called', 'the actions of the server are not known')
                continue
            for f in p.functions.values():
                if f.get('rec') != r['id'] or f.get('body') is None or not f.get('virt') or f.get('kind') in ('ctor', 'dtor'):
                    continue
                tk = p.tk(f['ret'])
                if tk.k != 'sptr':
                    continue
                found = True
                self.connection(f, locs)
        if not found:
            rep.und('called', 'how the server creates sessions is not known')

    def connection(self, f, locs):
        p, rep, R = self.p, self.rep, self.R
        st = State()
        cbs = {}
        for n, l in locs.items():
            cbs[n] = st.store[l] = V('fsym', ('init', l))
        for k, fd in p.allfields(f['rec']):
            tk = p.tk(fd['t'])
            if tk.k in ('ref', 'ptr') and to_rec(tk) == 'cli::Cli':
                st.store[T0 + (k,)] = ptr(R.CLI)
        I, outs = runfn(rep, p, f, Conn(), st, T0, maxsteps=300000)
        self.note(I, outs)
        for s, fl in outs:
            if not fl or fl[0] != 'ret' or not isinstance(fl[1], V) or fl[1].k != 'ptr':
                continue
            S = fl[1].a[0]
            if any(self.uses(s, 0, cb) for cb in cbs.values()):
                self.bad('called', f, 'an action of the server is run when the session is created', s)
            for name, which, what in (('cli::CliSession::Enter', 'EnterAction', 'enter action of the server'), ('cli::CliSession::Exit', 'ExitAction', 'exit action of the server')):
                g = fn(p, name)
                s2 = s.copy()
                n0 = len(all_events(s2))
                s2.dyn[S] = s.dyn.get(S, s2.dyn.get(S))
                if s2.dyn[S] is None:
                    del s2.dyn[S]
                I2, outs2 = runfn(rep, p, g, Conn(), s2, S, maxsteps=300000)
                self.note(I2, outs2)
                for s3, fl3 in outs2:
                    if not fl3 or fl3[0] != 'ret':
                        continue
                    self.judge(g, s3, fl3, cbs[which], what, True, n0)
                    other = cbs['ExitAction' if which == 'EnterAction' else 'EnterAction']
                    wr = self.uses(s3, n0, other)
                    if wr:
                        self.bad('called', g, 'the other action of the server is called', s3, wr[0][0])

    # ------------------------------------------------------------ coverage
    def covered(self, server=False):
        """calls of function objects in the library that no path analysed reached"""
        p, rep = self.p, self.rep
        miss = 0
        for f in p.functions.values():
            if f.get('body') is None or not f.get('repo') or not lib(f):
                continue
            here = 'genericasioremotecli' in f['file']
            if here != server:
                continue
            for c in calls(bodyof(f)):
                if c['k'] == 'mcall' and c.get('sn') == 'operator()' and c.get('cls') == 'std::function' and not any(x[1] == c['l'] and (x[0] or '').endswith(f['file'].split('/')[-1]) for x in self.met):
                    miss += 1
                    rep.und('guarded', 'no path analysed reaches the call in %s, line %d' % (strip(f['n']), c['l']))
        if not miss:
            rep.ok('guarded')


class Conn(c28.Net):
    def __init__(self):
        c28.Net.__init__(self, FeedPolicy.opaque)
