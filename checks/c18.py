"""C18: input reaches the session only through the scheduler."""
from .fsm import *

META = {
    'technique': 'effect analysis: the events reachable from every function that receives input (the keyboard thread, the telnet decoder) and from every Post, with the capture list and the abstract execution of the posted closure',
    'note': 'The asio libraries are recognised by the name of the function that queues a task (post, defer); dispatch may run it at once.',
    'explanation': 'Every function receiving input reaches nothing of the session but Scheduler::Post; each notification posts exactly one closure, which owns a copy of the key and gives exactly that key once to the handler when it is run. '
                   'No Post reaches a call of the task.',
    'assumptions': ['asio::post does not run the task before it returns'],
}
DEV = 'cli::detail::InputDevice'
QUEUES = ('post', 'defer')


class Written(Policy):
    watch = True

    def __init__(self):
        self.locs = set()

    def on_store(self, I, st, loc, v):
        if loc[:2] == THIS and len(loc) > 2:
            self.locs.add(loc)


def users(s):
    return [(e, x) for e, x, lp in all_events(s) if e.kind == 'user']


def notify(rep, p):
    """Notify posts one task that owns the key"""
    f = fn(p, DEV + '::Notify')
    w = (f['file'], f['l'], strip(f['n']))
    I, outs = runfn(rep, p, f, Policy(), State())
    for s, fl in outs:
        posts = [e for e, x, lp in all_events(s) if e.kind == 'vcall' and e.name == POST]
        for e, x in users(s):
            rep.bad('only', *at(e), msg='the handler is called where the key is received, not by a posted task', path=trace(s))
        if not users(s):
            rep.ok('only')
        if len(posts) != 1:
            if posts or not approx(s):
                rep.bad('once', *w, msg='%s for one key' % ('no task is posted' if not posts else '%d tasks are posted' % len(posts)), path=trace(s))
            continue
        rep.ok('once')
        clos = [a for a in posts[0].args if isinstance(a, V) and a.k == 'clo']
        g = p.fn(clos[0].a[0]) if clos and clos[0].a[0] is not None else None
        if g is None:
            rep.und('copy', 'the posted task is not known')
            continue
        ref = [c for c in clos[0].a[2] if c[1] != 'copy' and c[0] != 'this' and isinstance(c[2], tuple) and c[2][:1] == ('v',)]
        if ref:
            rep.bad('copy', *at(posts[0]), msg='the posted task refers to a local variable of the function that posts it', path=trace(s))
        else:
            rep.ok('copy')
        # run the task
        s0 = s.copy()
        s0.events = []
        # members may change before the task is run
        for k, v in list(s0.store.items()):
            if k[:2] == THIS and len(k) > 2 and isinstance(v, Lin) and not (v.single() is not None and v.single().key[:2] == ('init', k)):
                s0.store[k] = L(sym(('later', k), -2 ** 31, 2 ** 31))
        wpol = Written()
        J = Interp(p, wpol)
        ran = J.run(g, st=s0, clo=clos[0])
        rep.ran(J, ran)
        nuser = 0
        for s2, fl2 in ran:
            us = users(s2)
            if len(us) > 1:
                rep.bad('deliver', *at(us[1][0]), msg='the handler is called twice for one key', path=trace(s2))
            elif len(us) == 1:
                nuser += 1
                e, x = us[0]
                got = key(x, e.args[0]) if e.args else None
                want = keyof(f, s)
                if got is None or want is None:
                    rep.und('deliver', 'the key given to the handler is not known')
                elif got == want:
                    rep.ok('deliver')
                else:
                    rep.bad('deliver', *at(e), msg='the key given to the handler is not the one that was received', path=trace(s2))
        if not nuser:
            rep.bad('deliver', *w, msg='the posted task never calls the handler')
        for s2, fl2 in ran:
            if users(s2):
                continue
            if any(e.kind == 'assume' and (e.name, e.res) in (('expired', True), ('nonempty', False), ('nonnull', False)) for e, x, lp in all_events(s2)):
                rep.ok('deliver')
            else:
                rep.bad('deliver', *w, msg='the posted task drops the key', path=trace(s2))
        # the next key, after what this one left in the members
        before = {k: v for k, v in s0.store.items() if k[:2] == THIS}
        for s2, fl2 in ran:
            if not users(s2) or not any(k in wpol.locs and not isinstance(v, Lin) and v != before.get(k) for k, v in s2.store.items()):
                continue
            s3 = s2.copy()
            s3.events = []
            K = Interp(p, Policy())
            ran3 = K.run(g, st=s3, clo=clos[0])
            rep.ran(K, ran3)
            for s4, fl4 in ran3:
                if users(s4):
                    rep.ok('deliver')
                elif any(e.kind == 'assume' and (e.name, e.res) in (('expired', True), ('nonempty', False), ('nonnull', False)) for e, x, lp in all_events(s4)) or approx(s4):
                    rep.und('deliver', 'the key after another')
                else:
                    rep.bad('deliver', *w, msg='the posted task of one key makes that of the next one drop its key', path=trace(s4))


def key(st, v):
    if isinstance(v, V) and v.k == 'rec':
        r = v.a[0]
    elif isinstance(v, V) and v.k == 'ptr':
        r = v.a[0]
    else:
        return None
    a, b = st.store.get(r + ('pair::first',)), st.store.get(r + ('pair::second',))
    return (a, b) if a is not None and b is not None else None


def keyof(f, s):
    """the value of the parameter, or of its two halves"""
    for q in f['ps']:
        for l in s.store:
            if l[:1] == ('v',) and len(l) > 2 and l[2] == q['id']:
                r = l[:3]
                a, b = s.store.get(r + ('pair::first',)), s.store.get(r + ('pair::second',))
                if a is not None and b is not None:
                    return (a, b)
                v = s.store.get(r)
                if isinstance(v, V) and v.k in ('ptr', 'rec'):
                    return key(s, v)
    return None


class Delivered(Monitor):
    """first character of a sequence read and not delivered"""
    init = (0, False)

    def __init__(self, rep, kb):
        self.rep, self.kb = rep, kb

    def step(self, ms, ev, st):
        n, letter = ms
        if ev.kind == 'read' and ev.res == 'got':
            c = ev.args[1]
            if n == 0 and st is not None and isinstance(c, Lin):
                letter = st.can(cmp_('==', c, L(97))) or (st.entails(cmp_('>=', c, L(32))) and st.entails(cmp_('<=', c, L(126))))
            n = min(n + 1, 6)
        elif ev.kind == 'posted':
            n, letter = 0, False
            self.rep.ok('once')
        elif ev.kind in ('wait', 'waitpred', 'lock') and letter:
            self.rep.bad('once', *at(ev), msg='a key that was read is not posted', path=trace(st))
            letter = False
        return ((n, letter),)


def check(rep, tier):
    rep.rule('only', 'what receives input reaches the session only by Scheduler::Post')
    rep.rule('once', 'exactly one task is posted for each key')
    rep.rule('copy', 'the posted task owns its copy of the key')
    rep.rule('deliver', 'the posted task gives the key to the handler, once')
    rep.rule('later', 'no scheduler runs a task inside Post')
    p = prog()
    notify(rep, p)
    kb = keyboard(rep, p)
    f, pol, I, outs = kb.thread
    mon = Delivered(rep, kb)
    for s, fl in outs + kb.parts:
        walk.run(mon, s)
        for e, x, lp in all_events(s):
            if e.kind == 'user':
                rep.bad('only', *at(e), msg='the thread reading the keyboard calls a handler', path=trace(x))
            elif e.kind in ('out', 'flush', 'getline', 'extract'):
                rep.bad('only', *at(e), msg='the thread reading the keyboard uses a stream', path=trace(x))
            elif e.kind == 'vcall' and e.name != POST:
                rep.bad('only', *at(e), msg='the thread reading the keyboard calls %s' % e.name, path=trace(x))
            elif e.kind == 'posted':
                rep.ok('only')
    poster(rep, p, 'cli::LoopScheduler')
    for n in ('boost', 'standalone'):
        q = prog(n)
        poster(rep, q, 'cli::detail::GenericAsioScheduler')
        received(rep, q)


def poster(rep, p, cls):
    found = [f for f in p.functions.values() if f['sn'] == 'Post' and f.get('body') is not None and strip(f['n']).split('<')[0].startswith(cls)]
    for f in found:
        w = (f['file'], f['l'], strip(f['n']))
        I, outs = runfn(rep, p, f, Policy(), State())
        for s, fl in outs:
            if fl[0] == 'throw':
                continue
            us = users(s)
            for e, x in us:
                rep.bad('later', *at(e), msg='the task is run inside Post', path=trace(s))
            exts = [e for e, x, lp in all_events(s) if e.kind in ('ext', 'vcall')]
            for e in exts:
                rep.sample('%s: %s' % (w[2], e.name))
            if cls.endswith('AsioScheduler'):
                q = [e for e in exts if e.name and e.name.split('<')[0].split('::')[-1] in QUEUES]
                d = [e for e in exts if e.name and e.name.split('<')[0].split('::')[-1] == 'dispatch']
                if d:
                    rep.bad('later', *at(d[0]), msg='dispatch may run the task inside Post', path=trace(s))
                elif len(q) > 1:
                    rep.bad('once', *at(q[1]), msg='the task is queued twice', path=trace(s))
                elif not q and us:
                    pass
                elif not q and not approx(s) and not carried(f, s, exts):
                    rep.bad('once', *w, msg='the task is not queued', path=trace(s))
                elif not q:
                    rep.und('later', 'not known how the task is queued')
                else:
                    c = [a for a in q[0].args if isinstance(a, V) and a.k == 'clo']
                    ref = [x for a in c for x in a.a[2] if x[1] != 'copy' and x[0] != 'this' and isinstance(x[2], tuple)]
                    if ref:
                        rep.bad('copy', *at(q[0]), msg='the queued task refers to the argument of Post', path=trace(s))
                    rep.ok('later')
            elif not us:
                rep.ok('later')
    if not found:
        rep.und('later', 'no %s::Post' % cls)


def carried(f, s, exts):
    """the task is given to something or stored"""
    task = [v for k, v in s.store.items() if k[:1] == ('v',) and len(k) == 3 and k[2] in [q['id'] for q in f['ps']]]
    for e in exts:
        for a in e.args:
            if isinstance(a, V) and (a in task or a.k in ('clo', 'fsym', 'term') or (a.k == 'ptr' and a.a[0][:1] != ('g',))):
                return True
    return any(k[:2] == THIS and (v in task or isinstance(v, V) and v.k in ('fsym', 'clo')) for k, v in s.store.items())


def received(rep, p):
    t = telnet(rep, p)
    w = (t.f['file'], t.f['l'], strip(t.f['n']))
    if t.why:
        rep.und('only', t.why)
    for s in t.order:
        for u in t.states[s]:
            ks = [o for o in u.out if o[0] == 'key']
            if len(ks) > 1:
                rep.bad('once', *at(ks[1][-1]), msg='one byte received posts %d tasks' % len(ks), path=trace(u.st))
            elif ks:
                rep.ok('once')
            for o in u.out:
                if o[0] != 'other':
                    continue
                e = o[1]
                if e.kind == 'user':
                    rep.bad('only', *at(e), msg='a handler is called where the data is received', path=trace(u.st))
                elif e.kind in ('getline', 'extract'):
                    rep.bad('only', *at(e), msg='a stream is read where the data is received', path=trace(u.st))
                elif e.kind in ('vcall', 'ext', 'rec') and e.name and 'History' in e.name or e.kind == 'vcall' and e.name.split('::')[-1] in ('Exec', 'ExecOne', 'PollOne'):
                    rep.bad('only', *at(e), msg='%s is called where the data is received' % e.name, path=trace(u.st))
                else:
                    rep.und('only', '%s %s' % (e.kind, e.name))
            if not any(o[0] == 'other' for o in u.out):
                rep.ok('only')
