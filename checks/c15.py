"""C15: the exit of a session happens once and completely."""
from .roles import *
from .hist import writes
from . import callgraph

META = {
    'technique': 'abstract interpretation of exit, enter and prompt over all paths, chained (exit after exit, exit within an exit action, prompt after exit); event-order rules on the traces',
    'note': 'The sequence of user actions and of the storing is read off every abstract path. Which commands are stored is C13, that the end of the input exits too is C16 and C22. Trusts the clang front end, the extractor and the '
            'library models.',
    'explanation': 'From a session that has not exited every path of Exit runs the action of the session, then the one of the application, each with the stream of the session, skipping exactly the unset ones, and stores once. '
                   'Exit is then run again from every state it leaves and from every state in which an action is called (an action may exit again): no action and no storing is possible there, and Prompt prints nothing. '
                   'No function makes an exited session active again. Enter runs the two enter actions in order.',
    'assumptions': ['user actions do not throw'],
}
STORE = 'cli::HistoryStorage::Store'


class Snap(FeedPolicy):
    """remembers the state in which the user's code is called"""
    def __init__(self):
        FeedPolicy.__init__(self)
        self.snaps = []

    def on_event(self, I, st, ev):
        if ev.kind == 'user':
            self.snaps.append((ev, st.copy()))
        return [st]


def role(R, e):
    """which action a user call is"""
    if e.kind == 'user' and isinstance(e.obj, V) and e.obj.k == 'fsym':
        k = e.obj.a[0]
        if isinstance(k, tuple) and k[0] == 'init':
            if k[1] == R.S + (R.s_exit,):
                return 'session exit'
            if k[1] == R.CLI + (R.k_exit,):
                return 'application exit'
            if k[1] == R.S + (R.s_enter,):
                return 'session enter'
            if k[1] == R.CLI + (R.k_enter,):
                return 'application enter'
    if e.kind in ('vcall', 'ext') and e.name == STORE:
        return 'store'
    return None


def unset(R, s, loc):
    v = V('fsym', ('init', loc))
    return any(e.kind == 'assume' and e.name == 'nonempty' and e.args and e.args[0] == v and e.res is False for e in s.events) or s.preds.get(('nonempty', v)) is False


def acts(R, s, n0=0):
    return [(role(R, e), e) for e, st, lp in all_events(s)[n0:] if role(R, e)]


def check(rep, tier):
    p = prog()
    R = roles(p)
    rep.rule('order', 'the first exit runs the action of the session, then the one of the application, then stores, each once')
    rep.rule('stream', 'the actions get the stream of the session')
    rep.rule('once', 'no later exit, and no exit from within an action, runs anything again')
    rep.rule('prompt', 'no prompt is shown after the exit, and it is before')
    rep.rule('enter', 'entering runs the action of the application, then the one of the session, each once')
    rep.rule('final', 'nothing makes an exited session active again')
    rep.rule('command', 'the exit command exits the session')
    ex = fn(p, 'cli::CliSession::Exit')
    w = (ex['file'], ex['l'], strip(ex['n']))
    pol = Snap()
    I, outs = runfn(rep, p, ex, pol, R.session(), R.S)
    # the flags: what an exit that does something changes
    flags = {}
    first = [(s, fl) for s, fl in outs if acts(R, s)]
    for s, fl in first:
        for k, v in s.store.items():
            if k[:len(R.S)] == R.S and len(k) > len(R.S) and v in (T, F):
                flags.setdefault(k, set()).add(v)
    # a session that has not exited: as constructed
    fresh = {}
    for c in fns(p, 'cli::CliSession::CliSession'):
        for s, fl in runfn(rep, p, c, FeedPolicy(), State(), R.S)[1]:
            if fl[0] == 'throw':
                continue
            for k in flags:
                v = s.store.get(k)
                if v in (T, F):
                    fresh.setdefault(k, set()).add(v)
    st = R.session()
    for k, vs in fresh.items():
        if len(vs) == 1:
            st.store[k] = list(vs)[0]
    pol = Snap()
    I, outs = runfn(rep, p, ex, pol, st.copy(), R.S)
    bad = 0
    for s, fl in outs:
        bad += sequence(rep, R, w, s, fl, ('session exit', 'application exit', 'store'), 'order', (R.S + (R.s_exit,), R.CLI + (R.k_exit,), None))
    # exit again
    for what, states in (('a second exit', [s for s, fl in outs if fl[0] == 'ret']), ('an exit from within an exit action', [s for e, s in pol.snaps])):
        for s in states:
            n0 = len(all_events(s))
            for s2, fl in runfn(rep, p, ex, FeedPolicy(), s.copy(), R.S)[1]:
                a = acts(R, s2, n0)
                if a:
                    rep.bad('once', *at(a[0][1]), msg='%s runs the exit again' % what, path=trace(s2))
                else:
                    rep.ok('once')
    # the prompt
    pr = fn(p, 'cli::CliSession::Prompt')
    wp = (pr['file'], pr['l'], strip(pr['n']))
    for s in [s for s, fl in outs if fl[0] == 'ret']:
        n0 = len(all_events(s))
        for s2, fl in runfn(rep, p, pr, FeedPolicy(), s.copy(), R.S)[1]:
            o = [e for e, x, lp in all_events(s2)[n0:] if e.kind == 'out']
            if o:
                rep.bad('prompt', *at(o[0]), msg='a prompt is shown after the exit', path=trace(s2))
            else:
                rep.ok('prompt')
    for s, fl in runfn(rep, p, pr, FeedPolicy(), st.copy(), R.S)[1]:
        if any(e.kind == 'out' for e, x, lp in all_events(s)):
            rep.ok('prompt')
        else:
            rep.bad('prompt', *wp, msg='no prompt is shown although the session has not exited', path=trace(s))
    # entering
    en = fn(p, 'cli::CliSession::Enter')
    for s, fl in runfn(rep, p, en, FeedPolicy(), st.copy(), R.S)[1]:
        sequence(rep, R, (en['file'], en['l'], strip(en['n'])), s, fl, ('application enter', 'session enter'), 'enter', (R.CLI + (R.k_enter,), R.S + (R.s_enter,)))
    # nothing resets
    after = [s for s, fl in outs if fl[0] == 'ret'][:1]
    own = {k[len(R.S)] for k in fresh if len(k) == len(R.S) + 1}
    for f in list(p.functions.values()):
        if f.get('body') is None or not f.get('repo') or f.get('rec') is None or f is ex or f.get('kind') in ('ctor', 'dtor') or f['sn'] == 'operator=':
            continue
        if not after or R.ses['id'] not in [f['rec']] + list(p.bases(f['rec'])) or not any(writes(f['body'], name(k)) for k in own):
            continue
        r = State() if False else after[0].copy()
        for s2, fl in runfn(rep, p, f, FeedPolicy(), r, R.S)[1]:
            ks = [k for k in fresh if s2.store.get(k) != after[0].store.get(k)]
            if ks and any(s2.store.get(k) in fresh[k] for k in ks):
                rep.bad('final', f['file'], f['l'], strip(f['n']), 'an exited session becomes active again', trace(s2))
            elif ks:
                rep.und('final', strip(f['n']))
            else:
                rep.ok('final')
    rep.ok('final')
    # the exit command
    hit = 0
    clos = []
    for c in fns(p, 'cli::CliSession::CliSession'):
        for s, fl in runfn(rep, p, c, FeedPolicy(), State(), R.S)[1]:
            for k, v in s.store.items():
                if k[-1] == R.c_name and v == text('exit'):
                    for k2, v2 in s.store.items():
                        if k2[:len(k) - 1] == k[:-1] and isinstance(v2, V) and v2.k == 'clo' and (v2 not in clos):
                            clos.append(v2)
    for c in clos:
        r = runclo(rep, p, c, FeedPolicy(), st.copy())
        if r is None:
            continue
        f, I2, outs2 = r
        hit += 1
        for s, fl in outs2:
            if any(n == 'store' for n, e in acts(R, s)):
                rep.ok('command')
            else:
                rep.bad('command', f['file'], f['l'], strip(f['n']), 'the exit command does not exit the session', trace(s))
    if not hit:
        rep.und('command', 'no exit command found')


def name(k):
    return k.split('::')[-1] if isinstance(k, str) else k


def text(t):
    return V('seq', tuple(('e', L(ord(c))) for c in t))


def sequence(rep, R, w, s, fl, want, rule, locs):
    if fl[0] == 'throw':
        rep.und(rule, 'throws')
        return 0
    a = [(n, e) for n, e in acts(R, s)]
    need = [n for n, l in zip(want, locs) if l is None or not unset(R, s, l)]
    got = [n for n, e in a]
    streams = [e for n, e in a if e.kind == 'user' and not (e.args and isinstance(e.args[0], V) and e.args[0].k == 'ptr' and e.args[0].a[0] == R.OUT)]
    if streams:
        rep.bad('stream', *at(streams[0]), msg='an action gets another stream than the one of the session', path=trace(s))
    elif a:
        rep.ok('stream')
    if got == need:
        rep.ok(rule)
        return 0
    i = 0
    for n in want:
        if got.count(n) > 1:
            rep.bad(rule, *w, msg='%s: run %d times' % (n, got.count(n)), path=trace(s))
            return 1
        if n in need and n not in got:
            rep.bad(rule, *w, msg='%s: not run' % n, path=trace(s))
            return 1
    rep.bad(rule, *w, msg='run in the order %s' % ', '.join(got), path=trace(s))
    return 1
