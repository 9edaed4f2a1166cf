"""C16: a file session feeds every line once and always terminates."""
from .roles import *

META = {
    'technique': 'abstract interpretation of the constructor and of the loop of the file session over all paths, every result of the tests of the stream and every effect of a fed line; typestate automaton (enter, prompt, read, test, feed, exit) run to a fixpoint over the loop summary',
    'note': 'Whether an end of input, a failure or an exit was tested is read off the path condition. The contents of Enter, Prompt, Feed and Exit are C15 and C01.',
    'explanation': 'On every path the automaton requires: enter once and first; a prompt, an active session and a stream not already known to be exhausted before each read; every line read '
                   'either fed exactly once, unchanged, before the next read, or the input found to have ended; nothing fed after the exit; the session has exited when the loop is left; '
                   'every iteration reads or exits. The constructor only returns normally when both streams were found good.',
    'assumptions': ['the stream is not repaired by the commands', 'feeding an unterminated last line is not excluded'],
}
TAKES = ('get', 'ignore', 'read', 'readsome', 'getline', 'seekg')
BACK = ('putback', 'unget', 'seekg', 'tellg')
S_ = 'cli::CliSession::'
OPS = (S_ + 'Enter', S_ + 'Prompt', S_ + 'Feed', S_ + 'Exit')


class FilePolicy(FeedPolicy):
    def __init__(self, flags):
        FeedPolicy.__init__(self)
        self.flags = flags

    def hook(self, I, st, fr, name, e, obj, args):
        if name == OPS[1]:
            I.event(st, 'ext', name, None, (), VOID, e)
            return [(st, VOID)]
        if name in (OPS[0], OPS[2]):
            # the commands and actions of the user may exit
            v = tuple(I.argval(st, a, x) for a, x in zip(args, e['args']))
            I.event(st, 'ext', name, None, v, VOID, e)
            st2 = st.copy()
            for k in self.flags:
                if st.store.get(k) != self.flags[k]:
                    st.store[k] = self.flags[k]
                    st2.store[k] = T if self.flags[k] == F else F
            return [(st, VOID)] + ([(st2, VOID)] if st2.store != st.store else [])
        if name == OPS[3]:
            for k in self.flags:
                st.store[k] = self.flags[k]
            I.event(st, 'ext', name, None, (), VOID, e)
            return [(st, VOID)]
        if name == 'std::getline':
            I.event(st, 'active', None, None, (), self.active(I, st), e)
        return FeedPolicy.hook(self, I, st, fr, name, e, obj, args)

    def active(self, I, st):
        r = []
        for k, v in self.flags.items():
            x = st.store.get(k)
            if x is None:
                x = dict(I.p.allfields(roles(I.p).ses['id']))[k[-1]]
                x = I.p.tk(x['t']).mk(('init', k))
            if x in (T, F):
                r.append(x != v)
            else:
                d = st.decide(x) if isinstance(x, tuple) else None
                r.append(None if d is None else d != (v == T))
        return None if None in r or not r else all(r)


class Loop(Monitor):
    """state: entered, prompts, pending line, verdict on it (None/'more'/'end'), maybe exhausted, exited"""
    init = (False, 0, None, None, False, False)

    def __init__(self, rep, instream):
        self.rep, self.ins, self.reads, self.feeds = rep, instream, 0, 0
        self.other = 0
        self.back = False

    def bad(self, rule, ev, st, msg):
        self.rep.bad(rule, *at(ev), msg=msg, path=trace(st) if st is not None else ())

    def step(self, ms, ev, st):
        ent, pr, pend, ver, exh, ex = ms
        ok = self.rep.ok
        if ev.kind == 'ext' and ev.name == OPS[0]:
            if ent:
                self.bad('enter', ev, st, 'the enter actions run twice')
            else:
                ok('enter')
            ent = True
        elif ev.kind == 'ext' and ev.name == OPS[1]:
            if not ent:
                self.bad('enter', ev, st, 'a prompt is shown before the enter actions have run')
            if pr:
                self.bad('prompt', ev, st, 'the prompt is shown twice before a line')
            pr = 1
        elif ev.kind == 'getline':
            self.reads += 1
            if ev.obj != self.ins:
                if not approx(ev.obj):
                    self.bad('lines', ev, st, 'a line is read from another stream than the input of the session')
                return ()
            if not ent:
                self.bad('enter', ev, st, 'a line is read before the enter actions have run')
            if not pr:
                self.bad('prompt', ev, st, 'a line is read without a prompt')
            else:
                ok('prompt')
            if pend is not None and ver != 'end':
                self.bad('lines', ev, st, 'a line is read while the line before has not been fed: it is lost')
            if ver == 'end' or exh:
                self.bad('terminates', ev, st, 'the input is read again although it may have failed: the loop need not end')
            else:
                ok('terminates')
            pend, ver, pr, exh = ev.args[0], None, 0, True
        elif ev.obj == self.ins and (ev.kind == 'extract' or (ev.kind == 'manip' and ev.name == 'std::ws') or (ev.kind == 'ext' and ev.name and ev.name.split('::')[-1] in TAKES)):
            if self.back:
                self.rep.und('lines', 'characters are taken from the input and put back')
            else:
                self.bad('lines', ev, st, 'characters of the input are consumed outside of the lines read: they are not fed')
        elif ev.kind == 'active':
            if ev.res is True and not ex:
                ok('exited')
            else:
                self.bad('exited', ev, st, 'a line is read although the session may have exited')
        elif ev.kind == 'assume' and ev.args and ev.args[0] == self.ins and ev.name in ('eof', 'fail', 'bad'):
            if ev.res is False:
                if ev.name == 'fail':
                    exh = False
                if ver is None and ev.name != 'bad':
                    ver = 'more'
            elif ver != 'end':
                ver = 'end' if ver is None or ev.name != 'eof' else ver
                if ev.name == 'eof' and ver == 'end' and not exh:
                    ver = 'more'
        elif ev.kind == 'ext' and ev.name == OPS[2]:
            self.feeds += 1
            arg = ev.args[0] if ev.args else None
            if ex:
                self.bad('exited', ev, st, 'a line is fed although the session has exited')
            if pend is None:
                self.bad('lines', ev, st, 'a line is fed that was not read, or fed twice')
            elif arg != pend:
                if approx(arg):
                    self.rep.und('lines', 'the line fed is not known')
                else:
                    self.bad('lines', ev, st, 'the line fed is not the line read')
            elif ver is None:
                self.bad('lines', ev, st, 'what was read is fed without looking whether a line could be read')
            elif ver == 'end' and exh:
                self.bad('lines', ev, st, 'what was read is fed although the input had ended or failed')
            else:
                ok('lines')
            pend = None
            if ver == 'end':
                ver = 'end'
            else:
                ver = None
        elif ev.kind == 'ext' and ev.name == OPS[3]:
            if pend is not None and ver == 'more':
                self.bad('lines', ev, st, 'the session exits with a line read but not fed')
            elif pend is not None and ver is None:
                self.bad('lines', ev, st, 'the session exits without looking whether a line was read')
            ex = True
            pend = None
        return ((ent, pr, pend, ver, exh, ex),)


def type_name(p, t, d=0):
    if isinstance(t, int):
        t = p.types[t]
    if t['k'] in ('ref', 'ptr') and d < 3:
        return type_name(p, t['to'], d + 1)
    return p.rec(t['r'])['n'] if t['k'] == 'rec' and p.rec(t['r']) else ''


def exit_flags(rep, p, R):
    """{location: value} of what exiting changes in a session"""
    flags = {}
    f = fn(p, S_ + 'Exit')
    for s, fl in runfn(rep, p, f, FeedPolicy(), R.session(), R.S)[1]:
        for k, v in s.store.items():
            if k[:len(R.S)] == R.S and len(k) == len(R.S) + 1 and v in (T, F):
                flags.setdefault(k, set()).add(v)
    base = R.session()
    return {k: list(v)[0] for k, v in flags.items() if len(v) == 1 and k not in base.store}


def check(rep, tier):
    p = prog()
    R = roles(p)
    rep.rule('refuses', 'a session on an invalid stream is refused, and only then')
    rep.rule('enter', 'the enter actions run once, first')
    rep.rule('prompt', 'one prompt before each line')
    rep.rule('lines', 'every line read is fed once, unchanged, in order')
    rep.rule('exited', 'nothing is read or fed after the exit')
    rep.rule('terminates', 'every iteration reads from an input not known to be exhausted, or exits')
    rep.rule('exits', 'the session has exited when the loop is left')
    fs = recof(p, 'cli::CliFileSession')
    flags = exit_flags(rep, p, R)
    if not flags:
        raise Anchor('no flag tells that a session has exited')
    ins = [fk for fk, f in p.allfields(fs['id']) if f['n'] != 'out' and 'istream' in type_name(p, f['t'])]
    if len(ins) != 1:
        raise Anchor('no input stream in the file session')
    instream = ptr(('o', ('init', R.S + (ins[0],))))
    # refusing invalid streams
    for c in fns(p, 'cli::CliFileSession::CliFileSession'):
        w = (c['file'], c['l'], strip(c['n']))
        sa = [i for i, q in enumerate(c['ps']) if 'stream' in type_name(p, q['t'])]
        I, outs = runfn(rep, p, c, FeedPolicy(), State(), R.S)
        for s, fl in outs:
            conds = {}
            for e, x, lp in all_events(s):
                if e.kind == 'assume' and e.name in ('fail', 'eof', 'bad') and e.args:
                    conds.setdefault(e.args[0], {})[e.name] = e.res
            for i in sa:
                a = conds.get(ptr(('o', ('arg', i))), {})
                if fl[0] == 'ret' and a.get('fail') is not False:
                    rep.bad('refuses', *w, msg='a session is created on the stream of parameter %d without finding it valid' % (i + 1), path=trace(s))
                elif fl[0] == 'ret':
                    rep.ok('refuses')
            if fl[0] == 'throw' and not any(e.kind == 'ext' for e in s.events):
                if any(r is True for a in conds.values() for r in a.values()):
                    rep.ok('refuses')
                elif not conds:
                    rep.und('refuses', 'throws for another reason')
                else:
                    rep.bad('refuses', *w, msg='a session on valid streams is refused', path=trace(s))
    # the loop
    f = fn(p, 'cli::CliFileSession::Start')
    w = (f['file'], f['l'], strip(f['n']))
    pol = FilePolicy(flags)
    I, outs = runfn(rep, p, f, pol, R.session(), R.S)
    mon = Loop(rep, instream)
    mon.back = any(e.kind == 'ext' and e.name and e.name.split('::')[-1] in BACK for s, fl in outs for e, x, lp in all_events(s))
    for s, fl in outs:
        states = walk.run(mon, s)
        if fl[0] != 'ret':
            rep.und('exits', 'throws')
            continue
        for ent, pr, pend, ver, exh, ex in states:
            if not ent:
                rep.bad('enter', *w, msg='the enter actions do not run', path=trace(s))
            if pend is not None and ver != 'end':
                rep.bad('lines', *w, msg='the loop is left with a line read but not fed', path=trace(s))
        a = pol.active(I, s)
        if a is False:
            rep.ok('exits')
        else:
            rep.bad('exits', *w, msg='the loop can be left although the session has not exited', path=trace(s))
    if not mon.reads:
        rep.und('lines', 'no line is read with getline')
    elif not mon.feeds:
        rep.bad('lines', *w, msg='the lines read are never fed')
    # progress
    for li in loops(outs):
        rd = [(b, progress(b, flags)) for b in li.backs]
        if any(k for b, k in rd):
            for b, k in rd:
                if k:
                    rep.ok('terminates')
                else:
                    rep.bad('terminates', *w, msg='an iteration neither reads nor exits: the loop need not end', path=[repr(e) for e in b.events if e.kind != 'assume'][:20])
        elif any(e.kind == 'ext' and e.name in OPS for b in li.backs for e, x, lp in walk._flat(b.events, b.state)):
            rep.bad('terminates', *w, msg='a loop around the session neither reads nor exits')


def loops(outs):
    seen = []

    def go(events):
        for e in events:
            if e.kind == 'loop' and e.x not in seen:
                seen.append(e.x)
                for b in e.x.backs:
                    go(b.events)
    for s, fl in outs:
        go(s.events)
    return seen


def progress(b, flags):
    for e, x, lp in walk._flat(b.events, b.state):
        if e.kind in ('getline', 'extract') or (e.kind == 'ext' and e.name == OPS[3]):
            return True
    return False
