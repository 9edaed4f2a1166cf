"""C19: the keyboard thread starts after and ends before everything it uses."""
from .kbd import *

META = {
    'technique': 'initialisation and destruction order against the set of members the thread function uses (effects of its abstract execution), lockset analysis of the members shared with it, typestate automata for wake-up, join, and saving and restoring the terminal mode',
    'note': 'The thread function is executed abstractly for every result of the system calls; the shared members take arbitrary values at every lock. Pairing of the two ends of the pipe is read off the constructor.',
    'explanation': 'Every member the thread uses is initialised before the event that starts it, and the thread is joined on every path of the destructor before any of them is destroyed; before the join the thread is woken from each of '
                   'its two waits (the flag is set and notified under the lock, the pipe it selects on is written or closed); it never blocks outside of these. Shared members are accessed under one lock.',
    'assumptions': ['the functions of the keyboard are called by one thread at a time'],
}
RULES = {'deactivated': 'the thread waits while the input is deactivated', 'wakeable': 'the thread never blocks where a stop request cannot wake it'}


class Wakes(Monitor):
    """a notification is owed once the flag has been set: (held, noted in this section, owed, last known flag)"""
    init = (frozenset(), False, False, None)

    def __init__(self, waited):
        self.waited = waited

    def step(self, ms, ev, st):
        held, noted, owed, last = ms
        if ev.kind == 'lock':
            held, noted = held | {ev.obj}, False
        elif ev.kind == 'unlock':
            held = held - {ev.obj}
        elif ev.kind == 'notify' and (not self.waited or ev.obj in self.waited):
            if held:
                noted = True
            owed = False
        elif ev.kind == 'rel':
            if ev.res is True:
                owed = not noted
            last = ev.res
        elif ev.kind == 'join':
            return ((held, noted, owed, (last, 'joined')),)
        return ((held, noted, owed, last),)


def check(rep, tier):
    p = prog()
    kb = keyboard(rep, p)
    rep.rule('started', 'the members the thread uses are initialised before it is started')
    rep.rule('joined', 'the thread is joined before the members it uses are destroyed')
    rep.rule('woken', 'before it is joined the thread is woken from each of its waits')
    rep.rule('lock', 'the members shared with the thread are accessed under one lock')
    rep.rule('wakes', 'activating wakes the thread')
    rep.rule('flag', 'activating and deactivating set the flag')
    rep.rule('mode', 'the terminal mode saved when activating is restored when deactivating and at destruction')
    for r, t in RULES.items():
        rep.rule(r, t)
    f, pol, I, outs = kb.thread
    w = (f['file'], f['l'], strip(f['n']))
    if kb.forever:
        rep.bad('woken', *w, msg='the thread never ends: it cannot be joined')
        return
    if not outs:
        parts(kb, Reading(rep, kb, RULES))
        return
    # what the thread does
    parts(kb, Reading(rep, kb, RULES))
    mon = Reading(rep, kb, RULES)
    waited, stopfds, stopped = set(), set(), False
    for s, fl in outs:
        for ms in walk.run(mon, s):
            stopped = stopped or ms[6] == 'a stop was requested'
        for e, x, lp in all_events(s):
            if e.kind == 'wait':
                waited.add(e.obj)
    mon.finish()
    stopfds = mon.stopfd
    used = {}
    for a in pol.accesses:
        used.setdefault(a[0][0], a)
    for s, fl in outs:
        for e, x, lp in all_events(s):
            o = e.obj.a[0] if isinstance(e.obj, V) and e.obj.k in ('ptr', 'psym') else e.obj
            if isinstance(o, tuple) and o[:2] == THIS and len(o) > 2:
                used.setdefault(o[2], (o[2:], None, None, None, e.file, e.line, e.fn))
    member = {fk: g for fk, g, tk in kb.fs}
    # started last
    c = kb.ctor
    pol, I, outs = kb.runs[c['id']]
    for s, fl in outs:
        if fl[0] == 'throw':
            continue
        evs = s.events
        sp = [i for i, e in enumerate(evs) if e.kind == 'spawn']
        if not sp:
            rep.und('started', 'a path starts no thread')
            continue
        inits = set(e.name for e in evs[:sp[0]] if e.kind == 'init')
        for fk in sorted(used):
            if fk not in member:
                continue
            if fk in inits or any(k[:3] == THIS + (fk,) for k in written_before(s, sp[0], pol)):
                rep.ok('started')
            else:
                rep.bad('started', *at(evs[sp[0]]), msg='the thread is started before %s, which it uses, is initialised' % fk.split('::')[-1], path=trace(s))
    # the pipe: which end wakes the one selected on
    pairs, wrong = {}, set()
    for s, fl in outs:
        vals = {k[2:]: v for k, v in s.store.items() if k[:2] == THIS and isinstance(v, Lin) and len(v.t) == 1 and v.t[0][0].key[0] == 'el'}
        for a, v in vals.items():
            for b, x in vals.items():
                k, m = v.t[0][0].key, x.t[0][0].key
                if k[1] == m[1] and k[2] == L(0) and m[2] == L(1):
                    pairs.setdefault(a, set()).add(b)
                    wrong.add(b)
    # destruction
    ds = [g for g in kb.outside() if g.get('kind') == 'dtor']
    if not ds:
        rep.bad('joined', c['file'], c['l'], KB, 'the keyboard has no destructor: its thread is not joined')
    for d in ds:
        wd = (d['file'], d['l'], strip(d['n']))
        pol, I, douts = kb.run(rep, d)
        for s, fl in douts:
            evs = s.events
            jn = [i for i, e in enumerate(evs) if e.kind == 'join']
            never = any(v is False and isinstance(k, tuple) and k[0] == 'joinable' for k, v in s.preds.items())
            if not jn:
                if never:
                    rep.ok('joined')
                else:
                    rep.bad('joined', *wd, msg='the thread is not joined', path=trace(s))
                continue
            for e in evs[:jn[0]]:
                if e.kind == 'destroy' and e.name in used:
                    rep.bad('joined', *at(e), msg='%s, which the thread uses, is destroyed before the thread is joined' % e.name.split('::')[-1], path=trace(s))
            rep.ok('joined')
            # woken from the wait for activation
            if waited:
                for held, noted, owed, last in walk.run(Wakes(waited), s):
                    if isinstance(last, tuple):
                        last = last[0]
                    if last is not True:
                        rep.bad('woken', *at(evs[jn[0]]), msg='the thread is joined although it may be waiting for the input to be activated', path=trace(s))
                    elif owed:
                        rep.bad('woken', *at(evs[jn[0]]), msg='the thread is joined without waking it from the wait for activation', path=trace(s))
                    else:
                        rep.ok('woken')
                held = [k for k in evs[:jn[0]] if k.kind == 'lock']
                if len(held) > len([k for k in evs[:jn[0]] if k.kind == 'unlock']):
                    rep.bad('woken', *at(evs[jn[0]]), msg='the thread is joined while the lock is held', path=trace(s))
            # woken from the wait for input
            ends = [kb.fd(e.args[0]) for e in evs[:jn[0]] if e.kind == 'ext' and e.name in ('write', 'close') and e.args]
            for r in sorted(stopfds):
                ws = pairs.get(r)
                if r in wrong:
                    rep.bad('woken', *w, msg='the thread waits on the end of the pipe that is written: it cannot be woken from the wait for input')
                elif not ws:
                    rep.und('woken', 'the other end of %s is not known' % r[-1])
                elif any(x in ws for x in ends):
                    rep.ok('woken')
                else:
                    rep.bad('woken', *at(evs[jn[0]]), msg='the thread is joined although it may be waiting for input', path=trace(s))
    if stopfds and not stopped:
        rep.bad('woken', *w, msg='the thread does not end when a stop is requested')
    # what a thread shares with the others
    shared = {}
    for a in kb.thread[1].accesses:
        shared.setdefault(a[0], []).append(('thread',) + a)
    for g in kb.outside():
        for a in kb.run(rep, g)[0].accesses:
            if a[3] == 'after' or (g.get('kind') == 'ctor' and a[3] == 'before'):
                continue
            shared.setdefault(a[0], []).append(('others',) + a)
    for loc, acc in sorted(shared.items(), key=repr):
        who = set(a[0] for a in acc)
        if len(who) < 2 or not any(a[3] for a in acc):
            continue
        tk = member.get(loc[0])
        common = None
        for a in acc:
            common = a[2] if common is None else common & a[2]
        if common:
            rep.ok('lock', len(acc))
            continue
        cnt = {}
        for a in acc:
            for m in a[2]:
                cnt[m] = cnt.get(m, 0) + 1
        m = max(cnt, key=lambda x: cnt[x]) if cnt else None
        for a in acc:
            if m is None or m not in a[2]:
                rep.bad('lock', a[5], a[6], a[7], '%s, shared with the keyboard thread, is %s without the lock' % (loc[-1].split('::')[-1], 'written' if a[3] else 'read'))
    # activating and deactivating
    saved = None
    for n, want in (('ActivateInput', True), ('DeactivateInput', False)):
        g = fn(p, KB + '::' + n)
        wg = (g['file'], g['l'], strip(g['n']))
        pol, I, gouts = kb.run(rep, g)
        for s, fl in gouts:
            for held, noted, owed, last in walk.run(Wakes(waited), s):
                if last is want:
                    rep.ok('flag')
                else:
                    rep.bad('flag', *wg, msg='the input is not %s' % ('activated' if want else 'deactivated'), path=trace(s))
                if want and waited:
                    if owed:
                        rep.bad('wakes', *wg, msg='the thread waiting for the activation is not woken up', path=trace(s))
                    else:
                        rep.ok('wakes')
    acts = [(c, kb.runs[c['id']][2]), (fn(p, KB + '::ActivateInput'), kb.run(rep, fn(p, KB + '::ActivateInput'))[2])]
    for g, gouts in acts:
        for s, fl in gouts:
            sv = saves(rep, s)
            if sv is not None:
                saved = sv
    back = [g for g in kb.outside() if g['sn'] == 'DeactivateInput' or g.get('kind') == 'dtor']
    for g in back:
        for s, fl in kb.run(rep, g)[2]:
            sets = [e for e in s.events if e.kind == 'ext' and e.name == 'tcsetattr']
            if saved is None:
                rep.und('mode', 'no saved mode')
            elif not sets:
                rep.bad('mode', g['file'], g['l'], strip(g['n']), 'the terminal mode is not restored', trace(s))
            else:
                a = sets[-1].args[-1]
                l = a.a[0] if isinstance(a, V) and a.k == 'ptr' else None
                if l == saved:
                    rep.ok('mode')
                elif l is not None and l[:2] == THIS:
                    rep.bad('mode', *at(sets[-1]), msg='the terminal mode set is not the one that was saved', path=trace(s))
                else:
                    rep.und('mode', 'the mode restored is a copy')


def written_before(s, i, pol):
    return ()


def saves(rep, s):
    """where the mode is saved: before another one is set, and not changed afterwards"""
    got = None
    for e in s.events:
        if e.kind == 'ext' and e.name == 'tcgetattr':
            a = e.args[-1]
            l = a.a[0] if isinstance(a, V) and a.k == 'ptr' else None
            if l is None or l[:2] != THIS:
                continue
            if got == 'set':
                rep.bad('mode', *at(e), msg='the terminal mode is saved after it was changed', path=trace(s))
            else:
                got = l
        elif e.kind == 'ext' and e.name == 'tcsetattr':
            a = e.args[-1]
            l = a.a[0] if isinstance(a, V) and a.k == 'ptr' else None
            if got is None:
                rep.bad('mode', *at(e), msg='the terminal mode is changed without having been saved', path=trace(s))
                got = 'set'
            elif l == got:
                rep.bad('mode', *at(e), msg='the saved terminal mode is modified and lost', path=trace(s))
            else:
                if any(k[:len(got)] == got and len(k) > len(got) for k in s.store if isinstance(got, tuple)):
                    rep.bad('mode', *at(e), msg='the saved terminal mode is modified', path=trace(s))
                rep.ok('mode')
        elif e.kind == 'ext' and isinstance(e.obj, V) and e.obj.k == 'ptr' and isinstance(got, tuple) and e.obj.a[0] == got and e.name.endswith('operator='):
            rep.bad('mode', *at(e), msg='the saved terminal mode is overwritten', path=trace(s))
    return got if isinstance(got, tuple) else None
