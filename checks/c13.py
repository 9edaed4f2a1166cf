"""C13: a session exchanges with the history storage exactly its own commands."""
from .hist import *
from .c11 import cursor, modes
from .c10 import loc, UB
from .roles import *
from . import callgraph

META = {
    'technique': 'effect of every history operation on the number of own entries, over the inferred invariant (abstract interpretation); trace rules on the session constructor and exit; call-graph query on the storage',
    'note': 'The own entries are the newest ones; the counter behind them is related to what every operation does with the entries. Trusts the clang front end, the extractor and the container models.',
    'explanation': 'Loading inserts every stored command once, in order, as the newest entry and none of them as own; entering a command makes one more entry own exactly when it is recorded; what is handed out is exactly the own '
                   'entries, oldest first, without the line being edited. The constructor loads exactly what the storage returned, the exit stores exactly what the history hands out, and nothing else reaches the storage.',
    'assumptions': ['counters do not wrap around (2^62 operations)'],
}


def check(rep, tier):
    p = prog()
    rep.rule('load', 'loading inserts each stored command once, oldest first, as the newest entry')
    rep.rule('own', 'an entry counts as own exactly when it was entered in this session')
    rep.rule('hand-out', 'exactly the own entries are handed out, oldest first, without the line being edited')
    rep.rule('start', 'a session loads exactly what the storage returns, once')
    rep.rule('exit', 'the exit stores exactly what the history hands out')
    rep.rule('only', 'nothing but the exit of a session stores commands, nothing in a session clears the storage')
    h = Hist(rep, p)
    h.solve()
    cur = cursor(h)
    q = Report('x', 'quick')
    nav, idle = modes(q, h, cur) if cur else (None, None)
    if nav is None:
        rep.und('own', 'navigation')
    else:
        own = owner(rep, h, cur)
        if own is None:
            rep.und('own', 'own entries')
        else:
            for o in h.runs:
                if o.name == 'GetCommands':
                    handout(rep, h, o, own, o.combo in nav)
                else:
                    counting(rep, h, o, own, nav)
    for o in h.runs:
        if o.name == 'LoadCommands':
            loading(rep, h, o)
    sessions(rep, p)


def owner(rep, h, cur):
    E = h.numbering()
    ids = {q for q, k in E(L(0)).t} if E else set()
    c = [l for l in h.ints if l != cur and list(h.sym(l).syms())[0] not in ids]
    return c[0] if len(c) == 1 else None


def mins(st, a, b):
    """[(state, min(a, b))]"""
    x, y = st.copy().split(cmp_('<=', a, b))
    return [(s, a) for s in x] + [(s, b) for s in y]


def shown(h, st, nav):
    c = h.combo(st)
    return None if c is None else (1 if c in nav else 0)


def counting(rep, h, o, own, nav):
    e0 = 1 if o.combo in nav else 0
    item = wholeseq(h.line)
    for s, fl in o.outs:
        if not fl or fl[0] == 'throw':
            continue
        if any(e.kind == 'loop' and h.buf in e.x.classes for e in s.events):
            if s.equal(s.store.get(own), h.sym(own)):
                rep.ok('own')
            else:
                rep.bad('own', *loc(o), msg='%s changes which entries are own' % o.name, path=trace(s))
            continue
        e1 = shown(h, s, nav)
        k2, n2 = s.store.get(own), h.vals(s)['n']
        if e1 is None or n2 is None or not isinstance(k2, Lin):
            rep.und('own', o.name)
            continue
        v = s.store.get(h.buf)
        pcs = h.pieces(v, s)
        front = bool(pcs) and pcs[0][1] == 'new' and pcs[0][2] == item
        for a, own0 in mins(s, h.sym(own), h.N - L(e0)):
            for b, own1 in mins(a, k2, n2 - L(e1)):
                if o.name == 'NewCommand':
                    want = own0 + L(1) if front else own0
                elif o.f in h.more and not o.f.get('const'):
                    # the newest entry is taken out
                    if not b.can(cmp_('<', n2, h.N)):
                        want = own0
                    else:
                        for c, w in mins(b, own0, L(1)):
                            done(rep, h, o, c, own1, own0 - w, n2 - L(e1))
                        continue
                else:
                    want = own0
                done(rep, h, o, b, own1, want, n2 - L(e1))


def done(rep, h, o, st, got, want, room):
    for x, w in mins(st, want, room):
        if x.equal(got, w):
            rep.ok('own')
        else:
            y = [z for z in x.copy().assume(cmp_('!=', got, w)) if h.small(z)]
            if y:
                rep.bad('own', *loc(o), msg='after %s another number of entries counts as own than were entered and are kept' % o.name, path=trace(y[0]))
            else:
                rep.und('own', o.name)


def handout(rep, h, o, own, navig):
    e = L(1 if navig else 0)
    J = L(sym(('pos',), 0, BIG))
    for kind, fn_, l, st, detail in o.I.ubs:
        if kind in UB and not any(q.kind == 'loop' for q in st.events) and h.small(st):
            rep.bad('hand-out', fn_['file'], l, strip(fn_['n']), 'more commands are handed out than the history has (%s)' % kind, trace(st))
    for s, fl in o.outs:
        if not fl or fl[0] == 'throw' or not isinstance(fl[1], V) or fl[1].k != 'seq':
            rep.und('hand-out', 'result')
            continue
        for a, cnt in mins(s, h.sym(own), h.N - e):
            n = seqlen(fl[1].a[0])
            if not a.equal(n, cnt):
                y = [z for z in a.copy().assume(cmp_('!=', n, cnt)) if h.small(z)]
                if y and not approx(n):
                    rep.bad('hand-out', *loc(o), msg='another number of commands is handed out than the own ones that are kept', path=trace(y[0]))
                else:
                    rep.und('hand-out', 'number')
                continue
            pos = L(0)
            for g in fl[1].a[0]:
                ln = seglen(g)
                for x in [y for z in a.copy().assume(cmp_('>=', J, pos)) for y in z.assume(cmp_('<', J, pos + ln))]:
                    if g[0] == 'v' and g[1] == h.base:
                        idx = L(g[3]) - L(1) - (J - pos)
                    elif g[0] == 's' and g[1] == h.base:
                        idx = L(g[2]) + (J - pos)
                    elif g[0] == 'e' and whole_el(g[1]) and whole_el(g[1])[0] == h.base:
                        idx = L(whole_el(g[1])[1])
                    elif g[0] == 'r':
                        rep.bad('hand-out', *loc(o), msg='empty commands are handed out', path=trace(x))
                        continue
                    else:
                        rep.und('hand-out', repr(g)[:80])
                        continue
                    want = e + cnt - L(1) - J
                    if x.equal(idx, want):
                        rep.ok('hand-out')
                    else:
                        y = [z for z in x.copy().assume(cmp_('!=', idx, want)) if h.small(z)]
                        if y:
                            rep.bad('hand-out', *loc(o), msg='the commands handed out are not the own ones, oldest first', path=trace(y[0]))
                        else:
                            rep.und('hand-out', 'order')
                pos = pos + ln


def loading(rep, h, o):
    cm = sbase('CMDS', h.eltk)
    M = h.sym(h.M)
    loops = [lp for lp in o.I.loops if h.buf in lp.classes]
    if len(loops) != 1:
        if not loops and all(s.store.get(h.buf) == wholeseq(h.base) for s, fl in o.outs):
            rep.bad('load', *loc(o), msg='the stored commands are not loaded')
        else:
            rep.und('load', '%d loops' % len(loops))
        return
    lp = loops[0]
    w = (lp.file, lp.line, strip(lp.fn))
    c = lp.classes[h.buf]
    if c[0] != 'hav':
        rep.und('load', 'loop')
        return
    hb = c[1].a[0][0][1]
    n = L(hb.len)
    for bk in lp.backs:
        for x in h.headinv(bk.state.copy(), lp, h.inv):
            v = x.store.get(h.buf)
            pcs = h.pieces(v, x, hb)
            ks = [whole_el(q[2]) for q in pcs if q[1] == 'new']
            if any(k is None or k[0] is not cm and k[0] != cm for k in ks):
                rep.und('load', 'entry loaded')
                continue
            if ks and not x.equal(L(ks[0][1]), L(lp.K)):
                d = L(ks[0][1]) - L(lp.K)
                if L(ks[0][1]).coef(lp.K) == -1:
                    rep.bad('load', *w, msg='the stored commands are loaded newest first', path=trace(x))
                elif d.is_const() and d.c > 0:
                    rep.bad('load', *w, msg='the oldest stored commands are not loaded', path=trace(x))
                else:
                    rep.und('load', 'order')
                continue
            room = x.decide(cmp_('<', n, M))
            if x.entails(cmp_('==', M, L(0))):
                rep.ok('load') if x.entails(cmp_('==', seqlen(v.a[0]), L(0))) else rep.und('load', 'size 0')
                continue
            if room is None and any(isinstance(k, tuple) and k[0] == 'seqeq' for k in x.preds) and not ks:
                rep.bad('load', *w, msg='a stored command is loaded or not depending on the other entries', path=trace(x))
                continue
            if room is None:
                rep.und('load', 'room')
                continue
            good = len(ks) == 1 and pcs[0][1] == 'new' and x.equal(seqlen(v.a[0]), n + L(1) if room else n) and \
                all(q[1] == 'new' or x.entails(cmp_('==', q[2], L(0))) or x.entails(cmp_('>=', q[2], q[3])) for q in pcs)
            if good:
                rep.ok('load')
            elif any(isinstance(k, tuple) and k[0] == 'seqeq' for k in x.preds):
                rep.bad('load', *w, msg='a stored command is loaded or not depending on the other entries', path=trace(x))
            else:
                rep.bad('load', *w, msg='a stored command is not loaded as the newest entry, dropping only the oldest one', path=trace(x))
    for s, fl in o.outs:
        if any(e.kind == 'loop' and e.x is lp for e in s.events):
            if s.entails(cmp_('>=', L(lp.K), L(cm.len))):
                rep.ok('load')
            else:
                rep.bad('load', *w, msg='the newest stored commands may not be loaded', path=trace(s))
        elif not s.entails(cmp_('==', L(cm.len), L(0))):
            y = [z for z in s.copy().assume(cmp_('>', L(cm.len), L(0))) if h.small(z)]
            if y and not s.entails(cmp_('==', M, L(0))):
                rep.bad('load', *loc(o), msg='the stored commands may not be loaded', path=trace(s))


STORE, CLEAR, READ = 'cli::HistoryStorage::Store', 'cli::HistoryStorage::Clear', 'cli::HistoryStorage::Commands'


def storagecall(e, what):
    return e.kind in ('vcall', 'ext') and e.name == what


def sessions(rep, p):
    R = roles(p)
    for f in fns(p, 'cli::CliSession::CliSession'):
        I, outs = runfn(rep, p, f, FeedPolicy(), State(), R.S)
        for s, fl in outs:
            if fl and fl[0] == 'throw':
                continue
            evs = [e for e, st, lp in all_events(s)]
            rd = [e for e in evs if storagecall(e, READ)]
            ld = [e for e in evs if e.kind == 'ext' and e.name == 'cli::detail::History::LoadCommands']
            w = (f['file'], f['l'], strip(f['n']))
            if len(ld) == 1 and len(rd) == 1 and ld[0].args[0] == rd[0].res and mine(R, ld[0]):
                rep.ok('start')
            elif not ld:
                rep.bad('start', *w, msg='a session does not load the stored commands', path=trace(s))
            elif len(ld) > 1:
                rep.bad('start', *w, msg='a session loads the stored commands %d times' % len(ld), path=trace(s))
            elif rd and bases(ld[0].args[0]) == bases(rd[0].res) or not rd or not bases(ld[0].args[0]):
                rep.bad('start', *at(ld[0]), msg='a session does not load exactly the commands of the storage', path=trace(s))
            else:
                rep.und('start', 'commands loaded')
            if any(storagecall(e, STORE) or storagecall(e, CLEAR) for e in evs):
                rep.bad('only', *w, msg='creating a session changes the storage', path=trace(s))
    ex = fn(p, 'cli::CliSession::Exit')
    I, outs = runfn(rep, p, ex, FeedPolicy(), R.session(), R.S)
    n = 0
    for s, fl in outs:
        if fl and fl[0] == 'throw':
            continue
        evs = [e for e, st, lp in all_events(s)]
        for e in evs:
            if storagecall(e, STORE):
                n += 1
                get = [g for g in evs if g.kind == 'ext' and g.name == 'cli::detail::History::GetCommands' and g.res == e.args[0] and mine(R, g)]
                if get:
                    rep.ok('exit')
                elif any(g.kind == 'ext' and g.name == 'cli::detail::History::GetCommands' for g in evs) and not (bases(e.args[0], True)):
                    rep.bad('exit', *at(e), msg='the exit stores something else than what the history hands out', path=trace(s))
                elif not any(g.kind == 'ext' and g.name == 'cli::detail::History::GetCommands' for g in evs):
                    rep.bad('exit', *at(e), msg='the exit does not store the commands of the session', path=trace(s))
                else:
                    g = [g for g in evs if g.kind == 'ext' and g.name == 'cli::detail::History::GetCommands'][-1]
                    a, b = e.args[0], g.res
                    if isinstance(a, V) and a.k == 'seq' and not approx(a) and (set(bases(a)) - set(bases(b)) and bases(b)):
                        rep.bad('exit', *at(e), msg='the exit stores more than what the history hands out', path=trace(s))
                    elif isinstance(a, V) and isinstance(b, V) and a.k == 'seq' and bases(a) == bases(b) and not approx(a) and s.can(cmp_('!=', seqlen(a.a[0]), seqlen(b.a[0]))):
                        rep.bad('exit', *at(e), msg='the exit stores only part of what the history hands out', path=trace(s))
                    else:
                        rep.und('exit', 'commands stored')
    if not n:
        rep.bad('exit', ex['file'], ex['l'], strip(ex['n']), 'the exit stores nothing')
    for what in (STORE, CLEAR):
        for path, f in callgraph.entries(p, what, ('cli::CliSession::Exit',)):
            if not callgraph.lib(f):
                continue
            if what == STORE and path[-1] == 'cli::CliSession::Exit':
                rep.ok('only')
            elif what == STORE or any(n.startswith(('cli::CliSession', 'cli::Menu', 'cli::CliLocal', 'cli::CliFile', 'cli::detail')) for n in path[1:]):
                rep.bad('only', f['file'], f['l'], strip(f['n']), 'the storage is changed by something else than the exit of a session (%s)' % ' <- '.join(path[:4]))
            else:
                rep.und('only', ' <- '.join(path))
    rep.ok('only')


def mine(R, e):
    return isinstance(e.obj, V) and e.obj.k == 'ptr' and e.obj.a[0] == R.S + (R.s_hist,)
