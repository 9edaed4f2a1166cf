"""C01: one entered line has exactly one outcome."""
from .roles import *

META = {
    'technique': 'abstract interpretation of CliSession::Feed and Menu::Exec with loop summaries, checked by a typestate monitor',
    'note': 'Every path of the dispatch, for any number of commands, menus and tokens, is enumerated over an abstract domain and judged; a report names the call. '
            'Trusts the clang front end, the extractor and the models of the standard library; paths the domain cannot decide are counted as undecided, not reported.',
    'explanation': 'Every abstract path of CliSession::Feed (session and menus arbitrary, split and the history replaced by their contracts) and of '
                   'Menu::Exec/ExecParent is checked by a monitor: who is offered the line, in which order, what happens after a command accepted, '
                   'and that the wrong-command handler is notified exactly when nobody accepted. Loops over the commands are summarised, so the '
                   'result holds for any number of commands and tokens and any depth of menus.',
    'assumptions': ['the session-wide menu has no parent and is enabled (checked on the constructor of the session)',
                    'what a command does when it accepts is covered by C03, the split by C07'],
}
EXEC = 'cli::Command::Exec'


def lintail(lin, c):
    return lin - L(c)


class Offers(Monitor):
    """acc: a command accepted; then nothing may be offered or reported any more"""

    def __init__(self, rep, R, LINEV, what):
        self.rep, self.R, self.line, self.what = rep, R, LINEV, what
        self.init = ('no', 0)
        self.nbad = 0

    def bad(self, ev, msg, st):
        self.rep.bad('one-outcome', ev.file, ev.line, ev.fn, msg, trace(st))
        self.nbad += 1

    def step(self, ms, ev, st):
        acc, wrong = ms
        if ev.kind in ('vcall', 'rec') and isoffer(ev, self.R):
            if acc == 'yes':
                self.bad(ev, 'the line is offered to another command after one accepted it', st)
                return ()
            if wrong:
                self.bad(ev, 'the line is offered to a command after it was reported as wrong', st)
                return ()
            d = st.decide(ev.res) if isinstance(ev.res, tuple) else None
            if d is True:
                return (('yes', wrong),)
            if d is False:
                return ((acc, wrong),)
            return (('yes', wrong), (acc, wrong))
        w = wrongevent(self.R, ev, self.line)
        if w:
            if acc == 'yes':
                self.bad(ev, 'the line is reported as wrong although a command accepted it', st)
                return ()
            if w == 2 and wrong == 2:
                self.bad(ev, 'the line is reported as wrong twice', st)
                return ()
            return ((acc, max(wrong, w)),)
        return (ms,)


def isoffer(ev, R):
    """the line (or what follows the name of a menu) is handed to a command"""
    if ev.kind == 'vcall':
        return ev.name == EXEC
    return ev.kind == 'rec' and any(isinstance(a, V) and a.k == 'seq' and a.a[0] and a.a[0][0][0] == 's' and a.a[0][0][1].key == 'TOKENS' for a in ev.args)


def wrongevent(R, ev, line):
    """2: the application's handler (or one whole default message) 1: a part of the default message"""
    if ev.kind == 'user' and isinstance(ev.obj, V) and ev.obj.k == 'fsym' and ev.obj.a[0] == ('init', R.CLI + (R.k_wrong,)):
        return 2
    if ev.kind == 'out' and ev.obj == ptr(R.OUT):
        return 2 if line in ev.args else 1
    return 0


def offers(st):
    return [(e, s, lp) for e, s, lp in all_events(st) if e.kind == 'vcall' and e.name == EXEC]


def check_order(rep, R, st, what):
    """insertion order; session-wide commands first; the tokens handed over"""
    seen = {}                # base -> constant offsets offered individually
    stage = -1
    for e, s, lp in offers(st):
        m = R.menu_of(e.obj)
        if m is None:
            rep.und('order', '%s: offer to an unrecognised command %r' % (e.fn, e.obj))
            continue
        menu, base, idx = m
        root, depth = R.depth(menu)
        rank = (0 if root == R.GM else 1, depth)
        n = tokslice(e.args[0]) if e.args else None
        if stage != -1 and rank < stage:
            rep.bad('order', e.file, e.line, e.fn, 'commands are tried in the wrong order (%s after %s)' % (rankname(rank), rankname(stage)), trace(st))
        stage = max(stage, rank) if stage != -1 else rank
        idx = L(idx)
        ks = [x for x, c in idx.t]
        if any(c < 0 for x, c in idx.t if x.key[0] == 'iter'):
            rep.bad('order', e.file, e.line, e.fn, 'the commands of a menu are not tried in insertion order', trace(st))
        elif lp is not None and len(ks) == 1 and idx.t[0][1] == 1:
            off = idx.c
            if any(i not in seen.get(base, ()) for i in range(off)):
                rep.bad('order', e.file, e.line, e.fn, 'the first command(s) of a menu are never offered the line', trace(st))
            else:
                rep.ok('order')
        elif not ks:
            seen.setdefault(base, set()).add(idx.c)
        if e.args:
            if n is None:
                rep.und('tokens', '%s:%s unrecognised tokens %r' % (e.fn, e.line, e.args[0]))
            else:
                rep.ok('tokens')


def rankname(r):
    return 'session-wide commands' if r[0] == 0 else 'current menu' if r[1] == 0 else 'enclosing menu %d' % r[1]


def scanned(R, st, menu):
    """True/False/None: every command of the menu was offered the line (events of the path), with the shift of the tokens"""
    length = None
    done = None
    shifts = set()
    frm = 0
    for ev in st.events:
        if ev.kind == 'loop':
            K = None
            for b in ev.x.backs:
                for e, s, lp in _events(b):
                    if e.kind == 'vcall' and e.name == EXEC:
                        m = R.menu_of(e.obj)
                        if m and m[0] == menu:
                            i = L(m[2])
                            length = L(m[1].len)
                            shifts.add(tokslice(e.args[0]))
                            if [c for x, c in i.t] == [1]:
                                K = i
            if K is not None:
                done = st.entails(cmp_('>=', K, length))
        elif ev.kind == 'vcall' and ev.name == EXEC:
            m = R.menu_of(ev.obj)
            if m and m[0] == menu:
                shifts.add(tokslice(ev.args[0]))
                length = L(m[1].len)
                i = L(m[2])
                if not i.t:
                    frm = max(frm, i.c + 1)
    if done is None and length is not None:
        done = st.entails(cmp_('<=', length, L(frm)))
    return done, shifts


def _events(b):
    from engine.walk import _flat
    return list(_flat(b.events, b.state))


def emptycmds(R, st, menu):
    """the menu is known to have no commands on this path"""
    pk = ('init', menu + (R.m_cmds,))
    b = sbase.__globals__['SBase']._last.get(('init', ('o', pk)))
    return b is not None and st.entails(cmp_('==', L(b.len), L(0)))


def enabled(R, st, menu):
    v = st.store.get(menu + (R.c_enabled,))
    if v is None:
        return None
    return st.decide(v)


def parent(R, st, menu):
    """NULL / location / None when unknown"""
    v = st.store.get(menu + (R.m_parent,))
    if v is None:
        return None
    if v == NULL:
        return NULL
    if v.k == 'psym':
        d = st.preds.get(('nonnull', v))
        if d is False:
            return NULL
        if d is True:
            return R.parent_loc(menu)
        return None
    return v.a[0] if v.k == 'ptr' else None


def refused(R, st, menu, shift, asparent, why, top=True):
    """did the menu get (and refuse) the tokens from `shift` on?  why: list of reasons for False"""
    en = enabled(R, st, menu)
    if en is False:
        return True
    if en is None:
        why.append('the commands of the %s are not tried' % rankname(rank(R, menu)))
        return False
    if asparent:
        mt = matches(R, st, menu, shift)
        if mt is False:
            return True
        if mt is None:
            return None
        shift += 1
    d, shifts = scanned(R, st, menu)
    if d is None:
        if emptycmds(R, st, menu):
            d = True
        else:
            why.append('the commands of the %s are not tried' % rankname(rank(R, menu)))
            return False
    if d is False:
        why.append('not all the commands of the %s are tried' % rankname(rank(R, menu)))
        return False
    if shifts - {shift, None}:
        why.append('the commands of the %s are offered the wrong tokens' % rankname(rank(R, menu)))
        return False
    par = parent(R, st, menu)
    if par is NULL:
        return True
    if par is None:
        why.append('the menu enclosing the %s is not tried' % rankname(rank(R, menu)))
        return False
    for e in st.events:
        if e.kind == 'rec' and e.obj == ptr(par):
            s = [tokslice(a) for a in e.args if tokslice(a) is not None]
            if s and s[0] != shift:
                why.append('an enclosing menu is offered the wrong tokens')
                return False
            return True
    return refused(R, st, par, shift, True, why)


def rank(R, menu):
    root, depth = R.depth(menu)
    return (0 if root == R.GM else 1, depth)


def matches(R, st, menu, shift):
    """does the token `shift` name the menu (or is it the parent shortcut) on this path?"""
    tk = ('el', tokbase(), shift)
    vals = []
    for k, v in st.preds.items():
        if k[0] == 'seqeq' and any(isinstance(a, V) and a.k == 'seq' and len(a.a[0]) == 1 and a.a[0][0][0] == 's' and _iselem(a.a[0][0][1].key, shift) for a in k[1:]):
            vals.append(v)
    if any(vals):
        return True
    return False if vals else None


def _iselem(key, n):
    return isinstance(key, tuple) and len(key) == 3 and key[0] == 'el' and getattr(key[1], 'key', None) == 'TOKENS' and key[2] == L(n) or \
        isinstance(key, tuple) and len(key) == 3 and key[0] == 'el' and getattr(key[1], 'key', None) == 'TOKENS' and key[2] == n


def current_roots(R, st):
    """the location of the current menu on this path, by what was tried"""
    for e, s, lp in all_events(st):
        m = R.menu_of(e.obj) if e.kind == 'vcall' and e.name == EXEC else None
        if m:
            root, d = R.depth(m[0])
            if root != R.GM:
                return root
    for k in st.store:
        if k[-1] == R.c_enabled and R.depth(k[:-1])[0] != R.GM:
            return R.depth(k[:-1])[0]
    return None


def accepted(states):
    """did something accept the line?  (from the final states of the monitor)"""
    a = set(m[0] for m in states)
    return True if a == {'yes'} else False if a == {'no'} else None


def check(rep, tier):
    p = prog()
    R = roles(p)
    rep.rule('one-outcome', 'after a command accepted, no other command is offered the line and it is not reported; it is reported at most once')
    rep.rule('order', 'commands are offered the line in insertion order, session-wide ones first, then the current menu, then the enclosing ones')
    rep.rule('tokens', 'every command is offered all the tokens (or, in a menu reached by name, those after the name)')
    rep.rule('exhaustive', 'when nobody accepted, every candidate has been offered the line')
    rep.rule('wrong-once', 'the wrong-command handler gets (stream, line) exactly once when nobody accepted')
    rep.rule('no-token', 'a line without tokens runs and reports nothing')
    rep.rule('setup', 'the session-wide menu of a session is enabled and has no parent')
    f, I, outs = feed(rep, p)
    fl = f['file'], f['l'], strip(f['n'])
    for st, flow in outs:
        if not flow or flow[0] != 'ret':
            continue
        mon = Offers(rep, R, LINE, 'Feed')
        from engine import walk
        fin = walk.run(mon, st)
        if not mon.nbad:
            rep.ok('one-outcome')
        check_order(rep, R, st, 'Feed')
        tb = tokbase()
        if st.entails(cmp_('==', L(tb.len), L(0))):
            evs = [e for e, s, lp in all_events(st) if e.kind in ('user', 'out', 'vcall', 'rec')]
            if evs:
                rep.bad('no-token', evs[0].file, evs[0].line, evs[0].fn, 'a line without tokens runs or reports something', trace(st))
            else:
                rep.ok('no-token')
            continue
        if mon.nbad:
            continue
        acc = accepted(fin)
        cur = [k for k, v in st.store.items() if k == R.S + (R.s_current,)]
        setcur = st.store.get(R.S + (R.s_current,))
        entered = isinstance(setcur, V) and setcur.k == 'ptr'
        wrongs = [e for e, s, lp in all_events(st) if wrongevent(R, e, LINE) == 2]
        if acc is False and not entered:
            # nobody accepted
            if not wrongs:
                rep.bad('wrong-once', *fl, 'a line nobody accepts is not reported', trace(st))
            elif len(wrongs) > 1:
                e = wrongs[1]
                rep.bad('wrong-once', e.file, e.line, e.fn, 'a line nobody accepts is reported more than once', trace(st))
            else:
                e = wrongs[0]
                if e.kind == 'user' and e.args != (ptr(R.OUT), LINE):
                    rep.bad('wrong-once', e.file, e.line, e.fn, 'the wrong-command handler is not given the stream and the line as entered', trace(st))
                else:
                    rep.ok('wrong-once')
            why = []
            root = current_roots(R, st)
            r = refused(R, st, R.GM, 0, False, why)
            if r and root is not None:
                r = refused(R, st, root, 0, False, why)
            elif r:
                why.append('the commands of the current menu are not tried')
                r = False
            if r is False:
                rep.bad('exhaustive', *fl, '; '.join(why) + ' although the line was not accepted', trace(st))
            elif r is None:
                rep.und('exhaustive', 'parent of unknown kind')
            else:
                rep.ok('exhaustive')
        elif acc is None:
            rep.und('wrong-once', 'a result is not examined')
        else:
            if wrongs:
                rep.bad('wrong-once', wrongs[0].file, wrongs[0].line, wrongs[0].fn, 'an accepted line is reported as wrong', trace(st))
            else:
                rep.ok('wrong-once')
        rep.sample(trace(st))
    check_menu(rep, p, R)
    check_setup(rep, p, R)


class MenuPolicy(FeedPolicy):
    opaque = FeedPolicy.opaque


def check_menu(rep, p, R):
    """a menu reached by name: accepts iff named, hands the rest over, first acceptance ends the search"""
    rep.rule('menu', 'a menu accepts exactly when it is named alone or one of its commands (or enclosing menus) accepts the rest')
    for f in [fn(p, 'cli::Menu::Exec')]:
        st = State()
        M = ('o', 'M')
        st.store[('o', ('arg', 0))] = p.tk(f['ps'][0]['t']).sub('to').mk('TOKENS')
        st.le.append(L(1) - L(tokbase().len))
        I, outs = runfn(rep, p, f, MenuPolicy(), st, M)
        for s, flow in outs:
            if not flow or flow[0] != 'ret':
                continue
            from engine import walk
            mon = Offers(rep, R, LINE, 'Menu::Exec')
            fin = walk.run(mon, s)
            if mon.nbad:
                continue
            check_order(rep, R, s, 'Menu::Exec')
            acc = accepted(fin)
            ret = s.decide(flow[1]) if isinstance(flow[1], tuple) else None
            want = None
            if acc is not False and acc is not None:
                want = True
            elif acc is False:
                ent = [k for k, v in s.store.items() if k[-1] == R.s_current and v == ptr(M)]
                want = bool(ent)
            if want is None or ret is None:
                rep.und('menu', 'undecided result')
            elif want != ret:
                rep.bad('menu', f['file'], f['l'], strip(f['n']), 'the menu %s a line that %s' % (('accepts', 'nobody accepted') if ret else ('refuses', 'was executed')), trace(s))
            else:
                rep.ok('menu')
            if acc is False and not ret:
                why = []
                r = refused(R, s, M, 0, True, why)
                if r is False:
                    rep.bad('exhaustive', f['file'], f['l'], strip(f['n']), '; '.join(why), trace(s))
                elif r:
                    rep.ok('exhaustive')


def check_setup(rep, p, R):
    """constructor: the session-wide menu is a menu of its own, enabled, without parent"""
    c = [f for f in p.functions.values() if f.get('kind') == 'ctor' and f.get('rec') == R.ses['id'] and f.get('body') is not None]
    if not c:
        raise Anchor('constructor of CliSession')
    st = State()
    I, outs = runfn(rep, p, c[0], FeedPolicy(), st, R.S)
    n = 0
    for s, flow in outs:
        if flow and flow[0] == 'throw':
            continue
        g = s.store.get(R.S + (R.s_global,))
        if not isinstance(g, V) or g.k != 'ptr':
            rep.und('setup', 'session-wide menu %r' % (g,))
            continue
        en, pa = s.store.get(g.a[0] + (R.c_enabled,)), s.store.get(g.a[0] + (R.m_parent,))
        if en == T and pa == NULL:
            rep.ok('setup')
        elif en is not None and s.decide(en) is False:
            rep.bad('setup', c[0]['file'], c[0]['l'], strip(c[0]['n']), 'the session-wide menu is disabled', trace(s))
        elif pa is not None and pa != NULL:
            rep.bad('setup', c[0]['file'], c[0]['l'], strip(c[0]['n']), 'the session-wide menu has a parent', trace(s))
        else:
            rep.und('setup', '%r %r' % (en, pa))
