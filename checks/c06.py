"""C06: navigation never leaves the menu tree."""
from .cmds import *
from .c01 import EXEC
from .c05 import Watch

META = {
    'technique': 'abstract interpretation of the traversals against a transition relation on the current menu; liveness-test dominance for the session\'s reference to it',
    'note': 'Menus of any depth, lines of any number of tokens, sessions in any state; a handler may change or destroy every menu except the session\'s own and the root. Trusts the clang front end, the extractor and the library models.',
    'explanation': 'On every abstract path of a menu being offered a line, the current menu of the session changes exactly when the line is one token that names the menu (or is the shortcut, for the enclosing one) and the menu '
                   'is enabled; further tokens go to that menu\'s commands. Every use of the current menu by the session is preceded, since anything that can run a handler, by a test that it is still alive; when it is not, the root menu is used.',
    'assumptions': [],
}
PARENT = '..'
SAYS = {'name': 'the menu named', 'parent': 'the enclosing menu'}
RESTS = {'rest of name': 'the name of a menu', 'rest of parent': 'the shortcut for the enclosing menu', 'rest of outer name': 'the name of the enclosing menu'}


def tok0(v):
    return tokindex(v) == 0


def litstr(v):
    """the text of a constant string"""
    if isinstance(v, V) and v.k == 'seq':
        out = ''
        for g in v.a[0]:
            if g[0] == 'l' and isinstance(g[1], str):
                out += g[1]
            else:
                return None
        return out
    return None


def nameof(R, v):
    if isinstance(v, V) and v.k == 'seq' and len(v.a[0]) == 1 and v.a[0][0][0] == 's':
        k = v.a[0][0][1].key
        if isinstance(k, tuple) and k[0] == 'init' and k[1][-1] == R.c_name:
            return k[1][:-1]
    return None


def compared(R, st):
    """{menu location or '..': True/False}: what the first token was compared with on this path"""
    out = {}
    for k, v in st.preds.items():
        if k[0] == 'seqeq' and (tok0(k[1]) or tok0(k[2])):
            o = k[2] if tok0(k[1]) else k[1]
            x = nameof(R, o)
            if x is None and repr(o) == '[".."]':
                x = PARENT
            if x is not None:
                out[x] = v
    return out


def check(rep, tier):
    p = prog()
    R = roles(p)
    rep.rule('enter', 'the current menu changes exactly when the line is one token naming an enabled menu, or the shortcut for the enclosing one')
    rep.rule('rest', 'a menu name followed by more tokens hands exactly those tokens to that menu and leaves the current menu alone')
    rep.rule('reachable', 'a menu can be entered by its name, and its enclosing menu by the shortcut')
    rep.rule('alive', 'the session uses its current menu only after a test that it still exists')
    rep.rule('root', 'when the current menu no longer exists the session continues from the root menu')
    rep.rule('set', 'setting the current menu remembers that menu and a reference that expires with it; a new session starts at the root')
    M = ('o', 'M')
    S = ('o', ('arg', 1))
    reached = {'name': False, 'parent': False, 'rest of name': False, 'rest of parent': False, 'rest of outer name': False}
    for name, X in (('Exec', M), ('ScanCmds', R.parent_loc(M))):
        f = fn(p, 'cli::Menu::' + name)
        st = State()
        st.dyn[M] = R.menu['id']
        st.dyn[R.parent_loc(M)] = R.menu['id']
        st.store[('o', ('arg', 0))] = p.tk(f['ps'][0]['t']).sub('to').mk('TOKENS')
        st.le.append(L(1) - L(tokbase().len))
        I, outs = runfn(rep, p, f, CmdPolicy(), st, M)
        for s, fl in outs:
            enter(rep, p, R, f, s, fl, M, X, S, reached)
    for k, v in reached.items():
        if v:
            rep.ok('reachable')
        else:
            f = fn(p, 'cli::Menu::Exec' if k in ('name', 'rest of name') else 'cli::Menu::ScanCmds')
            if k in SAYS:
                rep.bad('reachable', f['file'], f['l'], strip(f['n']), 'no path makes %s current' % SAYS[k])
            elif not any(o[2] for o in rep.obl.values()):
                rep.bad('rest', f['file'], f['l'], strip(f['n']), 'the tokens after %s are never handed to it' % RESTS[k])
            else:
                rep.und('rest', 'tokens after a name')
    setter(rep, p, R)
    session(rep, p, R)


def enter(rep, p, R, f, s, fl, M, X, S, reached):
    where = (f['file'], f['l'], strip(f['n']))
    if not fl or fl[0] != 'ret':
        return
    cmpd = compared(R, s)
    n1 = s.decide(cmp_('==', L(tokbase().len), L(1)))
    cur = s.store.get(S + (R.s_current,))
    changed = isinstance(cur, V) and not (cur.k == 'psym' and cur.a[0] == ('init', S + (R.s_current,)))
    calls = [(e, st) for e, st, _ in all_events(s) if e.kind in ('vcall', 'rec') and (e.name == EXEC or e.kind == 'rec')]
    ran = any(isinstance(e.res, tuple) and st.decide(e.res) is not False for e, st in calls)
    scan = X != M
    shifted = {tokslice(a) for e, st in calls for a in e.args[:1]}
    if changed:
        to = cur.a[0] if cur.k == 'ptr' else ('o', cur.a[0]) if cur.k == 'psym' else None
        on = s.store.get(X + (R.c_enabled,))
        named = cmpd.get(X) is True
        short = scan and cmpd.get(PARENT) is True
        okd = s.decide(fl[1]) if isinstance(fl[1], tuple) else None
        if to != X:
            rep.bad('enter', *where, msg='the menu made current is not the one named', path=trace(s))
        elif n1 is not True:
            rep.bad('enter', *where, msg='a menu is made current although more tokens follow its name', path=trace(s))
        elif not (named or short):
            rep.bad('enter', *where, msg='a menu is made current by a line that is neither its name nor the shortcut', path=trace(s))
        elif on is None or s.decide(on) is not True:
            rep.bad('enter', *where, msg='a menu is made current although it may be disabled', path=trace(s))
        elif okd is not True:
            rep.bad('enter', *where, msg='the line that made the menu current is not accepted', path=trace(s))
        else:
            rep.ok('enter')
            if short:
                reached['parent'] = True
            elif not scan:
                reached['name'] = True
        return
    # not entered: there must be a reason
    match = [k for k in ([X] + ([PARENT] if scan else [])) if cmpd.get(k) is True]
    if match and n1 is not False:
        rep.bad('enter', *where, msg='a line that is exactly the %s does not make the menu current' % ('shortcut' if PARENT in match else 'name of the menu'), path=trace(s))
        return
    if match:
        # the commands of the menu get the tokens after its name
        want = 1
        bad = [e for e, st in calls if R.menu_of(e.obj) and R.menu_of(e.obj)[0] == X and tokslice(e.args[0]) != want and not unknown_tokens(e.args[0])]
        if bad:
            rep.bad('rest', bad[0].file, bad[0].line, bad[0].fn, 'the commands of the menu do not get the tokens that follow its name', trace(s))
        elif not calls:
            rep.bad('rest', *where, msg='the tokens that follow the name of the menu are not handed to it', path=trace(s))
        else:
            rep.ok('rest')
            for k in match:
                reached['rest of parent' if k == PARENT else 'rest of outer name' if scan else 'rest of name'] = True
    else:
        rep.ok('enter')


def unknown_tokens(v):
    return not (isinstance(v, V) and v.k == 'seq' and any(g[0] == 's' and g[1].key == 'TOKENS' for g in v.a[0]))


def setter(rep, p, R):
    """after Current(m): current == m and a weak reference expires with m"""
    M = ('o', 'M')
    wf = weakfields(p, R)
    for f in [f for f in p.functions.values() if f.get('rec') == R.ses['id'] and f.get('body') is not None and f.get('kind') not in ('ctor', 'dtor') and len(f['ps']) == 1 and p.tk(f['ps'][0]['t']).k == 'ptr' and to_rec(p.tk(f['ps'][0]['t'])) == 'cli::Menu']:
        st = State()
        st.preds[('nonnull', psym(('init', M + (R.m_cmds,))))] = True
        I, outs = runfn(rep, p, f, Policy(), st, R.S, args=[ptr(M)])
        for s, fl in outs:
            where = (f['file'], f['l'], strip(f['n']))
            if s.store.get(R.S + (R.s_current,)) != ptr(M):
                rep.bad('set', *where, msg='the current menu is not remembered', path=trace(s))
                continue
            tie(rep, R, s, M, wf, where, R.S)
    for f in [f for f in p.functions.values() if f.get('rec') == R.ses['id'] and f.get('body') is not None and f.get('kind') == 'ctor' and len(f['ps']) >= 2]:
        st = State()
        st.store[R.CLI + (R.k_root,)] = ptr(('o', 'ROOT'))
        st.preds[('nonnull', psym(('init', ('o', 'ROOT', R.m_cmds))))] = True
        I, outs = runfn(rep, p, f, FeedPolicy(), st, R.S, args=[ptr(R.CLI), ptr(R.OUT)] + [L(sym('n', 0, None))] * (len(f['ps']) - 2))
        for s, fl in outs:
            where = (f['file'], f['l'], strip(f['n']))
            if fl and fl[0] == 'throw':
                continue
            c = s.store.get(R.S + (R.s_current,))
            if c is None:
                rep.und('set', 'current menu of a new session')
            elif c != ptr(('o', 'ROOT')):
                rep.bad('set', *where, msg='a new session does not start at the root menu', path=trace(s))
            else:
                tie(rep, R, s, ('o', 'ROOT'), wf, where, R.S, root=True)


def weakfields(p, R):
    return [fk for fk, f in p.allfields(R.ses['id']) if p.tk(f['t']).k == 'wptr']


def tie(rep, R, s, M, wf, where, S, root=False):
    w = [s.store.get(S + (fk,)) for fk in wf]
    w = [x for x in w if isinstance(x, V) and x.k == 'weak']
    if any(x.a[0] == psym(('init', M + (R.m_cmds,))) for x in w):
        rep.ok('set')
    elif root:
        # an expired or empty reference leads to the root menu as well
        rep.ok('set') if all(x.a[0].k == 'null' for x in w) else rep.und('set', 'reference of a new session')
    elif not wf or any(x.a[0].k == 'null' for x in w) or not w:
        rep.bad('set', *where, msg='nothing the session keeps expires with its current menu')
    else:
        other = [x for x in w if x.a[0].k == 'psym' and isinstance(x.a[0].a[0], tuple) and x.a[0].a[0][0] == 'init' and x.a[0].a[0][1][:len(M)] == M]
        if other:
            rep.und('set', 'the reference refers to another part of the menu')
        else:
            rep.bad('set', *where, msg='what the session tests does not expire with its current menu')


class Uses(CmdPolicy):
    watch = True
    handler_throws = ()

    def __init__(self, R, wf):
        CmdPolicy.__init__(self)
        self.R, self.wf = R, wf
        self.cur = ('o', ('init', R.S + (R.s_current,)))
        self.hits = {}

    def throws(self, ev):
        return ()

    def on_load(self, I, st, loc):
        R = self.R
        if loc[:2] == ('o', 'ROOT') and len(loc) > 2:
            I.note(st, 'use', 'root')
        elif loc[:2] == self.cur and len(loc) > 2:
            I.note(st, 'use', 'current')
            self.test(I, st)

    def test(self, I, st):
        for e in reversed(st.events):
            if e.kind == 'assume' and e.name == 'expired' and e.res in (False, ('F',)):
                w = e.args[0]
                if isinstance(w, V) and w.k == 'weak' and w.a[0].k == 'psym' and isinstance(w.a[0].a[0], tuple) and w.a[0].a[0][0] == 'init' and w.a[0].a[0][1][:-1] == self.R.S and w.a[0].a[0][1][-1] in self.wf:
                    self.hits[('ok', at_(I))] = None
                    return
            if runs(e, st):
                break
        self.hits[('bad', at_(I))] = st


def at_(I):
    f = I.stack[-1] if I.stack else None
    f = f[0] if isinstance(f, (tuple, list)) else f
    g = I.p.fn(f) if f is not None and not isinstance(f, dict) else f
    return (g['file'], g['l'], strip(g['n'])) if g else ('?', 0, '?')


def runs(e, st):
    """may the event have run a handler?"""
    if e.kind == 'vcall' and e.name == EXEC:
        return not (isinstance(e.res, tuple) and st.decide(e.res) is False)
    if e.kind == 'user':
        return True
    if e.kind == 'loop':
        for b in e.x.backs:
            for x in b.events:
                if runs(x, b.state):
                    return True
    return False


def some(s, v):
    """a result that may hold something"""
    return isinstance(v, V) and v.k == 'seq' and s.can(cmp_('>', seqlen(v.a[0]), L(0)))


def session(rep, p, R):
    wf = weakfields(p, R)
    n = 0
    for f in p.functions.values():
        if f.get('rec') != R.ses['id'] or f.get('body') is None or f.get('kind') in ('ctor', 'dtor') or f.get('static') or f.get('access') != 0 or not f.get('repo'):
            continue
        if any(p.tk(q['t']).k == 'ptr' and to_rec(p.tk(q['t'])) == 'cli::Menu' for q in f['ps']):
            continue
        st = R.session()
        st.preds[('nonnull', psym(('init', ('o', 'ROOT', R.m_cmds))))] = True
        if f['sn'] == 'Feed':
            st.store[('o', ('arg', 0))] = LINE
        pol = Uses(R, wf)
        I, outs = runfn(rep, p, f, pol, st, R.S)
        for (k, w), s in pol.hits.items():
            n += 1
            if k == 'ok':
                rep.ok('alive')
            else:
                rep.bad('alive', *w, msg='%s uses the current menu without a test, since a handler may last have run, that it still exists' % strip(f['n']), path=trace(s))
        for s, fl in outs:
            ex = None
            for e in s.events:
                if e.kind == 'assume' and e.name == 'expired':
                    ex = e.res in (True, ('T',))
            used = {n_[1] for n_ in s.notes if n_[0] == 'use'}
            if f['sn'] in ('Prompt', 'Help', 'GetCompletions') and not used and ex is None and not (fl and fl[0] == 'throw') and (
                    [e for e in s.events if e.kind == 'out' and e.obj == ptr(R.OUT)] or f['sn'] == 'GetCompletions' and fl and fl[0] == 'ret' and some(s, fl[1])):
                if approx(s):
                    rep.und('alive', '%s without the menus' % strip(f['n']))
                else:
                    rep.bad('alive', f['file'], f['l'], strip(f['n']), '%s shows something that is neither taken from a menu nor from one whose existence was tested' % f['sn'], path=trace(s))
            if ex is True:
                if 'root' in used:
                    rep.ok('root')
                elif fl and fl[0] == 'ret' and not any(runs(e, s) for e in s.events):
                    rep.bad('root', f['file'], f['l'], strip(f['n']), 'the current menu no longer exists and the root menu is not used', trace(s))
            elif ex is False:
                if 'root' in used and 'current' not in used:
                    rep.bad('root', f['file'], f['l'], strip(f['n']), 'the root menu is used although the current menu exists', trace(s))
                else:
                    rep.ok('root')
    if not n:
        raise Anchor('the session does not use its current menu')
