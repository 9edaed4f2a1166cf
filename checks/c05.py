"""C05: handles to commands are safe, and remove exactly one command."""
from .cmds import *
from .c01 import EXEC

META = {
    'technique': 'ownership typing of the handle, plus abstract interpretation of its operations and of the traversals that run handlers',
    'note': 'Ownership is read off the types of all the fields reachable from a handle; the operations of a handle are analysed for every combination of expired and live references; the traversals for any menu, with a handler '
            'that may change or destroy every menu it is called from. Trusts the clang front end, the extractor and the library models.',
    'explanation': 'A handle owns neither command nor menu; no operation dereferences an expired reference; a live one reaches exactly its command; removal erases exactly the element that is the command; while a command '
                   'executes a local variable owns it, and after it may have run its handler no field of the menu is read again.',
    'assumptions': [],
}


def owns(p, tk, seen, path):
    """the owning path from a handle to a command, if there is one"""
    if tk is None:
        return None
    if tk.k == 'seq' or (tk.k == 'rec' and tk.base == 'std::pair'):
        return owns(p, tk.sub('elem'), seen, path + ' element') if tk.k == 'seq' else None
    if tk.k == 'sptr':
        to = tk.sub('to')
        if to is None:
            return None
        if to.k == 'rec' and p.rec(to.rec) is not None and iscmd(p, p.rec(to.rec)):
            return path
        return owns(p, to, seen, path + ' ->')
    if tk.k == 'rec':
        r = p.rec(tk.rec)
        if r is None or r['id'] in seen:
            return None
        seen.add(r['id'])
        if iscmd(p, r):
            return path
        for fk, f in p.allfields(r['id']):
            o = owns(p, p.tk(f['t']), seen, path + ' ' + f['n'])
            if o:
                return o
    return None


def iscmd(p, r):
    c = recof(p, 'cli::Command')
    return r['id'] == c['id'] or c['id'] in list(p.bases(r['id']))


def weaks(p, tk, seen, cmd, vec):
    """field keys of the weak references to a command and to a vector of commands reachable from a handle"""
    if tk is None:
        return
    if tk.k in ('sptr', 'rec'):
        if tk.k == 'sptr':
            return weaks(p, tk.sub('to'), seen, cmd, vec)
        r = p.rec(tk.rec)
        if r is None or r['id'] in seen:
            return
        seen.add(r['id'])
        for fk, f in p.allfields(r['id']):
            t = p.tk(f['t'])
            if t.k == 'wptr':
                to = t.sub('to')
                if to is not None and to.k == 'seq':
                    vec.append(fk)
                else:
                    cmd.append(fk)
            else:
                weaks(p, t, seen, cmd, vec)


def nonull(rep, I, f):
    for kind, fn_, line, st, what in I.ubs:
        if kind in ('null', 'erase', 'deref', 'bounds'):
            rep.bad('safe', fn_['file'], line, strip(fn_['n']), 'a null or expired reference, or an invalid iterator, is used', trace(st))
            return
    rep.ok('safe')


def check(rep, tier):
    p = prog()
    R = roles(p)
    H = recof(p, 'cli::CmdHandler')
    rep.rule('weak', 'a handle owns neither the command nor the menu')
    rep.rule('safe', 'no operation of a handle dereferences an expired or null reference or an invalid iterator')
    rep.rule('exact', 'enabling, disabling and removing reach exactly the command of the handle when it is alive, and nothing otherwise')
    rep.rule('returned', 'inserting returns a handle to the command inserted, in the menu it was inserted in')
    rep.rule('alive', 'a command is owned by a local variable while it executes')
    rep.rule('after', 'after a command may have run its handler, the menu is not read again')
    o = owns(p, p.tk(next(i for i, t in enumerate(p.types) if t['k'] == 'rec' and t.get('r') == H['id'])), set(), 'CmdHandler')
    if o:
        rep.bad('weak', H['file'], H['l'], 'cli::CmdHandler', 'the handle owns a command: ' + o)
    else:
        rep.ok('weak')
    cmd, vec = [], []
    weaks(p, p.tk(next(i for i, t in enumerate(p.types) if t['k'] == 'rec' and t.get('r') == H['id'])), set(), cmd, vec)
    operations(rep, p, R, cmd, vec)
    inserts(rep, p, R, cmd, vec)
    traversals(rep, p, R)


def target(st, fk):
    """psym of what the weak field of the handle refers to, and whether it is expired on this path (True/False/None)"""
    t, ex = None, None
    for k, v in st.preds.items():
        if k[0] == 'expired' and isinstance(k[1], V) and k[1].k == 'weak' and isinstance(k[1].a[0], V) and k[1].a[0].k == 'psym':
            key = k[1].a[0].a[0]
            if isinstance(key, tuple) and key[0] == 'init' and key[1][-1] in fk:
                t, ex = k[1].a[0], v
    return t, ex


def operations(rep, p, R, cmd, vec):
    for name, want in (('Enable', 'cli::Command::Enable'), ('Disable', 'cli::Command::Disable'), ('Remove', None)):
        f = fn(p, 'cli::CmdHandler::' + name)
        I, outs = runfn(rep, p, f, Policy(), State(), ('o', 'H'))
        nonull(rep, I, f)
        live = False
        for s, fl in outs:
            where = (f['file'], f['l'], strip(f['n']))
            ct, cex = target(s, cmd)
            vt, vex = target(s, vec)
            calls = [e for e, _, _ in all_events(s) if e.kind == 'vcall' and e.name.startswith('cli::Command::')]
            if fl and fl[0] == 'throw':
                rep.bad('exact', *where, msg='the handle throws', path=trace(s))
                continue
            if want is not None:
                if cex is False:
                    live = True
                    if len(calls) == 1 and calls[0].name == want and calls[0].obj == ct:
                        rep.ok('exact')
                    elif len(calls) == 1 and calls[0].name == want and calls[0].obj is None:
                        rep.und('exact', 'target unknown')
                    else:
                        rep.bad('exact', *where, msg='%s of a live command does not reach exactly the command' % name, path=trace(s))
                elif calls:
                    rep.bad('exact', *where, msg='%s reaches a command that may not be alive' % name, path=trace(s))
                else:
                    rep.ok('exact')
                continue
            # Remove
            live |= remove(rep, p, R, where, s, ct, cex, vt, vex, calls)
        if not live:
            rep.bad('exact', f['file'], f['l'], strip(f['n']), '%s never has an effect on a live command' % name)


def remove(rep, p, R, where, s, ct, cex, vt, vex, calls):
    if calls:
        rep.bad('exact', *where, msg='removing calls the command', path=trace(s))
        return True
    loc = None
    if vt is not None:
        loc = ('o', vt.a[0])
    old = None
    for k, v in s.store.items():
        if len(k) == 2 and k == loc and isinstance(v, V) and v.k == 'seq':
            old = k
    changed = None
    if old is not None:
        b = sbase.__globals__['SBase']._last.get(('init', old))
        cur = s.store[old]
        if b is None:
            rep.und('exact', 'the commands of the menu at entry')
            return True
        if cur == wholeseq(b):
            changed = False
        else:
            fl = [g for g in cur.a[0] if g[0] == 's' and isinstance(g[1].key, tuple) and g[1].key[0] == 'filter' and g[1].key[1] == wholeseq(b)]
            if len(fl) == 1 and len(cur.a[0]) == 1 and s.entails(cmp_('==', L(fl[0][2]), L(0))) and s.entails(cmp_('==', L(fl[0][3]), L(fl[0][1].len))):
                for e, st2, lp in all_events(s):
                    if e.kind in ('removed', 'kept'):
                        o = psym(('el', b, e.args[0]))
                        d = None
                        for key, v in st2.preds.items():
                            if key[0] == 'peq' and ct in key[1:] and o in key[1:]:
                                d = v
                        if d is (e.kind == 'removed'):
                            rep.ok('exact')
                        else:
                            rep.bad('exact', *where, msg='removing erases other commands than the command of the handle, or keeps it', path=trace(s))
                return True
            segs = [g for g in cur.a[0] if not (g[0] == 's' and s.entails(cmp_('==', g[2], g[3])))]
            lo, k, ok = L(0), None, True
            for g in segs:
                if g[0] != 's' or g[1] != b:
                    ok = False
                    break
                if k is None and s.entails(cmp_('==', g[2], lo)):
                    lo = g[3]
                elif k is None and s.entails(cmp_('==', g[2], lo + L(1))):
                    k = lo
                    lo = g[3]
                else:
                    ok = False
            if ok and k is None and s.entails(cmp_('==', lo + L(1), L(b.len))):
                k = lo
                lo = L(b.len)
            if not ok or k is None or not s.entails(cmp_('==', lo, L(b.len))):
                lost = [e for e in s.events if e.kind == 'remove_if']
                if lost and ok:
                    rep.und('exact', 'commands erased with remove_if')
                    return True
                rep.bad('exact', *where, msg='removing does not leave exactly the other commands in their order: %r' % (cur,), path=trace(s))
                return True
            same = s.decide(('p', ('peq', psym(('el', b, k)), ct))) if ct is not None else None
            for key, v in s.preds.items():
                if key[0] == 'peq' and v and ct in key[1:]:
                    o = key[1] if key[2] == ct else key[2]
                    if isinstance(o, V) and o.k == 'psym' and isinstance(o.a[0], tuple) and o.a[0][0] == 'el' and o.a[0][1] == b and s.entails(cmp_('==', o.a[0][2], k)):
                        same = True
            if same is True:
                rep.ok('exact')
            else:
                rep.bad('exact', *where, msg='removing erases a command that need not be the command of the handle', path=trace(s))
            return True
    if cex is False and vex is False and changed is not True:
        if old is None:
            rep.bad('exact', *where, msg='removing a live command does not change the menu', path=trace(s))
            return False
        # not found: every element was compared
        b = sbase.__globals__['SBase']._last.get(('init', old))
        loops = [e for e in s.events if e.kind == 'loop']
        if not loops and not s.entails(cmp_('==', L(b.len), L(0))):
            rep.bad('exact', *where, msg='removing a live command does not change the menu', path=trace(s))
        elif loops and not any(covers(e.x, b, ct, s) for e in loops):
            rep.und('exact', 'search of the command')
        else:
            rep.ok('exact')
        return False
    if changed is False or changed is None:
        rep.ok('exact')
    return False


def covers(lp, b, ct, s):
    """the loop compares every element with the command"""
    K = lp.K
    for bk in lp.backs:
        for key, v in bk.state.preds.items():
            if key[0] == 'peq' and ct in key[1:]:
                return True
    return False


def inserts(rep, p, R, cmd, vec):
    fs = [f for f in fns(p, 'cli::Menu::Insert') if f['ps'] and p.tk(f['ps'][0]['t']).k == 'ref' and p.tk(f['ps'][0]['t']).sub('to').k == 'sptr']
    app = [f for f in fns(p, 'cli::Menu::Insert') if f['ps'] and not any(f is g for g in fs) and f.get('access') == 0][:4]
    for f in fs + app:
        st = State()
        st.preds[('nonnull', psym(('init', ('o', 'M', R.m_cmds))))] = True
        I, outs = runfn(rep, p, f, Policy(), st, ('o', 'M'))
        where = (f['file'], f['l'], strip(f['n']))
        for s, fl in outs:
            if not fl or fl[0] != 'ret' or not isinstance(fl[1], V) or fl[1].k != 'rec':
                rep.und('returned', 'result %r' % (fl,))
                continue
            # the references of the handle, wherever it keeps them
            ws = {}
            work = [fl[1].a[0]]
            seen = set()
            while work:
                l = work.pop()
                if l in seen:
                    continue
                seen.add(l)
                for k, v in s.store.items():
                    if k[:len(l)] == l and isinstance(v, V):
                        if v.k == 'ptr':
                            work.append(v.a[0])
                        elif v.k == 'weak' and k[-1] in cmd + vec:
                            ws[k[-1]] = v.a[0]
            cl = s.store.get(('o', ('init', ('o', 'M', R.m_cmds))))
            new = None
            if isinstance(cl, V) and cl.k == 'seq' and cl.a[0] and cl.a[0][-1][0] == 'e':
                new = cl.a[0][-1][1]
            if new is None:
                rep.und('returned', 'the command inserted is not visible')
                continue
            good = any(ws.get(k) == new for k in cmd) and any(ws.get(k) == psym(('init', ('o', 'M', R.m_cmds))) for k in vec)
            if good:
                rep.ok('returned')
            elif not ws:
                rep.und('returned', 'the handle is not visible')
            else:
                rep.bad('returned', *where, msg='the handle returned does not refer to the command inserted and its menu', path=trace(s))


class Watch(CmdPolicy):
    watch = True

    def __init__(self, R):
        CmdPolicy.__init__(self)
        self.R = R
        self.hits = []

    def throws(self, ev):
        return ()

    def on_load(self, I, st, loc):
        R = self.R
        m = None
        if loc[-1] in (R.m_parent, R.m_cmds, R.c_name, R.c_enabled):
            m = loc
        elif len(loc) == 2 and isinstance(loc[1], tuple) and loc[1] and loc[1][0] == 'init' and isinstance(loc[1][1], tuple) and loc[1][1] and loc[1][1][-1] == R.m_cmds:
            m = loc
        if m is None:
            return
        for e in reversed(st.events):
            if e.kind == 'vcall' and e.name == EXEC:
                d = st.decide(e.res) if isinstance(e.res, tuple) else None
                if d is not False:
                    fr = I.stack[-1] if I.stack else None
                    self.hits.append((e, m, st, d))
                return


def traversals(rep, p, R):
    todo = []
    for f in p.functions.values():
        if f.get('rec') == R.menu['id'] and f.get('body') is not None and f.get('access') == 0 and not f.get('kind') == 'ctor' and f['ps'] and any(to_rec(p.tk(q['t'])) == 'cli::CliSession' for q in f['ps'] if p.tk(q['t']).k == 'ref'):
            todo.append((f, ('o', 'M')))
    n = 0
    for f, this in todo:
        st = State()
        st.dyn[this] = R.menu['id']
        for i, q in enumerate(f['ps']):
            t = p.tk(q['t'])
            to = t.sub('to') if t.k == 'ref' else None
            if to is not None and to.k == 'seq':
                st.store[('o', ('arg', i))] = to.mk('TOKENS')
                st.le.append(L(1) - L(tokbase().len))
        pol = Watch(R)
        I, outs = runfn(rep, p, f, pol, st, this)
        for e, m, s, d in pol.hits:
            rep.bad('after', e.file, e.line, e.fn, 'after the command that %s %s is read' % ('ran' if d else 'may have run', field_name(R, m)), trace(s))
        for s, fl in outs:
            for e, st2, lp in all_events(s):
                if e.kind == 'vcall' and e.name == EXEC:
                    n += 1
                    owner(rep, R, e, s)
            loopsof(rep, s, s.events)
    if not n:
        raise Anchor('no execution of a command found')


def loopsof(rep, s, events):
    for e in events:
        if e.kind != 'loop':
            continue
        for b in e.x.backs:
            loopsof(rep, s, b.events)
            for x in b.events:
                if x.kind == 'vcall' and x.name == EXEC and isinstance(x.res, tuple):
                    d = b.state.decide(x.res)
                    if d is False:
                        rep.ok('after')
                    else:
                        rep.bad('after', x.file, x.line, x.fn, 'the commands of the menu go on being read after one that %s' % ('ran' if d else 'may have run'), trace(s))


def field_name(R, loc):
    k = loc[-1]
    return {R.m_parent: 'the enclosing menu', R.c_name: 'the name', R.c_enabled: 'the enabled flag'}.get(k, 'the vector of commands') + ' of a menu'


def owner(rep, R, e, s):
    if e.obj is None:
        rep.und('alive', 'object unknown')
        return
    held = e.x or ()
    for v in held:
        if v == e.obj:
            rep.ok('alive')
            return
        if v.k == 'seq':
            m = R.menu_of(e.obj)
            if m and any(g[0] == 's' and g[1] == m[1] for g in v.a[0]):
                rep.ok('alive')
                return
    if R.menu_of(e.obj) is None:
        rep.und('alive', 'not a command of a menu: %r' % (e.obj,))
        return
    rep.bad('alive', e.file, e.line, e.fn, 'nothing but the menu owns the command while it executes', trace(s))
