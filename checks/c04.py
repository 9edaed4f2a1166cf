"""C04: a disabled command or menu is inert and invisible."""
from .cmds import *
from .c01 import EXEC
from engine import walk

META = {
    'technique': 'guard dominance by abstract interpretation: every use of a command or menu is on paths that found it enabled',
    'note': 'All public and virtual member functions of the command classes and menus, and the session functions that reach them, for arbitrary menus of any depth (recursion through the enclosing menus is cut at a call that is '
            'itself analysed). Trusts the clang front end, the extractor and the library models.',
    'explanation': 'On every abstract path, running a handler, offering the line to (or asking help or completions from) the commands of a menu, entering it, printing its name or returning its name as a completion requires '
                   'that the path has read the enabled flag of exactly that command or menu as true. Enable and Disable write the flag and nothing else.',
    'assumptions': [],
}
OPS = ('cli::Command::Exec', 'cli::Command::Help', 'cli::Command::GetCompletionRecursive')


class P4(CmdPolicy):
    def throws(self, ev):
        return ()


def roots(p, R):
    """member functions of commands and menus another object can call"""
    out = []
    for f in p.functions.values():
        if f.get('body') is None or not f.get('repo') or f.get('rec') is None or f.get('kind') in ('ctor', 'dtor') or f.get('static'):
            continue
        rec = p.rec(f['rec'])
        if rec is None or (rec['id'] != R.cmd['id'] and R.cmd['id'] not in list(p.bases(rec['id']))):
            continue
        if not strip(rec['n']).startswith('cli::'):
            continue
        if f.get('access') != 0 and not f.get('virt'):
            continue
        ts = [p.tk(q['t']) for q in f['ps']]
        names = [to_rec(t) for t in ts if t.k == 'ref']
        ret = p.tk(f['ret'])
        if 'cli::CliSession' in names or 'std::basic_ostream' in names or (ret.k == 'seq' and ret.base == 'std::vector'):
            out.append(f)
    return out


def check(rep, tier):
    p = prog()
    R = roles(p)
    rep.rule('guarded', 'whatever is done with a command or menu is done on paths that found it enabled')
    rep.rule('flag', 'Enable and Disable write the enabled flag, and nothing else; a new command is enabled')
    done = set()
    work = [(f, False) for f in roots(p, R)]
    if not any(f['sn'] == 'Exec' for f, _ in work):
        raise Anchor('no Exec')
    n = 0
    while work:
        f, pre = work.pop()
        if (f['id'], pre) in done:
            continue
        done.add((f['id'], pre))
        work += analyse(rep, p, R, f, pre)
    for name in ('cli::CliSession::Help', 'cli::CliSession::GetCompletions', 'cli::CliSession::Feed'):
        f = fn(p, name)
        st = R.session()
        if name.endswith('Feed'):
            st.store[('o', ('arg', 0))] = LINE
        I, outs = runfn(rep, p, f, P4(), st, R.S)
        for s, fl in outs:
            path(rep, p, R, f, s, fl, None)
            for e, _, _ in all_events(s):
                if e.kind == 'rec':
                    ok = e.obj is not None and e.obj.k == 'ptr' and en(s, R, e.obj.a[0]) is True
                    for g in p.bystrip.get(e.name, []):
                        if g.get('body') is not None and g.get('rec') == R.menu['id'] and (g['id'], ok) not in done:
                            done.add((g['id'], ok))
                            analyse(rep, p, R, g, ok)
    flags(rep, p, R)


def analyse(rep, p, R, f, pre):
    st = State()
    M = ('o', 'M')
    if pre:
        # called (recursively) only on a menu found enabled
        st.store[M + (R.c_enabled,)] = T
    for i, q in enumerate(f['ps']):
        t = p.tk(q['t'])
        to = t.sub('to') if t.k == 'ref' else None
        if to is not None and to.k == 'seq' and to.base == 'std::vector':
            st.store[('o', ('arg', i))] = to.mk('TOKENS')
            st.le.append(L(1) - L(tokbase().len))
        elif to is not None and to_rec(t) == 'std::basic_ostream':
            pass
    rec = p.rec(f['rec'])
    st.dyn[M] = rec['id']
    I, outs = runfn(rep, p, f, P4(), st, M)
    more = []
    for s, fl in outs:
        path(rep, p, R, f, s, fl, M)
        for e, _, _ in all_events(s):
            if e.kind == 'rec':
                ok = e.obj is not None and e.obj.k == 'ptr' and en(s, R, e.obj.a[0]) is True
                more += [(g, ok) for g in p.bystrip.get(e.name, []) if g.get('body') is not None and g.get('rec') == R.menu['id']]
    return more


def owner_of_name(R, key):
    """('init', loc + name) -> loc"""
    if isinstance(key, tuple) and len(key) == 2 and key[0] == 'init' and isinstance(key[1], tuple) and key[1] and key[1][-1] == R.c_name:
        return key[1][:-1]
    return None


def en(st, R, loc):
    v = st.store.get(loc + (R.c_enabled,))
    if v is None:
        return None
    return st.decide(v)


def path(rep, p, R, f, s, fl, M):
    for e, st, lp in all_events(s):
        uses = []
        if e.kind == 'vcall' and e.name.startswith('cli::Command::'):
            m = R.menu_of(e.obj)
            if m:
                uses.append((m[0], 'the commands of a menu are used (%s)' % e.name.split('::')[-1]))
        elif e.kind == 'user' and M is not None and e.name == 'handler' or e.kind == 'user' and M is not None and isinstance(e.obj, V) and e.obj.k == 'fsym' and e.obj.a[0][0] == 'init' and e.obj.a[0][1][:len(M)] == M:
            uses.append((M, 'the handler runs'))
        elif e.kind == 'out':
            for a in e.args:
                for b in bases(a):
                    o = owner_of_name(R, b.key)
                    if o is not None:
                        uses.append((o, 'the name is printed'))
        for loc, what in uses:
            judge(rep, R, e.file, e.line, e.fn, loc, what, st, s)
    # entered as the current menu
    for k, v in s.store.items():
        if k[-1] == R.s_current and isinstance(v, V) and v.k == 'ptr' and M is not None and (v.a[0] == M or R.depth(v.a[0])[0] == M):
            judge(rep, R, f['file'], f['l'], strip(f['n']), v.a[0], 'the menu is entered', s, s)
    if fl and fl[0] == 'ret' and isinstance(fl[1], V) and fl[1].k == 'seq':
        for b in bases(fl[1]):
            o = owner_of_name(R, b.key)
            if o is not None and named(R, o, M):
                judge(rep, R, f['file'], f['l'], strip(f['n']), o, 'the name is offered as a completion', s, s)
    if M is not None and en(s, R, M) is False and fl and fl[0] == 'ret':
        r = fl[1]
        if isinstance(r, tuple) and r and r[0] in 'TF' and s.decide(r):
            rep.bad('guarded', f['file'], f['l'], strip(f['n']), 'a disabled command accepts the line', trace(s))
        elif isinstance(r, V) and r.k == 'seq' and r != EMPTY and s.entails(cmp_('>', seqlen(r.a[0]), L(0))):
            rep.bad('guarded', f['file'], f['l'], strip(f['n']), 'a disabled command offers completions', trace(s))
        else:
            rep.ok('guarded')


def named(R, o, M):
    return True


def judge(rep, R, file, line, fname, loc, what, st, whole):
    d = en(st, R, loc)
    if d is None and st is not whole:
        d = en(whole, R, loc)
    if d is True:
        rep.ok('guarded')
    else:
        rep.bad('guarded', file, line, fname, '%s %s' % (what, 'although it is disabled' if d is False else 'whether or not it is enabled'), trace(whole))


def flags(rep, p, R):
    for name, want in (('cli::Command::Enable', T), ('cli::Command::Disable', F)):
        f = fn(p, name)
        for g in [g for g in p.functions.values() if g.get('body') is not None and g['sn'] == f['sn'] and g.get('rec') is not None and g.get('repo') and
                  (g['rec'] == R.cmd['id'] or R.cmd['id'] in list(p.bases(g['rec'])))]:
            I, outs = runfn(rep, p, g, P4(), State(), ('o', 'C'))
            for s, fl in outs:
                v = s.store.get(('o', 'C', R.c_enabled))
                others = [k for k, x in s.store.items() if k[0] == 'o' and k != ('o', 'C', R.c_enabled) and x != origin(k, x)]
                if v != want:
                    rep.bad('flag', g['file'], g['l'], strip(g['n']), '%s leaves the command %s' % (g['sn'], 'disabled' if want == T else 'enabled'), trace(s))
                elif others or [e for e in s.events if e.kind not in ('assume', 'init')]:
                    rep.bad('flag', g['file'], g['l'], strip(g['n']), '%s has another effect than changing the flag' % g['sn'], trace(s))
                else:
                    rep.ok('flag')
    ctors = [g for g in p.functions.values() if g.get('kind') == 'ctor' and g.get('rec') == R.cmd['id'] and g.get('body') is not None and not g.get('copy')]
    for c in ctors:
        I, outs = runfn(rep, p, c, P4(), State(), ('o', 'C'))
        for s, fl in outs:
            v = s.store.get(('o', 'C', R.c_enabled))
            if v == T:
                rep.ok('flag')
            elif v is not None and s.decide(v) is False:
                rep.bad('flag', c['file'], c['l'], strip(c['n']), 'a new command is disabled', trace(s))
            else:
                rep.bad('flag', c['file'], c['l'], strip(c['n']), 'the enabled flag of a new command is not set', trace(s))


def origin(k, x):
    """the value a location had at entry, as far as the domain shows"""
    if isinstance(x, V) and x.k == 'psym' and x.a[0] == ('init', k):
        return x
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'in' and x[1].key == ('init', k):
        return x
    if isinstance(x, V) and x.k == 'seq' and x == wholeseq(sbase(('init', k), 'char')):
        return x
    return None
