"""C34: help lists exactly what can be typed."""
from .cmds import *
from . import c04

META = {
    'technique': 'abstract interpretation of the listing and of the entries over all paths; loop summaries read as "each element once, in order"; the text an entry prints is compared with the strings of the registration',
    'note': 'A listing is judged by the calls of Command::Help in it, an entry by what it prints; spacing and decoration are free. That disabled commands do not show is C04, which stream is used elsewhere is C15/C30. Trusts the clang front '
            'end, the extractor and the library models.',
    'explanation': 'Every path of the help of a session (the method and the help command) is read as a sequence of listings. Each listing is a loop that calls Help of the element with the index of the pass, in every pass, until '
                   'all elements have had their turn: first over the session-wide commands, then over the menu the session is in, then the enclosing menu, once, if there is one. The entry of every kind of command the application can '
                   'register is executed on the object the registration made, with symbolic name, description and parameter names: the name comes first and once, then the parameter names in order, or the types in order when '
                   'there are none, then the description once.',
    'assumptions': [],
}
HELP = 'Help'


class HelpPolicy(FeedPolicy):
    """Help of a command is an event, except the one under judgement"""
    def __init__(self, R, enter=()):
        FeedPolicy.__init__(self)
        p = R.p
        self.enter = set(enter)
        self.ids = {}
        for f in p.functions.values():
            if f['sn'] == HELP and f.get('rec') is not None and not f.get('static') and len(f['ps']) == 1 and R.cmd['id'] in [f['rec']] + list(p.bases(f['rec'])):
                self.ids[f['id']] = f

    def hook(self, I, st, fr, name, e, obj, args):
        f = I.p.fn(e['f']) if e.get('f') is not None else None
        if f is not None and f['id'] in self.ids and f['id'] not in self.enter and (name not in self.enter):
            o = obj
            if isinstance(o, tuple):
                o = ptr(o)
            vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
            I.event(st, 'help', name, o, vals, VOID, e)
            return [(st, VOID)]
        return FeedPolicy.hook(self, I, st, fr, name, e, obj, args)


def ishelp(e):
    return e.kind == 'help' or e.kind == 'vcall' and e.name.endswith('::' + HELP)


def target(R, v):
    """('el', menu, base, idx) or ('menu', location) of the object whose Help is called"""
    m = R.menu_of(v)
    if m:
        return ('el',) + m
    if isinstance(v, V) and v.k == 'ptr':
        return ('menu', v.a[0])
    if isinstance(v, V) and v.k == 'psym':
        return ('menu', ('o', v.a[0]))
    return None


def enabled(R, st, v):
    if isinstance(v, V) and v.k == 'psym':
        return c04.en(st, R, ('o', v.a[0]))
    return None


def check(rep, tier):
    p = prog()
    R = roles(p)
    rep.rule('order', 'session-wide commands, then the current menu, then the enclosing one')
    rep.rule('each', 'every element of a listing once, in insertion order')
    rep.rule('parent', 'the enclosing menu is listed once, exactly when there is one')
    rep.rule('stream', 'everything goes to the stream of the session')
    rep.rule('command', 'the help command gives the help of the session')
    rep.rule('entry', 'name, parameters and description, each once and in this order')
    rep.rule('pars', 'the parameter names in order, or the types in order when there are none')
    rep.rule('types', 'the text for a type is its name')
    rep.rule('menuentry', 'a menu shows its name and its description')
    f = fn(p, 'cli::CliSession::Help')
    pol = HelpPolicy(R)
    I, outs = runfn(rep, p, f, pol, R.session(), R.S)
    w = (f['file'], f['l'], strip(f['n']))
    for s, fl in outs:
        listing(rep, R, w, s, fl, 'order')
    helpcommand(rep, p, R)
    entries(rep, p, R)
    menuentry(rep, p, R)
    types(rep, p)
    rep.enough()


def helpcommand(rep, p, R):
    clos = []
    for c in fns(p, 'cli::CliSession::CliSession'):
        for s, fl in runfn(rep, p, c, FeedPolicy(), State(), R.S)[1]:
            for k, v in s.store.items():
                if k[-1] == R.c_name and v == text('help'):
                    for k2, v2 in s.store.items():
                        if k2[:len(k) - 1] == k[:-1] and isinstance(v2, V) and v2.k == 'clo' and v2 not in clos:
                            clos.append(v2)
    hit = 0
    for c in clos:
        st = R.session()
        st.store[('o', ('arg', 0))] = V('term', 'stream')
        r = runclo(rep, p, c, HelpPolicy(R), st)
        if r is None:
            continue
        f, I, outs = r
        hit += 1
        for s, fl in outs:
            listing(rep, R, (f['file'], f['l'], 'the help command'), s, fl, 'command')
    if not hit:
        rep.und('command', 'no help command found')


def text(t):
    return V('seq', tuple(('e', L(ord(c))) for c in t))


def onout(R, e):
    a = e.args[0] if e.args else None
    if isinstance(a, V) and a.k == 'ptr':
        return a.a[0] == R.OUT or a.a[0] == ('o', ('arg', 0))
    return None


def bodystate(b):
    return b.state


def listing(rep, R, w, s, fl, rule):
    if fl[0] == 'throw':
        rep.und(rule, 'throws')
        return
    cur = None
    alive = [e.res for e, x, lp in all_events(s) if e.kind == 'assume' and e.name == 'expired']
    items = []                       # ('all', menu) | ('one', menu)
    for e in s.events:
        if ishelp(e):
            if onout(R, e) is False:
                rep.bad('stream', *at(e), msg='an entry goes to another stream than the one of the session', path=trace(s))
                return
            t = target(R, e.obj)
            if t is None:
                rep.und(rule, 'an entry of an unknown object')
                return
            if t[0] == 'el':
                # outside a loop: one element only
                rep.und(rule, 'an element listed outside a loop')
                return
            items.append(('one', t[1], e))
            rep.ok('stream')
        elif e.kind == 'loop':
            r = loop(rep, R, s, e)
            if r == 'und':
                rep.und(rule, 'a loop that is not understood')
                return
            if r == 'bad':
                return
            if r is not None:
                items.append(('all', r, e))
        elif e.kind == 'out' and isinstance(e.obj, V) and e.obj.k == 'ptr' and e.obj.a[0] not in (R.OUT, ('o', ('arg', 0))):
            rep.bad('stream', *at(e), msg='the help is written to another stream than the one of the session', path=trace(s))
            return
    # the menu the session is in, on this path
    cand = [('o', 'ROOT'), ('o', ('init', R.S + (R.s_current,)))]
    lists = [i for i in items if i[0] == 'all']
    ones = [i for i in items if i[0] == 'one']
    if approx(s.events):
        rep.und(rule, 'approximate')
        return
    g = [i for i in lists if i[1] == R.GM]
    c = [i for i in lists if i[1] in cand]
    other = [i for i in lists if i not in g and i not in c]
    if other:
        rep.bad(rule, *at(other[0][2]), msg='the commands of a menu the session is not in are listed', path=trace(s))
        return
    if len(g) != 1:
        rep.bad(rule, *w, msg='the session-wide commands are listed %s' % ('twice' if g else 'not at all'), path=trace(s))
        return
    want = None
    if alive:
        want = cand[0] if alive[-1] else cand[1]
    if len(c) > 1:
        rep.bad(rule, *at(c[1][2]), msg='the commands of the menu are listed twice', path=trace(s))
        return
    if c:
        m = c[0][1]
        if want is None and m == cand[0]:
            cur = ('init', R.S + (R.s_current,))
            if any(mentions_key(k, cur) for k, v in s.preds.items() if k[0] != 'nonnull'):
                rep.und(rule, 'unknown which menu the session is in')
                return
            want = cand[1]
        if want is not None and m != want:
            rep.bad(rule, *at(c[0][2]), msg='not the menu the session is in is listed', path=trace(s))
            return
        if items.index(c[0]) < items.index(g[0]):
            rep.bad(rule, *w, msg='the menu is listed before the session-wide commands', path=trace(s))
            return
    else:
        ms = [want] if want is not None else cand
        en = [c04.en(s, R, m) for m in ms]
        if False not in en:
            rep.bad(rule, *w, msg='the commands of the menu the session is in are not listed', path=trace(s))
        elif ones:
            rep.bad('parent', *at(ones[0][2]), msg='a menu is listed that is not the enclosing one', path=trace(s))
        else:
            rep.ok(rule)
        return
    rep.ok(rule)
    pl = R.parent_loc(m)
    pp = [i for i in ones if i[1] == pl]
    if len(ones) > len(pp):
        x = [i for i in ones if i not in pp][0]
        if x[1][1:] and isinstance(x[1], tuple) and x[1] in (m, R.GM) or R.depth(x[1])[1] > 1:
            rep.bad('parent', *at(x[2]), msg='a menu is listed that is not the enclosing one', path=trace(s))
        else:
            rep.und('parent', 'unknown menu')
        return
    nn = s.preds.get(('nonnull', psym(pl[1])))
    if len(pp) > 1:
        rep.bad('parent', *at(pp[1][2]), msg='the enclosing menu is listed twice', path=trace(s))
    elif pp and items.index(pp[0]) < items.index(c[0]):
        rep.bad('parent', *at(pp[0][2]), msg='the enclosing menu is listed before the commands of the menu', path=trace(s))
    elif pp and nn is False:
        rep.bad('parent', *at(pp[0][2]), msg='a menu is listed although there is no enclosing one', path=trace(s))
    elif not pp and nn is not False:
        if c04.en(s, R, pl) is False:
            rep.ok('parent')
        else:
            rep.bad('parent', *w, msg='the enclosing menu is not listed', path=trace(s))
    else:
        rep.ok('parent')


def mentions_key(k, what):
    if isinstance(k, V):
        return any(mentions_key(x, what) for x in k.a)
    if isinstance(k, tuple):
        return k == what or any(mentions_key(x, what) for x in k)
    return False


def loop(rep, R, s, e):
    """the menu whose commands the loop lists; None: nothing is listed; 'bad' (reported), 'und'"""
    lp = e.x
    calls = [[x for x in b.events if ishelp(x)] for b in lp.backs]
    inner = [x for b in lp.backs for x in b.events if x.kind == 'loop']
    if any(ishelp(y) for x in inner for b in x.x.backs for y in b.events):
        return 'und'
    lasts = [x for x in s.events if False]
    if not any(calls):
        return None
    menu = None
    for b, cs in zip(lp.backs, calls):
        for x in cs:
            t = target(R, x.obj)
            if t is None or t[0] != 'el':
                return 'und'
            if onout(R, x) is False:
                rep.bad('stream', *at(x), msg='an entry goes to another stream than the one of the session', path=trace(s))
                return 'bad'
            rep.ok('stream')
            if menu is None:
                menu = t[1:3]
            elif menu != t[1:3]:
                return 'und'
    n = L(menu[1].len)
    K = L(lp.K)
    for b, cs in zip(lp.backs, calls):
        idx = [L(target(R, x.obj)[3]) for x in cs]
        if len(cs) > 1:
            rep.bad('each', *at(cs[1]), msg='an entry is listed twice in one pass', path=trace(s))
            return 'bad'
        if not cs:
            # nothing is listed in this pass: right only for a disabled element
            el = psym(('el', menu[1], K))
            if c04.en(b.state, R, ('o', el.a[0])) is False or c04.en(b.state, R, ('o', ('el', menu[1], lp.K))) is False:
                continue
            if approx(b.events):
                return 'und'
            rep.bad('each', *at(e), msg='an element of the listing is skipped', path=trace(s))
            return 'bad'
        i = idx[0]
        if i == K or b.state.entails(cmp_('==', i, K)):
            continue
        if i == n - K - L(1) or b.state.entails(cmp_('==', i, n - K - L(1))):
            rep.bad('each', *at(cs[0]), msg='the commands are listed in reverse order', path=trace(s))
            return 'bad'
        d = i - K
        if d.is_const() and d.c != 0:
            rep.bad('each', *at(cs[0]), msg='the element %+d of the pass is listed' % d.c, path=trace(s))
            return 'bad'
        return 'und'
    if s.entails(cmp_('==', K, n)):
        rep.ok('each')
        return menu[0]
    # the loop ends before all elements had their turn
    if not s.can(cmp_('<', K, n)):
        rep.ok('each')
        return menu[0]
    d = [r for r in (1, 2) if s.entails(cmp_('==', K + L(r), n)) or s.entails(cmp_('<=', K, L(r)))]
    ex = [x for x in s.events if x.kind == 'assume' and x.line >= e.line]
    if d or not approx(s.events):
        rep.bad('each', *at(e), msg='the listing ends before all commands are listed', path=trace(s))
        return 'bad'
    return 'und'


# ---------------------------------------------------------------- entries

NAME, DESC = (wholeseq(sbase(k, 'char')) for k in ('NAME', 'DESC'))
STD = ('char', 'unsigned char', 'signed char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double', 'bool')


def typename(t):
    t = bare(t)
    if t in STD:
        return '<%s>' % t
    if t.startswith('std::basic_string') or t in ('std::string', 'string'):
        return '<string>'
    if t.startswith('std::vector<'):
        return '<list of strings>'
    return None


def flatten(evs, out, parbase):
    """what is printed: [('seq', segs) | ('loop', LoopInfo)], False when it goes elsewhere, None unknown"""
    r = []
    for e in evs:
        if e.kind == 'out':
            if not (isinstance(e.obj, V) and e.obj.k == 'ptr'):
                return None
            if e.obj.a[0] != out:
                return False
            for v in e.args:
                if isinstance(v, V) and v.k == 'seq':
                    r += [('s', g) for g in v.a[0]]
                elif isinstance(v, Lin):
                    r.append(('s', ('e', v)))
                else:
                    r.append(('?', v))
        elif e.kind == 'loop':
            if any(x.kind in ('out', 'loop') for b in e.x.backs for x in b.events):
                r.append(('loop', e))
    return r


def run_insert(rep, p, R, f):
    """states after the registration with symbolic strings, with the object made: [(state, location, record)]"""
    st = State()
    args = []
    strings = [NAME, DESC]
    pd = None
    for i, q in enumerate(f['ps']):
        t = p.tk(q['t'])
        u = t.sub('to') if t.k == 'ref' else t
        loc = ('o', ('arg', i))
        if isstr(u):
            if not strings:
                return None
            v = strings.pop(0)
        elif u.k == 'seq':
            pd = u.mk('PARDESC')
            v = pd
        else:
            v = None
        if v is None:
            args.append(t.mk(('arg', i)) if t.k != 'ref' else ptr(loc))
        elif t.k == 'ref':
            st.store[loc] = v
            args.append(ptr(loc))
        else:
            args.append(v)
    if strings:
        return None
    st.preds[('nonnull', psym(('init', ('o', 'M', R.m_cmds))))] = True
    I, outs = runfn(rep, p, f, Policy(), st, ('o', 'M'), args)
    r = []
    for s, fl in outs:
        if fl[0] == 'throw':
            continue
        objs = [(loc, rec) for loc, rec in s.dyn.items() if R.cmd['id'] in [rec] + list(p.bases(rec))]
        r.append((s, objs))
    return r, pd


def entries(rep, p, R):
    n = 0
    for f in p.functions.values():
        if strip(f['n']) != 'cli::Menu::Insert' or f.get('access') != 0 or f.get('body') is None or len(f['ps']) < 3:
            continue
        x = run_insert(rep, p, R, f)
        sig = 'Insert(%s)' % ', '.join(p.tk(q['t']).s for q in f['ps'])
        if x is None:
            rep.und('entry', 'registration with other parameters: ' + sig[:80])
            continue
        for s, objs in x[0]:
            if len(objs) != 1:
                rep.und('entry', 'no single object made: ' + sig[:80])
                continue
            loc, rec = objs[0]
            h = method(p, R, rec)
            if h is None:
                rep.und('entry', 'no Help')
                continue
            n += 1
            n0 = len(s.events)
            s = s.copy()
            s.events = []
            I, outs = runfn(rep, p, h, Policy(), s, loc, [ptr(R.OUT)])
            for s2, fl in outs:
                entry(rep, p, R, h, s2, fl, rec, x[1], sig)
    if not n:
        rep.und('entry', 'no registration could be executed')


def method(p, R, rec):
    for r in [rec] + list(p.bases(rec)):
        for f in p.functions.values():
            if f.get('rec') == r and f['sn'] == HELP and f.get('body') is not None and len(f['ps']) == 1:
                return f
    return None


def declared(p, rec):
    """the parameter types in order"""
    f = {'rec': rec}
    return param_types(p, f)


def entry(rep, p, R, h, s, fl, rec, pd, sig):
    w = (h['file'], h['l'], strip(h['n']))
    if fl[0] == 'throw':
        rep.und('entry', 'throws')
        return
    items = flatten(s.events, R.OUT, pd)
    if items is None:
        rep.und('entry', 'unknown output')
        return
    if items is False:
        rep.bad('stream', *w, msg='an entry is written to another stream than the one it is given', path=trace(s))
        return
    items = tidy(items)
    if any(i[0] == '?' for i in items):
        rep.und('entry', 'unknown output')
        return
    pos = {}
    for what, v in (('name', NAME), ('description', DESC)):
        b = v.a[0][0][1]
        hits = [i for i, x in enumerate(items) if x[0] == 's' and x[1][0] == 's' and x[1][1].key == b.key]
        parts = [i for i in hits if not (items[i][1][2] == L(0) and s.entails(cmp_('==', items[i][1][3], L(b.len))))]
        if not hits:
            if s.entails(cmp_('==', L(b.len), L(0))):
                pos[what] = None
                continue
            rep.bad('entry', *w, msg='the %s is not shown (%s)' % (what, sig[:120]), path=trace(s))
            return
        if parts:
            rep.und('entry', 'a part of the ' + what)
            return
        if len(hits) > 1:
            rep.bad('entry', *w, msg='the %s is shown twice (%s)' % (what, sig[:120]), path=trace(s))
            return
        pos[what] = hits[0]
    a, z = pos['name'], pos['description']
    if a is not None and z is not None and a > z:
        rep.bad('entry', *w, msg='the description comes before the name (%s)' % sig[:120], path=trace(s))
        return
    lo, hi = -1 if a is None else a, len(items) if z is None else z
    mid = items[lo + 1:hi]
    out = items[:lo + 1] + items[hi:]
    if any(mentionspd(x, pd) for x in out):
        rep.bad('entry', *w, msg='the parameter names are not between the name and the description (%s)' % sig[:120], path=trace(s))
        return
    rep.ok('entry')
    # the parameters
    pn = L(pd.a[0][0][1].len)
    some = False
    for c in (cmp_('==', pn, L(0)), cmp_('>', pn, L(0))):
        if s.can(c):
            for s2 in s.copy().assume(c):
                some = True
                parameters(rep, p, w, s2, rec, pd, pn, mid, sig)
    if not some:
        rep.und('pars', 'no path')


def parameters(rep, p, w, s, rec, pd, pn, mid, sig):
    if s.entails(cmp_('==', pn, L(0))):
        ts = declared(p, rec)
        names = [typename(t) for t in (ts if ts is not None else ['std::vector<std::string>'])]
        want = ''.join(x or '' for x in names)
        got = ''
        for x in mid:
            if x[0] == 's' and x[1][0] == 'e' and x[1][1].is_const():
                got += chr(x[1][1].c & 255)
            elif x[0] == 'loop':
                if len([1 for b in x[1].x.backs if b]) and pdloop(x[1], pd) is not None:
                    continue
                rep.und('pars', 'a loop that is not understood')
                return
            else:
                rep.und('pars', 'unknown text')
                return
        if squeeze(got) == squeeze(want):
            rep.ok('pars')
        elif None in names and not set(names) - {None}:
            rep.ok('pars')
        else:
            rep.bad('pars', *w, msg='without parameter names the types are shown as "%s", not "%s" (%s)' % (got.strip(), want, sig[:120]), path=trace(s))
        return
    loops = [x[1] for x in mid if x[0] == 'loop']
    fixed = ''.join(chr(x[1][1].c & 255) for x in mid if x[0] == 's' and x[1][0] == 'e' and x[1][1].is_const())
    if not loops:
        if approx(s.events):
            rep.und('pars', 'approximate')
        else:
            rep.bad('pars', *w, msg='the parameter names are not shown (%s)' % sig[:120], path=trace(s))
        return
    done = 0
    for e in loops:
        r = pdloop(e, pd)
        if r is None:
            rep.und('pars', 'a loop that is not understood')
            return
        K = L(e.x.K)
        if r == 'skip':
            rep.bad('pars', *at(e), msg='a parameter name is left out (%s)' % sig[:120], path=trace(s))
            return
        if r == 'twice':
            rep.bad('pars', *at(e), msg='a parameter name is shown twice (%s)' % sig[:120], path=trace(s))
            return
        for i, st in r:
            if i == K or st.entails(cmp_('==', i, K)):
                continue
            if i == pn - K - L(1) or (i - K).is_const():
                rep.bad('pars', *at(e), msg='the parameter names are not shown in order (%s)' % sig[:120], path=trace(s))
                return
            rep.und('pars', 'another index')
            return
        if s.can(cmp_('<', K, pn)):
            if approx(s.events):
                rep.und('pars', 'approximate')
            else:
                rep.bad('pars', *at(e), msg='not all parameter names are shown (%s)' % sig[:120], path=trace(s))
            return
        done += 1
    if done != 1:
        rep.bad('pars', *w, msg='the parameter names are shown twice (%s)' % sig[:120], path=trace(s))
        return
    types = [typename(t) for t in (declared(p, rec) or [])]
    for t in types:
        if t and t in fixed:
            rep.bad('pars', *w, msg='the types are shown besides the parameter names (%s)' % sig[:120], path=trace(s))
            return
    rep.ok('pars')


def squeeze(t):
    return ''.join(t.split())


def tidy(items):
    return [x for x in items if not (x[0] == 's' and x[1][0] == 'c' and not x[1][1])]


def mentionspd(x, pd):
    k = pd.a[0][0][1].key
    if x[0] == 's':
        return x[1][0] == 's' and elkey(x[1][1].key, k)
    if x[0] == 'loop':
        return any(mentionspd(y, pd) for b in x[1].x.backs for y in flat(b.events))
    return False


def flat(evs):
    r = []
    for e in evs:
        if e.kind == 'out':
            for v in e.args:
                if isinstance(v, V) and v.k == 'seq':
                    r += [('s', g) for g in v.a[0]]
    return r


def elkey(key, k):
    return isinstance(key, tuple) and len(key) == 3 and key[0] == 'el' and getattr(key[1], 'key', None) == k


def pdloop(e, pd):
    """[(index, state)] of the parameter name each pass shows, 'skip', 'twice' or None"""
    k = pd.a[0][0][1].key
    r = []
    for b in e.x.backs:
        if any(x.kind == 'loop' and any(y.kind == 'out' for c in x.x.backs for y in c.events) for x in b.events):
            return None
        hits = []
        for x in flat(b.events):
            g = x[1]
            if g[0] == 's' and elkey(g[1].key, k):
                if g[2] != L(0) or not b.state.entails(cmp_('==', g[3], L(g[1].len))):
                    return None
                hits.append(L(g[1].key[2]))
        if not hits:
            if any(x.kind == 'out' for x in b.events):
                return None if approx(b.events) else 'skip'
            return None if approx(b.events) else 'skip'
        if len(hits) > 1:
            if hits[0] == hits[1]:
                return 'twice'
            return None
        r.append((hits[0], b.state))
    return r


def menuentry(rep, p, R):
    for c in fns(p, 'cli::Menu::Menu'):
        strs = [i for i, q in enumerate(c['ps']) if isstr((lambda t: t.sub('to') if t.k == 'ref' else t)(p.tk(q['t'])))]
        if len(strs) < 2 or c.get('copy'):
            continue
        st = State()
        args = []
        vals = [NAME, DESC] + [wholeseq(sbase('STR%d' % i, 'char')) for i in range(5)]
        for i, q in enumerate(c['ps']):
            t = p.tk(q['t'])
            loc = ('o', ('arg', i))
            if i in strs:
                v = vals.pop(0)
                if t.k == 'ref':
                    st.store[loc] = v
                    args.append(ptr(loc))
                else:
                    args.append(v)
            else:
                args.append(ptr(loc) if t.k == 'ref' else t.mk(('arg', i)))
        h = method(p, R, R.menu['id'])
        if h is None:
            rep.und('menuentry', 'no Help')
            continue
        for s, fl in runfn(rep, p, c, Policy(), st, ('o', 'M'), args)[1]:
            if fl[0] == 'throw':
                continue
            s = s.copy()
            s.events = []
            for s2, fl2 in runfn(rep, p, h, Policy(), s, ('o', 'M'), [ptr(R.OUT)])[1]:
                w = (h['file'], h['l'], strip(h['n']))
                items = flatten(s2.events, R.OUT, None)
                if items is False:
                    rep.bad('stream', *w, msg='an entry is written to another stream than the one it is given', path=trace(s2))
                    continue
                if items is None or fl2[0] == 'throw' or any(x[0] != 's' for x in items):
                    rep.und('menuentry', 'unknown output')
                    continue
                seqs = [x[1][1].key for x in items if x[1][0] == 's']
                keys = [v.a[0][0][1].key for v in (NAME, DESC)]
                miss = [v for v, k in zip((NAME, DESC), keys) if k not in seqs and not s2.entails(cmp_('==', L(v.a[0][0][1].len), L(0)))]
                if miss:
                    rep.bad('menuentry', *w, msg='the %s of a menu is not shown' % ('name' if miss[0] is NAME else 'description'), path=trace(s2))
                elif len([k for k in seqs if k in keys]) > 2:
                    rep.bad('menuentry', *w, msg='the entry of a menu shows its name or description twice', path=trace(s2))
                elif [k for k in seqs if k in keys] != [k for k in keys if k in seqs]:
                    rep.bad('menuentry', *w, msg='the description of a menu comes before its name', path=trace(s2))
                else:
                    rep.ok('menuentry')


def types(rep, p):
    """the names of the standard types"""
    for r in (p.records.values() if isinstance(p.records, dict) else p.records):
        if strip(r['n']) != 'cli::TypeDesc':
            continue
        a = targs(p, r) if True else None
        t = p.types[a[0]['t']]['s'] if a and 't' in a[0] else None
        want = typename(t) if t else None
        if want is None:
            continue
        for f in p.functions.values():
            if f.get('rec') != r['id'] or not f.get('static') or f.get('body') is None or f['ps']:
                continue
            for s, fl in runfn(rep, p, f, Policy(), State(), None)[1]:
                v = fl[1] if fl[0] == 'ret' else None
                got = None
                if isinstance(v, V) and v.k == 'seq' and all(g[0] == 'e' and g[1].is_const() for g in v.a[0]):
                    got = ''.join(chr(g[1].c & 255) for g in v.a[0]).rstrip('\0')
                elif isinstance(v, V) and v.k == 'iter' and v.a[0][0] == 'str' and L(v.a[1]) == L(0):
                    got = ''.join(chr(x & 255) for x in v.a[0][1]).rstrip('\0')
                if got is None:
                    rep.und('types', 'unknown text for %s: %s' % (t, repr(v)))
                elif got == want:
                    rep.ok('types')
                else:
                    rep.bad('types', f['file'], f['l'], strip(f['n']), 'the text for the type %s is "%s"' % (t, got))
