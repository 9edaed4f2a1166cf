"""Roles of the private fields, found by type (and by what the public setters write), not by name."""
from .lib import *


def isstr(tk):
    return tk.k == 'seq' and tk.base == 'std::basic_string'


class Roles(object):
    def __init__(self, p):
        self.p = p
        self.cmd = recof(p, 'cli::Command')
        self.menu = recof(p, 'cli::Menu')
        self.cli = recof(p, 'cli::Cli')
        self.ses = recof(p, 'cli::CliSession')
        # Command
        self.c_name = field(p, self.cmd, lambda t, f: isstr(t), 'name of a command')
        self.c_enabled = field(p, self.cmd, lambda t, f: t.k == 'bool', 'enabled flag')
        # Menu
        self.m_parent = field(p, self.menu, lambda t, f: t.k == 'ptr' and to_rec(t) == 'cli::Menu', 'parent menu')
        self.m_cmds = field(p, self.menu, lambda t, f: t.k == 'sptr' and t.sub('to') is not None and t.sub('to').k == 'seq', 'commands of a menu')
        # Cli
        self.k_root = field(p, self.cli, lambda t, f: t.k == 'sptr' and to_rec(t) == 'cli::Menu', 'root menu')
        self.k_storage = field(p, self.cli, lambda t, f: t.k == 'sptr' and to_rec(t) == 'cli::HistoryStorage', 'history storage')
        self.k_enter = self.setter('cli::Cli::EnterAction')
        self.k_exit = self.setter('cli::Cli::ExitAction')
        self.k_exc = self.setter('cli::Cli::StdExceptionHandler')
        self.k_wrong = self.setter('cli::Cli::WrongCommandHandler')
        # CliSession
        self.s_global = field(p, self.ses, lambda t, f: t.k == 'sptr' and to_rec(t) == 'cli::Menu', 'global menu')
        self.s_current = field(p, self.ses, lambda t, f: t.k == 'ptr' and to_rec(t) == 'cli::Menu', 'current menu')
        self.s_cli = field(p, self.ses, lambda t, f: t.k == 'ref' and to_rec(t) == 'cli::Cli', 'cli')
        self.s_out = field(p, self.ses, lambda t, f: t.k == 'ref' and to_rec(t) == 'std::basic_ostream', 'output stream')
        self.s_hist = field(p, self.ses, lambda t, f: t.k == 'rec' and t.base == 'cli::detail::History', 'history')
        self.s_enter = self.setter('cli::CliSession::EnterAction')
        self.s_exit = self.setter('cli::CliSession::ExitAction')

    def setter(self, name):
        """the field a public setter taking a function writes"""
        p = self.p
        for f in fns(p, name):
            if len(f['ps']) != 1:
                continue
            t = p.tk(f['ps'][0]['t'])
            if t.k == 'ref':
                t = t.sub('to')
            if t is None or t.k != 'func':
                continue
            I = Interp(p)
            v = V('fsym', 'SETTER')
            got = set()
            for s, fl in I.run(f, this=('o', 'S'), args=[v]):
                for k, x in s.store.items():
                    if k[:2] == ('o', 'S') and len(k) == 3 and x == v:
                        got.add(k[2])
            if len(got) == 1:
                return got.pop()
        raise Anchor('%s: no field written' % name)

    # locations of a session in an arbitrary state
    S = ('o', 'this')
    GM = ('o', 'GM')
    CLI = ('o', 'CLI')
    OUT = ('o', 'OUT')

    def session(self, st=None, current=None):
        """an arbitrary session: the global menu is its own, enabled and has no parent"""
        st = st or State()
        st.store[self.S + (self.s_global,)] = ptr(self.GM)
        st.store[self.GM + (self.m_parent,)] = NULL
        st.store[self.GM + (self.c_enabled,)] = T
        st.store[self.S + (self.s_cli,)] = ptr(self.CLI)
        st.store[self.S + (self.s_out,)] = ptr(self.OUT)
        st.store[self.CLI + (self.k_root,)] = ptr(('o', 'ROOT'))
        st.preds[('nonnull', psym(('init', self.S + (self.s_current,))))] = True
        st.preds[('nonnull', psym(('init', self.CLI + (self.k_storage,))))] = True
        return st

    def menu_of(self, v):
        """the menu location whose commands a Command pointer is an element of, with its index"""
        if not isinstance(v, V) or v.k not in ('psym', 'ptr'):
            return None
        key = v.a[0]
        if v.k == 'ptr' and key[0] == 'o' and len(key) == 2:
            key = key[1]
        if not (isinstance(key, tuple) and len(key) == 3 and key[0] == 'el'):
            return None
        base, idx = key[1], key[2]
        m = self.menu_of_base(base)
        return None if m is None else (m, base, idx)

    def menu_of_base(self, base):
        k = base.key
        if isinstance(k, tuple) and k and k[0] == 'init':
            loc = k[1]
            # ('o', pointer key)
            if len(loc) == 2 and loc[0] == 'o' and isinstance(loc[1], tuple) and loc[1] and loc[1][0] == 'init':
                ml = loc[1][1]
                if ml and ml[-1] == self.m_cmds:
                    return ml[:-1]
        return None

    def parent_loc(self, m):
        return ('o', ('init', m + (self.m_parent,)))

    def depth(self, m):
        """('G'|'C', number of parent steps)"""
        n = 0
        while len(m) == 2 and m[0] == 'o' and isinstance(m[1], tuple) and m[1] and m[1][0] == 'init' and m[1][1][-1] == self.m_parent:
            m = m[1][1][:-1]
            n += 1
        return m, n


_roles = {}


def roles(p):
    if p.name not in _roles:
        _roles[p.name] = Roles(p)
    return _roles[p.name]


# functions whose internals have their own checks (C07, C10-C13): called, not entered
HIST = tuple('cli::detail::History::' + n for n in ('NewCommand', 'Previous', 'Next', 'Show', 'LoadCommands', 'GetCommands', 'At', 'ForgetLatest'))
SPLIT = 'cli::detail::split'


class FeedPolicy(Policy):
    opaque = (SPLIT,) + HIST

    def __init__(self, throws=()):
        self.throw_kinds = throws

    def hook(self, I, st, fr, name, e, obj, args):
        if name != SPLIT or len(args) != 2 or not isinstance(args[0], tuple):
            return None
        # the tokens of the line: C07 is about what they are
        v = I.argval(st, args[1], e['args'][1])
        I.event(st, 'ext', name, None, (v,), VOID, e)
        tk = I.p.tk(e['args'][0]['t'])
        st.store[args[0]] = tk.mk('TOKENS')
        return [(st, VOID)]


_feeds = {}


def feed(rep, p, throws=()):
    """all abstract paths of CliSession::Feed in an arbitrary session"""
    k = (p.name, throws)
    if k not in _feeds:
        R = roles(p)
        f = fn(p, 'cli::CliSession::Feed')
        st = R.session()
        st.store[('o', ('arg', 0))] = wholeseq(sbase('LINE', 'char'))
        _feeds[k] = (f,) + runfn(rep, p, f, FeedPolicy(throws), st, R.S)
    f, I, outs = _feeds[k]
    rep.ran(I, outs)
    return f, I, outs


LINE = wholeseq(sbase('LINE', 'char'))


def tokslice(v):
    """n when v is the tokens of the line from the n-th on"""
    if isinstance(v, V) and v.k == 'seq' and len(v.a[0]) == 1:
        sg = v.a[0][0]
        if sg[0] == 's' and sg[1].key == 'TOKENS' and sg[3] == L(sg[1].len) and not sg[2].t:
            return sg[2].c
    return None


def tokbase():
    return sbase.__globals__['SBase']._last['TOKENS']
