"""The line editor: every path of the handler of a key, from an arbitrary line and cursor."""
from .kbd import *
from .roles import *
from .screen import *

CP = ('o', 'cp')
KB = ('o', 'KB')
KEYLOC = ('o', 'key')
LINEB = sbase('EDITLINE', 'char')
POS = sym('POS', 0, 2 ** 63 - 1)
CH = sym('KEYCHAR', -128, 127)
SES = 'cli::CliSession::'


def tab(lens):
    """texts of the given lengths, their characters unknown"""
    return tuple(V('seq', tuple(('e', L(sym(('cch', i, j), fin=range(33, 127)))) for j in range(n))) for i, n in enumerate(lens))


def before(a, b):
    """condition: text a comes before text b"""
    a, b = a.a[0], b.a[0]
    cs = []
    for k in range(min(len(a), len(b)) + 1):
        pre = [cmp_('==', a[i][1], b[i][1]) for i in range(k)]
        if k < len(a) and k < len(b):
            cs.append(and_(*(pre + [cmp_('<', a[k][1], b[k][1])])))
        elif k == len(a) and k < len(b):
            cs.append(and_(*pre))
    return or_(*cs)


class EditPolicy(Policy):
    """the session is called, not entered: it has its own checks"""
    def __init__(self, compl=None):
        self.compl = compl
        if compl is not None:
            self.unroll = 6

    def hook(self, I, st, fr, name, e, obj, args):
        if name.startswith(SES):
            n = name[len(SES):]
            if n not in ('Feed', 'Prompt', 'Exit', 'NextCmd', 'PreviousCmd', 'GetCompletions'):
                return None
            vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
            res = VOID
            if n in ('NextCmd', 'PreviousCmd'):
                res = wholeseq(sbase(('HIST', n, st.fresh()), 'char'))
            elif n == 'GetCompletions':
                res = I.p.tk(e['t']).mk(('COMPL', st.fresh())) if self.compl is None else V('seq', tuple(('e', c) for c in self.compl))
            I.event(st, 'ses', n, obj, vals, res, e)
            return [(st, res)]
        if name.endswith('rang_implementation::supportsColor') or name.endswith('rang_implementation::isTerminal'):
            return [(st, pred('rang', name[-8:]))]
        return None


class Editor(object):
    def __init__(self, rep, p):
        self.p, self.rep = p, rep
        self.keys = {n: v for v, n in keytypes(p).items()}
        self.why = self.extra = None
        self.runs = {}
        R = self.R = roles(p)
        cs = [f for f in p.functions.values() if f.get('kind') == 'ctor' and f.get('body') is not None and strip(f['n']).endswith('CommandProcessor::CommandProcessor') and len(f['ps']) == 2]
        if not cs:
            raise Anchor('no constructor of CommandProcessor')
        self.ctor = cs[0]
        self.where = (cs[0]['file'], cs[0]['l'], strip(cs[0]['n']))
        st = R.session()
        st.dyn[R.S] = R.ses['id']
        I = Interp(p, EditPolicy())
        outs = I.run(cs[0], st=st, this=CP, args=[ptr(R.S), ptr(KB)])
        rep.ran(I, outs)
        self.outs = outs
        self.line = self.pos = None
        self.clo = None
        if len(outs) != 1:
            self.why = 'the constructor has several outcomes'
            return
        s = outs[0][0]
        self.st = s
        out = set(x for r in p.records.values() if r.get('repo', True) and r['n'].startswith(('cli::detail::CommandProcessor', 'cli::detail::Terminal')) for x in idle(p, r)) if isinstance(p.records, dict) else set()
        own = {k: v for k, v in s.store.items() if k[:2] == CP and len(k) > 2 and k[-1] not in out}
        self.init = own
        lines = [k for k, v in own.items() if isinstance(v, V) and v.k == 'seq']
        nums = [k for k, v in own.items() if isinstance(v, (Lin, tuple))]
        rest = [k for k, v in own.items() if k not in lines and k not in nums and not (isinstance(v, V) and v.k in ('ptr', 'psym'))]
        clos = [v for k, v in s.store.items() if k[:2] == KB and isinstance(v, V) and v.k == 'clo']
        if len(clos) != 1:
            self.why = 'the handler registered on the input device is not known'
            return
        self.clo = clos[0]
        if len(lines) != 1 or len(nums) != 1 or rest:
            self.extra = 'the editor keeps other members than a line and a cursor: %s' % (sorted(str(k[-1]) for k in lines + nums + rest),)
        else:
            self.line, self.pos = lines[0], nums[0]
        self.handler = p.fn(self.clo.a[0]) if self.clo.a[0] is not None else None
        if self.handler is None:
            fs = [f for f in p.functions.values() if f.get('rec') == self.clo.a[1] and f['sn'] == 'operator()' and len(f['ps']) == 1 and f.get('body') is not None]
            if not fs:
                self.why = 'the handler of keys is not instantiated'
                return
            self.handler = fs[0]

    def key(self, name, compl=None):
        """[(state, flow)] of one key in an arbitrary state of the editor"""
        if compl is not None or name not in self.runs:
            s = self.st.copy()
            s.events = []
            s.store[self.line] = wholeseq(LINEB)
            s.store[self.pos] = L(POS)
            a = KEYLOC + ('pair::first',), KEYLOC + ('pair::second',)
            s.store[a[0]] = L(self.keys[name])
            s.store[a[1]] = L(CH) if compl is None else L(9)
            outs = []
            start = s.assume(cmp_('<=', L(POS), L(LINEB.len)))
            for c, d in zip(compl or (), (compl or ())[1:]):
                # they are sorted and different (C23)
                start = [z for y in start for z in y.assume(before(c, d))]
            for x in start:
                I = Interp(self.p, EditPolicy(compl))
                outs += I.run(self.handler, st=x, args=[V('rec', KEYLOC, None)], clo=self.clo)
                self.rep.ran(I, outs)
                self.I = I
            if compl is not None:
                return outs
            self.runs[name] = outs
        return self.runs[name]

    def at(self, key, w):
        return w

    def played(self, s, mine, start=None):
        """[(state, screen)] after the outputs of a path; the prompt of the session begins a new line"""
        work = [(s.copy(), Screen((('s', LINEB, L(0), L(LINEB.len)),), L(POS)) if start is None else start.copy())]
        for e in s.events:
            if e.kind == 'ses' and e.name == 'Prompt':
                nxt = []
                for t, x in work:
                    y = Screen((), L(0))
                    y.rows, y.cleared = x.rows, x.cleared
                    nxt.append((t, y))
                work = nxt
            elif e.kind == 'ses' and e.name == 'Feed':
                for t, x in work:
                    x.at = False
            elif e.kind in ('out', 'loop', 'manip'):
                work = [y for t, x in work for y in play(self.I, t, x, [e], mine)]
                if len(work) > 3000:
                    raise Unknown('too many cases')
        return work
