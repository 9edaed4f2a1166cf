"""Abstract runs of the commands (overrides of Command::Exec that hold a user handler)."""
from .roles import *
FROM = 'cli::detail::from_string'


class CmdPolicy(FeedPolicy):
    """the handler is an event that may throw; a conversion yields an unknown value or throws"""
    handler_throws = ('std::bad_cast', 'std::exception', 'other')

    def throws(self, ev):
        return self.handler_throws if ev.kind == 'user' else ()

    def hook(self, I, st, fr, name, e, obj, args):
        r = FeedPolicy.hook(self, I, st, fr, name, e, obj, args)
        if r is not None:
            return r
        if name == FROM:
            v = I.argval(st, args[0], e['args'][0])
            tk = I.p.tk(e['t'])
            bad = st.copy()
            I.event(bad, 'conv', name, None, (v,), F, e, x=tk)
            I.sink.append((bad, V('exc', 'std::bad_cast', None, L(bad.fresh()))))
            res = I.unkres(st, e)
            val = res
            if isinstance(val, tuple) and e.get('lv'):
                val = ptr(val)
            I.event(st, 'conv', name, None, (v, val), T, e, x=tk)
            return [(st, res)]
        f = I.p.fn(e['f']) if e.get('f') is not None else None
        if f is not None and 'harness' in f['file'] and f['sn'] == 'operator()':
            vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
            if len(vals) < len(f['ps']):
                pass
            ev = I.event(st, 'user', 'handler', obj, vals, VOID, e, x=[I.p.tk(q['t']) for q in f['ps']])
            return I.after_unknown(st, ev, VOID)
        return None


def commands(p, R):
    """[Exec override] of the classes deriving from Command that are not menus"""
    out = []
    for f in p.functions.values():
        if f.get('body') is None or not f.get('repo') or f.get('rec') is None or f.get('kind') == 'ctor':
            continue
        if f.get('sn') != 'Exec' or not f.get('virt'):
            continue
        rec = p.rec(f['rec'])
        if strip(rec['n']) == 'cli::Menu':
            continue
        if strip(rec['n']).startswith('cli::') and R.cmd['id'] in list(p.bases(rec['id'])):
            out.append(f)
    if not out:
        raise Anchor('no command classes')
    return out


def handler_types(p, rec):
    """(parameter types of the handler without the stream, kind)  from the class of the stored callable"""
    for fk, fl in p.allfields(rec['id']):
        tk = p.tk(fl['t'])
        if tk.k == 'lam' or (tk.k == 'rec' and p.rec(tk.rec).get('lam')):
            r = p.rec(tk.rec)
            for m in p.functions.values():
                if m.get('rec') == r['id'] and m['sn'] == 'operator()':
                    return fk, [p.tk(q['t']) for q in m['ps']][1:]
        if tk.k in ('fnptr', 'ptr'):
            t = tk.t.get('to')
            if t is not None and p.types[t]['k'] == 'func':
                return fk, ('fn', p.types[t])
    return None, None


def bare(s):
    s = s.strip()
    while True:
        t = s
        for q in ('const ', 'volatile '):
            if t.startswith(q):
                t = t[len(q):]
        for q in (' const', '&&', '&'):
            if t.endswith(q):
                t = t[:-len(q)].strip()
        if t == s:
            return s
        s = t


def targs(p, rec):
    for t in p.types:
        if t['k'] == 'rec' and t.get('r') == rec['id'] and t.get('a'):
            return t['a']
    raise Anchor('template arguments of ' + rec['n'])


def application(f):
    """a command of the application (not one of those the session defines for itself)"""
    return 'harness' in f['n'] or '(*)' in f['n']


def param_types(p, f):
    """the parameter types of the command, as the application declared them; None: free form"""
    rec = p.rec(f['rec'])
    fk, h = handler_types(p, rec)
    if isinstance(h, list):
        ts = [bare(t.t['s']) for t in h]
        return ts
    ts = []
    for a in targs(p, rec):
        if 't' in a:
            ts.append(bare(p.types[a['t']]['s']))
        for b in a.get('p', []):
            if 't' in b:
                ts.append(bare(p.types[b['t']]['s']))
    return ts[1:]


_runs = {}


def run_command(rep, p, R, f):
    k = (p.name, f['id'])
    if k not in _runs:
        st = State()
        st.store[('o', ('arg', 0))] = p.tk(f['ps'][0]['t']).sub('to').mk('TOKENS')
        st.le.append(L(1) - L(tokbase().len))
        st.store[('o', ('arg', 1), R.s_out)] = ptr(R.OUT)
        _runs[k] = runfn(rep, p, f, CmdPolicy(), st, ('o', 'C'))
    I, outs = _runs[k]
    rep.ran(I, outs)
    return I, outs


def tokindex(v):
    """n when v is the n-th token"""
    if isinstance(v, V) and v.k == 'seq' and len(v.a[0]) == 1:
        s = v.a[0][0]
        if s[0] == 's' and s[2] == L(0) and s[3] == L(s[1].len):
            k = s[1].key
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'el' and getattr(k[1], 'key', None) == 'TOKENS':
                i = L(k[2])
                if not i.t:
                    return i.c
    return None


def name_matches(st, R, C=('o', 'C')):
    """is token 0 the name of the command on this path?  True/False/None"""
    r = None
    for k, v in st.preds.items():
        if k[0] != 'seqeq':
            continue
        a, b = k[1], k[2]
        if {tokindex(a), tokindex(b)} >= {0}:
            other = b if tokindex(a) == 0 else a
            if isinstance(other, V) and other.k == 'seq' and len(other.a[0]) == 1 and other.a[0][0][0] == 's' and other.a[0][0][1].key == ('init', C + (R.c_name,)):
                r = v if r is None else r and v
    return r


def enabled_at(st, R, C=('o', 'C')):
    v = st.store.get(C + (R.c_enabled,))
    return None if v is None else st.decide(v)
