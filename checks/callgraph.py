"""Call sites of the analysed program."""
from .lib import *


def calls(n, out=None):
    """[(call node)] in a body, closures included"""
    if out is None:
        out = []
    if isinstance(n, list):
        for x in n:
            calls(x, out)
    elif isinstance(n, dict):
        if n.get('k') in ('mcall', 'call', 'ctor') and 'n' in n:
            out.append(n)
        for x in n.values():
            if isinstance(x, (dict, list)):
                calls(x, out)
    return out


def bodyof(f):
    return [f.get('body')] + [i for i in f.get('inits') or []]


_cg = {}


def graph(p):
    """{callee stripped name: [(caller function record, call node)]}"""
    if p.name not in _cg:
        g = {}
        for f in p.functions.values():
            if not f.get('repo') or f.get('body') is None or not lib(f):
                continue
            for c in calls(bodyof(f)):
                g.setdefault(strip(c['n']), []).append((f, c))
        _cg[p.name] = g
    return _cg[p.name]


def lib(f):
    return f['file'].startswith('cli/') or '/include/cli/' in f['file']


def entries(p, name, stop=()):
    """[(path of names, outermost caller record)] of the functions through which `name` is reached; the search does
    not go beyond the names in stop"""
    g = graph(p)
    out, seen, work = [], set(), [(name, (name,), None)]
    while work:
        n, path, f = work.pop()
        if n in seen:
            continue
        seen.add(n)
        if f is not None and n in stop:
            out.append((path, f))
            continue
        cs = [(c, x) for c, x in g.get(n, []) if strip(c['n']) != n]
        if not cs:
            if f is not None:
                out.append((path, f))
            continue
        for c, x in cs:
            work.append((strip(c['n']), path + (strip(c['n']),), c))
    return out
