"""C12: recalling a command by number runs it as if it had been typed."""
from .roles import *
from . import callgraph

META = {
    'technique': 'abstract interpretation of the recall command over all its paths; call-graph query for who forgets a command',
    'note': 'The contents of the history are C10 and C11, the outcome of a fed line C01, the report of an exception C02; this check decides that the recall forgets itself, asks for exactly the number typed and feeds '
            'exactly the result once. Trusts the clang front end, the extractor and the library models.',
    'explanation': 'On every path of the handler of the recall command and of the function behind it: the newest entry is forgotten exactly once before anything is looked up; the entry looked up is the number given; '
                   'what was found is tokenised and recorded exactly once, unchanged, and nothing is after a failed look-up, whose error leaves the handler or is reported. Nothing but a handler of the session '
                   'forgets an entry.',
    'assumptions': [],
}
H = 'cli::detail::History::'
GONE = 'std::out_of_range'


class RecallPolicy(FeedPolicy):
    """the look-up of an entry may fail"""
    def hook(self, I, st, fr, name, e, obj, args):
        r = FeedPolicy.hook(self, I, st, fr, name, e, obj, args)
        if r is None and name == H + 'At':
            vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
            bad = st.copy()
            I.event(bad, 'ext', name, obj, vals, None, e)
            I.event(bad, 'throws', GONE, obj, vals, None, e)
            I.sink.append((bad, V('exc', GONE, None, L(bad.fresh()))))
            res = I.unkres(st, e)
            I.event(st, 'ext', name, obj, vals, res, e)
            return [(st, res)]
        return r


def check(rep, tier):
    p = prog()
    R = roles(p)
    rep.rule('forget', 'the recall itself is removed from the history, exactly once, before the entry is looked up')
    rep.rule('entry', 'the entry looked up is the one whose number was typed')
    rep.rule('feed', 'the entry found is handed to the session exactly once, unchanged')
    rep.rule('missing', 'when the number is not listed nothing is executed and the error is reported')
    rep.rule('only', 'no other command is forgotten')
    found = 0
    ctor = fns(p, 'cli::CliSession::CliSession')
    clos = []
    for f in ctor:
        I, outs = runfn(rep, p, f, FeedPolicy(), State(), R.S)
        for s, fl in outs:
            for c in closures(s):
                if c not in clos:
                    clos.append(c)
    seen = set()
    for c in clos:
        if c.a[0] in seen:
            continue
        seen.add(c.a[0])
        st = R.session()
        r = runclo(rep, p, c, RecallPolicy(), st)
        if r is None:
            continue
        f, I, outs = r
        if any(e.kind == 'ext' and e.name == H + 'At' for s, fl in outs for e, x, lp in all_events(s)):
            found += 1
            recall(rep, p, R, f, outs)
        elif any(e.kind == 'ext' and e.name == H + 'ForgetLatest' for s, fl in outs for e, x, lp in all_events(s)):
            rep.bad('only', f['file'], f['l'], strip(f['n']), 'a command that recalls nothing forgets the newest entry')
        else:
            rep.ok('only')
    if not found:
        f = ctor[0]
        rep.bad('entry', f['file'], f['l'], strip(f['n']), 'no command of the session looks up an entry of the history')
    # the public operations of a session: only the handlers of its commands forget
    for f in p.functions.values():
        if f.get('body') is None or not f.get('repo') or not strip(f['n']).startswith('cli::CliSession::'):
            continue
        if f.get('kind') == 'ctor' or f.get('access') != 0 or 'anonymous' in f['n'] or f['sn'].startswith('~'):
            continue
        direct = [c for c in callgraph.calls(callgraph.bodyof(f)) if strip(c['n']) == H + 'ForgetLatest']
        reach = [c for c in callgraph.calls(callgraph.bodyof(f))]
        if direct and f['sn'] in ('Feed', 'Exit', 'Prompt', 'Help', 'PreviousCmd', 'NextCmd', 'GetCompletions', 'Enter', 'ShowHistory', 'OutStream', 'Current', 'CurrentMenu'):
            rep.bad('only', f['file'], f['l'], strip(f['n']), 'forgets the newest entry of the history')
        else:
            rep.ok('only')


def recall(rep, p, R, f, outs):
    w = (f['file'], f['l'], strip(f['n']))
    ints = [i for i, q in enumerate(f['ps']) if p.tk(q['t']).k == 'int']
    hist = R.S + (R.s_hist,)
    for s, fl in outs:
        evs = [e for e, x, lp in all_events(s)]
        hs = [e for e in evs if e.kind == 'ext' and e.name.startswith(H)]
        other = [e for e in hs if not (isinstance(e.obj, V) and e.obj.k == 'ptr' and e.obj.a[0] == hist)]
        if other:
            rep.und('entry', 'history of another session')
            continue
        names = [e.name[len(H):] for e in hs]
        gets = [e for e in hs if e.name == H + 'At']
        # forgetting
        fg = names.count('ForgetLatest')
        if fg == 1 and (not gets or names.index('ForgetLatest') < names.index('At')) and ('NewCommand' not in names or names.index('ForgetLatest') < names.index('NewCommand')):
            rep.ok('forget')
        elif fg == 1 and gets:
            rep.bad('forget', *at(hs[names.index('ForgetLatest')]), msg='the recall is removed from the history after the entry has been looked up or run: it removes another command, or numbers shift', path=trace(s))
        elif not fg:
            rep.bad('forget', *w, msg='the recall itself stays in the history', path=trace(s))
        else:
            rep.bad('forget', *w, msg='%d entries are removed from the history' % fg, path=trace(s))
        if not gets:
            rep.bad('entry', *w, msg='nothing is looked up in the history', path=trace(s)) if fl[0] != 'throw' else rep.und('entry', 'throws')
            continue
        g = gets[-1]
        want = [p.tk(f['ps'][i]['t']).mk(('arg', i)) for i in ints]
        a = g.args[0] if g.args else None
        if not isinstance(a, Lin) or len(want) != 1:
            rep.und('entry', 'number')
        elif s.equal(a, want[0]):
            rep.ok('entry')
        elif [z for z in s.copy().assume(cmp_('!=', a, want[0]))]:
            rep.bad('entry', *at(g), msg='the entry looked up is not the one whose number was typed', path=trace(s))
        else:
            rep.und('entry', 'number')
        failed = any(e.kind == 'throws' and e.name == GONE for e in evs)
        split = [e for e in evs if e.kind == 'ext' and e.name == SPLIT]
        runs = [e for e in evs if e.kind in ('vcall', 'rec') and (e.name or '').endswith(('::Exec', '::ScanCmds'))]
        if failed:
            told = [e for e in evs if e.kind in ('out', 'user')]
            if split or runs or 'NewCommand' in names:
                rep.bad('missing', *at((split + runs + hs)[0]), msg='a line is run although the number is not listed', path=trace(s))
            elif fl[0] == 'throw' or told:
                rep.ok('missing')
            else:
                rep.bad('missing', *at(g), msg='the error is not reported when the number is not listed', path=trace(s))
            continue
        if fl[0] == 'throw':
            rep.und('feed', 'throws')
            continue
        res = g.res
        sp = [e for e in split if e.args and e.args[0] == res]
        if len(split) == 1 and len(sp) == 1:
            rep.ok('feed')
        elif not split:
            rep.bad('feed', *w, msg='the entry found is not run', path=trace(s))
        elif len(split) > 1:
            rep.bad('feed', *at(split[1]), msg='more than one line is run by a recall', path=trace(s))
        else:
            v = split[0].args[0]
            if isinstance(v, V) and v.k == 'seq' and isinstance(res, V) and (not set(bases(res)) & set(bases(v)) or s.can(cmp_('!=', seqlen(v.a[0]), seqlen(res.a[0])))):
                rep.bad('feed', *at(split[0]), msg='the line run is not the entry found', path=trace(s))
            else:
                rep.und('feed', 'line')
            continue
        nc = [e for e in hs if e.name == H + 'NewCommand']
        if any(e.args[0] != res for e in nc):
            rep.bad('feed', *at(nc[0]), msg='another line than the entry found is recorded', path=trace(s))
        elif len(nc) > 1:
            rep.bad('feed', *at(nc[1]), msg='the entry found is recorded more than once', path=trace(s))
        elif runs and not nc:
            rep.bad('feed', *at(runs[0]), msg='the entry found is run without being recorded like a typed line', path=trace(s))
        elif nc and runs and evs.index(nc[0]) > evs.index(runs[0]):
            rep.bad('feed', *at(nc[0]), msg='the entry found is recorded only after it was run', path=trace(s))
        else:
            rep.ok('feed')
