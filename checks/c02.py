"""C02: whatever a command throws is contained and reported once."""
from .cmds import *
from .c01 import EXEC, isoffer, wrongevent, offers
from engine import walk

META = {
    'technique': 'exceptional-path enumeration by abstract interpretation with a typestate monitor',
    'note': 'Every path of CliSession::Feed on which a command throws (std::exception, std::bad_cast or anything else) at any offer, and every path of every command class on which the handler '
            'throws. The exception handler and the stream are assumed not to throw themselves.',
    'explanation': 'Each call of a command may throw; the paths that follow must return normally from Feed, report exactly once to the right place and try nothing else. '
                   'Each command class must let the exceptions of its handler through unchanged.',
    'assumptions': ['the application\'s exception handler, wrong-command handler and streams do not throw'],
}


class ThrowPolicy(FeedPolicy):
    def __init__(self, kinds):
        self.kinds = kinds

    def throws(self, ev):
        return self.kinds if ev.kind in ('vcall', 'rec') else ()


def check(rep, tier):
    p = prog()
    R = roles(p)
    rep.rule('contained', 'an exception thrown by a command does not leave Feed')
    rep.rule('reported', 'a std::exception goes exactly once to the exception handler (stream, line, exception), or its description to the stream; any other is reported on the stream')
    rep.rule('nothing-else', 'after an exception no other command is tried and nothing is reported as a wrong command')
    rep.rule('transparent', 'a command lets every exception of its handler through (it is not taken for a failed conversion)')
    rep.rule('bad-cast', 'a std::bad_cast thrown by a handler is reported like any other std::exception')
    f = fn(p, 'cli::CliSession::Feed')
    for kinds in (('std::exception', 'other', 'std::bad_cast'),):
        st = R.session()
        st.store[('o', ('arg', 0))] = LINE
        I, outs = runfn(rep, p, f, ThrowPolicy(kinds), st, R.S)
        for s, fl in outs:
            feed_path(rep, R, f, s, fl)
        for u in I.ubs:
            if u[0] == 'terminate':
                rep.bad('contained', u[1]['file'], u[2], strip(u[1]['n']), 'an exception leaves a noexcept function: the program terminates', trace(u[3]))
    for g in commands(p, R):
        if not application(g):
            continue
        I, outs = run_command(rep, p, R, g)
        for s, fl in outs:
            command_path(rep, g, s, fl)


class AfterThrow(Monitor):
    init = False

    def __init__(self, rep, R):
        self.rep, self.R = rep, R

    def step(self, ms, ev, st):
        if ev.kind == 'throws':
            return (True,)
        if ms and ev.kind in ('vcall', 'rec') and isoffer(ev, self.R):
            self.rep.bad('nothing-else', ev.file, ev.line, ev.fn, 'another command is tried after a command threw', trace(st))
            return ()
        if ms and ev.kind == 'user' and wrongevent(self.R, ev, LINE) == 2:
            self.rep.bad('nothing-else', ev.file, ev.line, ev.fn, 'an exception is reported as a wrong command', trace(st))
            return ()
        return (ms,)


def feed_path(rep, R, f, s, fl):
    evs = s.events
    walk.run(AfterThrow(rep, R), s)
    ix = [i for i, e in enumerate(evs) if e.kind == 'throws']
    if not ix:
        if fl and fl[0] == 'throw':
            rep.und('contained', 'exception of unknown origin %r' % (fl[1],))
        return
    e = evs[ix[0]]
    exc, what = e.obj, e.name
    rest = evs[ix[0] + 1:]
    # rest of the path, loops included
    tail = []
    for x in rest:
        if x.kind == 'loop':
            for b in x.x.backs:
                tail += [y for y, _, _ in walk._flat(b.events, b.state)]
        else:
            tail.append(x)
    more = [x for x in tail if x.kind in ('vcall', 'rec') and isoffer(x, R)]
    wrong = [x for x in tail if wrongevent(R, x, LINE) == 2 and x.kind == 'user']
    if more:
        rep.bad('nothing-else', more[0].file, more[0].line, more[0].fn, 'another command is tried after a command threw', trace(s))
        return
    if wrong:
        rep.bad('nothing-else', wrong[0].file, wrong[0].line, wrong[0].fn, 'an exception is reported as a wrong command', trace(s))
        return
    rep.ok('nothing-else')
    if fl and fl[0] == 'throw':
        rep.bad('contained', e.file, e.line, e.fn, 'an exception (%s) thrown by a command leaves Feed' % what, trace(s))
        return
    rep.ok('contained')
    calls = [x for x in tail if x.kind == 'user' and isinstance(x.obj, V) and x.obj.k == 'fsym' and x.obj.a[0] == ('init', R.CLI + (R.k_exc,))]
    outs = [x for x in tail if x.kind == 'out' and x.obj == ptr(R.OUT)]
    other = [x for x in tail if x.kind == 'out' and x.obj != ptr(R.OUT)]
    where = (calls + outs + [e])[0]
    if what == 'other':
        if calls:
            rep.bad('reported', calls[0].file, calls[0].line, calls[0].fn, 'the exception handler gets something that is not a std::exception', trace(s))
        elif not outs:
            rep.bad('reported', *where_of(f, other), 'an exception of an unknown type is not reported on the stream of the session', trace(s))
        else:
            rep.ok('reported')
        return
    h = s.preds.get(('nonempty', V('fsym', ('init', R.CLI + (R.k_exc,)))))
    cut = [x for x in tail if x.kind == 'sliced']
    if cut and (calls or outs) and not any(x.kind == 'rethrow' for x in tail):
        rep.bad('reported', cut[0].file, cut[0].line, cut[0].fn, 'the exception is caught by value: what is reported is a copy of its base class, not what the command threw', trace(s))
        return
    if h is not False and not calls:
        rep.bad('reported', f['file'], f['l'], strip(f['n']), 'a %s thrown by a command is not passed to the exception handler' % what, trace(s))
    elif len(calls) > 1:
        rep.bad('reported', calls[1].file, calls[1].line, calls[1].fn, 'an exception is passed to the exception handler more than once', trace(s))
    elif calls:
        a = calls[0].args
        if len(a) >= 3 and a[0] == ptr(R.OUT) and a[1] == LINE:
            rep.ok('reported')
            if what == 'std::bad_cast':
                rep.ok('bad-cast')
        else:
            rep.bad('reported', calls[0].file, calls[0].line, calls[0].fn, 'the exception handler is not given the stream and the line as entered', trace(s))
    else:
        desc = [x for x in outs if any('what' in repr(a) for a in x.args)]
        if not outs:
            rep.bad('reported', f['file'], f['l'], strip(f['n']), 'an exception is not reported when no handler is set', trace(s))
        elif not desc:
            rep.bad('reported', outs[0].file, outs[0].line, outs[0].fn, 'the description of an exception is not printed', trace(s))
        else:
            rep.ok('reported')


def where_of(f, evs):
    return (evs[0].file, evs[0].line, evs[0].fn) if evs else (f['file'], f['l'], strip(f['n']))


def command_path(rep, g, s, fl):
    ts = [e for e in s.events if e.kind == 'throws']
    if not ts:
        return
    e = ts[0]
    if fl and fl[0] == 'throw' and fl[1] == e.obj:
        rep.ok('transparent')
    elif fl and fl[0] == 'throw':
        rep.bad('transparent', e.file, e.line, e.fn, 'an exception (%s) of a handler is replaced by another one' % e.name, trace(s))
    else:
        rep.bad('transparent', e.file, e.line, e.fn, 'a %s thrown by a handler is swallowed: the line is %s' % (e.name, 'accepted' if fl and fl[0] == 'ret' and s.decide(fl[1]) else 'reported as a wrong command or handed to another one'), trace(s))
