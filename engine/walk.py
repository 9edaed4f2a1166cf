"""Static monitors: finite automata run over the abstract event traces of the paths.

A loop summary stands for any number of its iterations: the automaton is run to a fixpoint over the
(partition, monitor state) pairs reachable at the loop head."""


class Monitor(object):
    init = None

    def step(self, ms, ev, st):
        """next monitor states (iterable)"""
        return (ms,)


def run_events(mon, events, states, st, depth=0):
    cur = set(states)
    for ev in events:
        if ev.kind == 'loop':
            cur = run_loop(mon, ev, cur, depth)
        else:
            nxt = set()
            for m in cur:
                r = mon.step(m, ev, st)
                if r is not None:
                    nxt.update(r)
            cur = nxt
        if not cur:
            break
    return cur


def run_loop(mon, ev, states, depth=0):
    info = ev.x
    leaving = ev.args if ev.args else (info.entry,)
    cache = mon.__dict__.setdefault('_loops', {})
    out = set()
    for m0 in states:
        k = (getattr(info, 'skey', None) or id(info), m0)
        reach = cache.get(k)
        if reach is None:
            seen = set([(info.entry, m0)])
            work = list(seen)
            while work:
                combo, m = work.pop()
                for b in info.backs:
                    if b.src != combo:
                        continue
                    for m2 in run_events(mon, b.events, (m,), b.state, depth + 1):
                        x = (b.dst, m2)
                        if x not in seen:
                            if len(seen) > 5000:
                                raise RuntimeError('monitor state space too large')
                            seen.add(x)
                            work.append(x)
            reach = cache[k] = (seen, info)
        out.update(m for c, m in reach[0] if c in leaving)
    return out


def run(mon, st, init=None):
    return run_events(mon, st.events, (mon.init,) if init is None else init, st)


def flat(events, f, st=None):
    """calls f(ev, state, inloop) on every event, those of the loop iterations included"""
    for ev in events:
        if ev.kind == 'loop':
            for b in ev.x.backs:
                for e2, s2, _ in _flat(b.events, b.state):
                    f(e2, s2, ev.x)
        else:
            f(ev, st, None)


def _flat(events, st, loop=None):
    for ev in events:
        if ev.kind == 'loop':
            for b in ev.x.backs:
                for r in _flat(b.events, b.state, ev.x):
                    yield r
        else:
            yield ev, st, loop


def all_events(st):
    """(event, state of the path it is on, innermost loop)"""
    return list(_flat(st.events, st))
