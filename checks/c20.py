"""C20: signals and the end of the input do not confuse the keyboard."""
from .kbd import *

META = {
    'technique': 'abstract interpretation of the keyboard thread against an exhaustive finite model of the results and errors of the system calls (select: ready, interrupted, failed; read: a character, end of file, interrupted, failed); typestate automaton over all its paths',
    'note': 'The macros on descriptor sets are turned into calls at extraction, so that the analysis sees which descriptors are waited for and tested.',
    'explanation': 'On every path of the thread function, whatever each system call returns: an interrupted wait or read is repeated with descriptors set again, nothing is notified or read because of it and it does not end the thread; '
                   'after the end or a failure of the input exactly one end of input is notified and nothing is waited for, read or notified any more; a stop request notifies nothing; each key notified was read.',
    'assumptions': ['the system calls behave as specified by POSIX'],
}
RULES = {'signals': 'a signal is neither input nor a stop request', 'ends': 'after the end of the input nothing is waited for or read', 'notified': 'the end of the input is notified once',
         'onekey': 'a key notified has been read'}


def check(rep, tier):
    p = prog()
    kb = keyboard(rep, p)
    for r, t in RULES.items():
        rep.rule(r, t)
    f, pol, I, outs = kb.thread
    w = (f['file'], f['l'], strip(f['n']))
    mon = Reading(rep, kb, RULES)
    reads = 0
    for s, fl in outs:
        ends = walk.run(mon, s)
        if fl == ('forever',):
            rep.bad('ends', *w, msg='the thread never ends: reading goes on after the end of the input', path=trace(s))
            continue
        reads += any(e.kind == 'read' for e, x, lp in all_events(s))
        for sel, inp, stop, prep, rd, keys, end, act, posted in ends:
            if end == 'the input has ended' and not posted:
                rep.bad('notified', *w, msg='the end of the input is not notified', path=trace(s))
            elif end:
                rep.ok('ends')
            elif sel in ('intr', 'timeout') or rd == 'intr':
                rep.bad('signals', *w, msg='a signal ends the reading of the keyboard', path=trace(s))
            elif end is None:
                rep.bad('ends', *w, msg='the reading of the keyboard ends although nothing asks for it', path=trace(s))
    if kb.parts or kb.unitruns:
        parts(kb, Reading(rep, kb, RULES))
    if not reads and not kb.parts:
        rep.und('onekey', 'the keyboard is read in a way not modelled')
