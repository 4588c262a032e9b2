"""
C04: histories of reads in which some are interrupted at an arbitrary instruction.
"""
from .. import common, interp, lib, sched, subject
from ..runner import Violation

N = {'quick': 9000, 'thorough': 300000}
RULE = ('a case is a loaded value (all shipped classes, random types; a fifth damaged) and a history of 1-5 reads, of '
        'which 1-3 are interrupted by KeyboardInterrupt, MemoryError or RecursionError at one chosen instruction of the '
        'library; non-trivial when at least one interruption fired; distinct by (bytes, history, instruction)')
STEP = 'interpreter instructions executed in the library'
STUB = 'the moment of interruption (placed by instruction count); storage damage'
ASSUMPTIONS = ['an interruption is an exception raised between two interpreter instructions, as CPython delivers signals '
               'and failing allocations; interruptions inside one C-implemented operation are not simulated']
NAMES = ['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'RecursionError']


def setup():
    lib.load_all()
    common.install_stdout()


def replayed(load, events):
    """A value with a history of reads and interruptions"""
    root = load()
    for path, op, fault in events:
        perform(root, load, path, op, fault)
    return root


def perform(root, load, path, op, fault):
    return sched.run_counted(lambda: common.read(root, path, op, load), fault, record_hot=False)


def warm(load, events):
    root = load()
    for path, op, fault in events:
        common.read(root, path, op, load)


def gen(rng, tier, i):
    if rng.random() < 0.12:
        d = interp.gen(rng)
        return {'interp': d} if interp.place(rng, d) else None
    prop = None
    if rng.random() < 0.2:
        s, prop = subject.targeted(rng, damage=0.1)
    else:
        s = subject.gen(rng, odd=0.03, damage=0.2, rich=0.2, max_len=rng.choice([400, 400, 800, 800, 4000]))
    if 'faults' not in s and rng.random() < 0.25:
        subject.edited(rng, s)
    load = subject.loader(s)
    reads = subject.gen_reads(rng, s, rng.choice([1, 1, 2, 2, 3, 4, 5]))
    if not reads:
        return None
    if prop:
        reads[rng.randrange(len(reads))] = [[], prop]
        if rng.random() < 0.7:
            reads = reads[:2]
            reads[0] = [[], prop]
    events = [[p, o, None] for p, o in reads]
    warm(load, events)
    faulted = sorted(rng.sample(range(len(events)), min(len(events), rng.choice([1, 1, 1, 2, 3]))))
    for k in faulted:
        root = replayed(load, events[:k])
        path, op, _ = events[k]
        _, _, n, _, hot = sched.run_counted(lambda: common.read(root, path, op, load), record_hot=True)
        if n < 1:
            continue
        at = sched.pick_hot(rng, hot) if hot and rng.random() < 0.6 else rng.randint(1, n)
        events[k][2] = [at, rng.choice(NAMES)]
    if not any(e[2] for e in events):
        return None
    return {'s': s, 'events': events}


def run(case, stats):
    if 'interp' in case:
        return interp.run(case['interp'], stats)
    load = subject.loader(case['s'])
    expected = subject.Expected(load)
    events = case['events']
    try:
        warm(load, events)
        root = load()
        other = load()
    except common.REFUSED:
        return
    for path, op, fault in events:
        expected.get(path, op)
    for k, n in (case['s'].get('faults') or []):
        stats.add('fault:storage ' + k)
    where = []
    for n, (path, op, fault) in enumerate(events):
        result, error, steps, fired, _ = perform(root, lambda: other, path, op, fault)
        stats.add('steps', steps)
        if fired:
            stats.add('fault:' + fired[0][0])
            stats.seen('interrupted instructions', fired[0][1:])
            where.append((n, fired[0][1], fired[0][2]))
        if error is not None and not fired:
            raise Violation('a read after an interrupted one fails',
                            'read %d: %s of %s: %r (interruptions so far: %s)' % (n, op, path, error, where))
        if error is None and not (fired and result == ['raised', fired[0][0]]):
            if not subject.agrees(expected, path, op, result):
                raise Violation('a read after an interrupted one answers differently',
                                'read %d: %s of %s: got %s, fresh value gives %s (interruptions so far: %s)' % (
                                    n, op, path, str(result)[:400], str(expected.get(path, op))[:400], where))
    if where:
        stats.seen('case', (case['s']['hex'], events))
    paths = [[]]
    for path, op, fault in events:
        for j in range(len(path) + 1):
            if path[:j] not in paths:
                paths.append(path[:j])
    what = 'an interrupted read left a trace'
    try:
        for path, op, fault in events:
            got = common.read(root, path, op, lambda: other)
            if not subject.agrees(expected, path, op, got):
                raise Violation(what, 'repeated %s of %s: got %s, fresh value gives %s (interruptions: %s)' % (
                    op, path, str(got)[:400], str(expected.get(path, op))[:400], where), what)
        subject.audit(root, expected, paths, what)
        subject.audit(other, expected, paths, what)
        subject.audit(load(), expected, paths, what)
    except Violation as v:
        v.detail += ' (interruptions: %s)' % (where,)
        raise


def shrink(case):
    if 'interp' in case:
        for d in interp.shrink(case['interp']):
            yield {'interp': d}
        return
    for c in subject.shrink_pre(case):
        yield c
    ev = case['events']
    for r in subject.shrink_list(ev):
        if any(e[2] for e in r):
            yield dict(case, events=r)
    for i, e in enumerate(ev):
        if e[2] and sum(1 for x in ev if x[2]) > 1:
            yield dict(case, events=ev[:i] + [[e[0], e[1], None]] + ev[i + 1:])
