"""
C05: several simulated threads read one shared value under seeded schedules.
"""
from .. import common, lib, sched, subject
from ..runner import Violation

N = {'quick': 7000, 'thorough': 300000}
RULE = ('a case is a loaded value (all shipped classes, random types; a tenth damaged), 2-4 threads with 1-4 reads each '
        'and a plan of 1-8 preemptions placed by instruction count; non-trivial when at least one preemption happened; '
        'distinct by (value, reads, plan)')
STEP = 'interpreter instructions executed in the library'
STUB = 'the thread scheduler (preemption at any instruction of the library), locks; storage damage'
ASSUMPTIONS = ['threads are preempted between interpreter instructions, as the CPython GIL does',
               'dump(force=True) and edits are not reads']


def setup():
    lib.load_all()
    common.install_stdout()


def gen(rng, tier, i):
    prop = None
    if rng.random() < 0.4:
        s, prop = subject.targeted(rng, damage=0.05)
    else:
        s = subject.gen(rng, odd=0.03, damage=0.1, rich=0.3, max_len=rng.choice([400, 400, 800, 800, 4000]))
    if 'faults' not in s and rng.random() < 0.25:
        subject.edited(rng, s)
    load = subject.loader(s)
    n = rng.choice([2, 2, 2, 3, 4])
    pool = subject.gen_reads(rng, s, rng.choice([1, 2, 3, 6]))
    if not pool:
        return None
    if prop:
        pool = [[[], prop]] * len(pool) + (pool[:1] if rng.random() < 0.3 else [])
    threads = []
    for t in range(n):
        if t and rng.random() < 0.3:
            threads.append([list(r) for r in threads[0]])
        else:
            threads.append([rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 4]))])
    for reads in threads:
        root = load()
        for path, op in reads:
            common.read(root, path, op, load)
    lengths, hots = measure(load, threads)
    plan = sched.gen_plan(rng, lengths, hots, rng.choice([1, 1, 2, 2, 3, 5, 8]))
    return {'s': s, 'threads': threads, 'plan': plan}


def measure(load, threads):
    lengths, hots = [], []
    for reads in threads:
        root = load()
        other = load()
        _, _, n, _, hot = sched.run_counted(lambda: [common.read(root, p, o, lambda: other) for p, o in reads],
                                            record_hot=True)
        lengths.append(n)
        hots.append(hot)
    return lengths, hots


def run(case, stats):
    load = subject.loader(case['s'])
    expected = subject.Expected(load)
    threads = case['threads']
    try:
        root = load()
        other = load()
    except common.REFUSED:
        return
    for reads in threads:
        for path, op in reads:
            expected.get(path, op)
            expected.get(path, 'native')
    # all types were used once by now, so that instruction counts agree with those of gen()

    def body(reads):
        return lambda: [common.read(root, p, o, lambda: other) for p, o in reads]

    sim = sched.Sim([body(r) for r in threads], case['plan']).run()
    stats.add('steps', sum(t.steps for t in sim.threads))
    stats.add('fault:preemption', len(sim.trail))
    if sim.trail:
        stats.seen('case', (case['s']['hex'], threads, case['plan']))
        stats.seen('interleavings', sim.trail)
    for x in sim.trail:
        stats.seen('preempted instructions', x[1:])
    if sim.deadlock:
        raise Violation('readers block each other for ever', 'trail %s' % (sim.trail,))
    for t, reads in zip(sim.threads, threads):
        if t.error is not None:
            raise Violation('a concurrent read fails', 'thread %d: %r, trail %s' % (t.tid, t.error, sim.trail))
        for (path, op), got in zip(reads, t.result):
            if not subject.agrees(expected, path, op, got):
                raise Violation('a concurrent read answers differently than a lone one',
                                'thread %d: %s of %s: got %s, alone %s; preemptions %s' % (
                                    t.tid, op, path, str(got)[:400], str(expected.get(path, op))[:400], sim.trail))
    paths = [[]]
    for reads in threads:
        for path, op in reads:
            for j in range(len(path) + 1):
                if path[:j] not in paths:
                    paths.append(path[:j])
    what = 'after concurrent reads the value differs from a freshly loaded one'
    subject.audit(root, expected, paths, what)
    subject.audit(other, expected, paths, what)


def shrink(case):
    for c in subject.shrink_pre(case):
        yield c
    plan = case['plan']
    for p in subject.shrink_list(plan):
        yield dict(case, plan=p)
    th = case['threads']
    for i in range(len(th)):
        for r in subject.shrink_list(th[i]):
            if r or i:
                yield dict(case, threads=th[:i] + [r] + th[i + 1:])
