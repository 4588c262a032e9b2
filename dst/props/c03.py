"""
C03: histories of reads over intact and damaged values, in every order.
"""
from .. import common, interp, lib, subject
from ..runner import Violation

N = {'quick': 70000, 'thorough': 400000}
RULE = ('a case is a loaded value (all shipped classes, random types; a third damaged by storage faults) and a history '
        'of 2-14 random reads over its whole tree; non-trivial when at least two reads touch it and the value loads; '
        'distinct by (bytes, history)')
STEP = 'reads'
STUB = 'storage (bit flips, lost, duplicated, zeroed and torn bytes); the order of reads'
ASSUMPTIONS = ['the answer of a read on a freshly loaded value is the reference answer (that it is right is C10/C20)',
               'declaring another type for an undetermined octet string or Any value is an interpretation, not a read']


def setup():
    lib.load_all()
    common.install_stdout()


def gen(rng, tier, i):
    if rng.random() < 0.08:
        return {'interp': interp.gen(rng)}
    prop = None
    if rng.random() < 0.15:
        s, prop = subject.targeted(rng, damage=0.35)
    else:
        s = subject.gen(rng, odd=0.06, damage=0.35, rich=0.2)
    if 'faults' not in s and rng.random() < 0.25:
        subject.edited(rng, s)
    reads = subject.gen_reads(rng, s, rng.randint(2, 14))
    if not reads:
        return None
    if prop:
        for k in range(len(reads)):
            if rng.random() < 0.4:
                reads[k] = [[], prop]
    return {'s': s, 'reads': reads}


def run(case, stats):
    if 'interp' in case:
        return interp.run(case['interp'], stats, 'a read of a value of undetermined type differs from a fresh value')
    load = subject.loader(case['s'])
    expected = subject.Expected(load)
    try:
        root = load()
        other = load()
    except common.REFUSED:
        stats.add('refused at load')
        return
    for k, n in (case['s'].get('faults') or []):
        stats.add('fault:storage ' + k)
    stats.seen('case', (case['s']['hex'], case['reads']))
    refused = 0
    for n, (path, op) in enumerate(case['reads']):
        stats.add('steps')
        got = common.read(root, path, op, lambda: other)
        if got == ['refused']:
            refused += 1
        if not subject.agrees(expected, path, op, got):
            want = expected.get(path, op)
            raise Violation('a read answers differently than on a freshly loaded value',
                            'read %d: %s of %s: got %s, fresh value gives %s' % (n, op, path, str(got)[:500],
                                                                                 str(want)[:500]))
        stats.seen('read kinds', (type(common.at(load(), [])).__name__.rstrip('0123456789'), op) if not path else op)
    if refused:
        stats.add('probe:history with a refused read')
    paths = [[]]
    for path, op in case['reads']:
        for j in range(len(path) + 1):
            if path[:j] not in paths:
                paths.append(path[:j])
    what = 'after a history of reads the value differs from a freshly loaded one'
    subject.audit(root, expected, paths, what)
    subject.audit(other, expected, paths, what)


def shrink(case):
    if 'interp' in case:
        for d in interp.shrink(case['interp']):
            yield {'interp': d}
        return
    for c in subject.shrink_pre(case):
        yield c
    for r in subject.shrink_list(case['reads']):
        yield dict(case, reads=r)
    for i, (path, op) in enumerate(case['reads']):
        if path:
            yield dict(case, reads=case['reads'][:i] + [[path[:-1], op]] + case['reads'][i + 1:])
