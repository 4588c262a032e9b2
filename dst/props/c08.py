"""
C08: edits that are refused, in the middle of histories of edits and reads; a twin is spared them.
"""
import copy
import random

from .. import common, lib, subject, twins
from ..runner import Violation

N = {'quick': 50000, 'thorough': 900000}
RULE = ('a case is a value of any shipped class or a random type, loaded or built, and a history of reads, valid edits and '
        '1-6 wrong ones (wrong types, corrupted natives, unset, damaged or mistagged objects, unknown names, bad indices); '
        'non-trivial when at least one edit was refused; distinct by (value, history)')
STEP = 'operations'
STUB = 'nothing is stubbed; the clients are simulated'
ASSUMPTIONS = ['an identical twin that sees the same history without the refused edits shows what the value must be like']
WHAT = 'a refused edit left traces'


def setup():
    lib.load_all()
    common.install_stdout()


def gen(rng, tier, i):
    s = twins.gen_subject(rng, 0.25)
    try:
        found = common.nodes(subject.loader(s)(), 100)
    except common.REFUSED:
        return None
    donor = None
    if 'node' in s:
        from .. import edits, schema
        donor = schema.der(s['node'], edits.gen_value(rng, s['node'])).hex()
    else:
        from .. import corpus
        corpus.entries()
        donor = rng.choice(corpus._by[s['cls']])['hex']
    if len(donor) > 4000:
        donor = s['hex']
    ops = []
    near = None
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.6 or not ops:
            op = twins.gen_junk(rng, found, near)
            if op is None:
                continue
            near = [x for x in found if x[0] == op[1]][0]
            ops.append(['junk', op])
        elif r < 0.75:
            op = twins.gen_give(rng, found)
            if op:
                ops.append(['edit', op])
        elif r < 0.9:
            path, v = near if near and rng.random() < 0.5 else rng.choice(found)
            names = [o for o in common.ops_for(v) if o != 'eq']
            ops.append(['read', list(path), rng.choice(names)])
        else:
            ops.append(['check', rng.randrange(1 << 16)])
    if not ops:
        return None
    return {'s': s, 'donor': donor, 'ops': ops, 'seed': rng.randrange(1 << 20)}


def run(case, stats):
    cache = {}
    rng = random.Random(case['seed'])
    a, b = twins.start(case['s'], cache), twins.start(case['s'], cache)
    donor = bytes.fromhex(case['donor'])
    cls = subject.klass(case['s'], cache)
    refused = []
    why = ''
    for op in case['ops']:
        stats.add('steps')
        if op[0] == 'junk':
            got = twins.perform(a, op[1])
            if got == 'skipped':
                # finding the place may have been the first look at something
                twins.perform(b, op[1], dry=True)
                continue
            if got == 'done':
                # it was acceptable after all
                stats.add('accepted')
                other = twins.perform(b, op[1])
                if other != 'done':
                    raise Violation(WHAT, '%s accepted%s, spared twin: %r' % (op[1], why, other), WHAT)
                if op[1][0] in ('set', 'bit', 'width') and op[1][1]:
                    if refused:
                        twins.compare(a, b, [op[1][1]], random.Random(7), WHAT, why)
                    # setting a scalar in place is not seen by what contains it
                    return
                continue
            twins.perform(b, op[1], dry=True)
            refused.append(op[1])
            why = 'after refused %s (%s)' % (op[1], str(got)[:100])
            stats.add('fault:refused ' + op[1][0])
            stats.seen('kinds of refused edit', (op[1][0], op[1][3] if op[1][0] == 'item' else op[1][2] if
                                                 op[1][0] in ('set', 'append') else '', type(got).__name__))
        elif op[0] == 'edit':
            x = twins.perform(a, op[1], cls.load(donor))
            y = twins.perform(b, op[1], cls.load(donor))
            if isinstance(x, Exception) != isinstance(y, Exception) or (x != y and not isinstance(x, Exception)):
                raise Violation(WHAT, 'later edit %s: %r %s, spared twin: %r' % (op[1], x, why, y), WHAT)
            stats.add('valid edits')
        elif op[0] == 'read':
            twins.same(a, b, op[1], op[2], WHAT, why)
        else:
            twins.compare(a, b, [[]], random.Random(op[1]), WHAT, why)
    if not refused:
        return
    stats.seen('case', case)
    paths = [[]]
    for op in refused:
        for j in range(len(op[1]) + 1):
            if op[1][:j] not in paths:
                paths.append(op[1][:j])
        if op[0] == 'item':
            paths.append(op[1] + [op[2]])
    rng.shuffle(paths)
    twins.compare(a, b, paths, rng, WHAT, why)
    twins.compare(a, b, paths, rng, WHAT, why)


def shrink(case):
    for ops in subject.shrink_list(case['ops']):
        yield dict(case, ops=ops)
    if case['s']['start'] != 'load':
        yield dict(case, s=dict(case['s'], start='load'))
