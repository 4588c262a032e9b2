"""
C07: histories of edits, reads and dumps against an executable model.
"""
import copy
import random

from .. import boxes, common, edits, lib, modelled, schema
from ..runner import Violation

N = {'quick': 180000, 'thorough': 2400000}
RULE = ('a case is a value of a random or shipped type, loaded or built, and a history of 1-14 edits (assign, replace, '
        'delete, append, at any depth, with natives, instances or loaded values) and reads; non-trivial when at least '
        'one edit was applied; distinct by (value, history)')
STEP = 'edits and reads'
STUB = 'nothing is stubbed; the client that edits is simulated'
ASSUMPTIONS = ['the model and the DER encoder in dst/schema.py and dst/edits.py are independent of the library']
WHAT = 'after a history of edits the value is not what the edits say'


def setup():
    lib.load_all()
    common.install_stdout()


def gen(rng, tier, i):
    if rng.random() < 0.06:
        return boxes.gen(rng, 'c07')
    case = edits.gen_case(rng, modelled.nodes())
    v = copy.deepcopy(case['v'])
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 14])):
        r = rng.random()
        if r < 0.55:
            op = edits.gen_edit(rng, case['node'], v)
            if op is None:
                continue
            edits.apply_model(case['node'], v, op)
        elif r < 0.9:
            op = edits.gen_read(rng, case['node'], v)
        elif r < 0.95:
            op = ['check', rng.randrange(1 << 16)]
        else:
            op = ['force']
        ops.append(op)
    if not any(o[0] not in ('read', 'check', 'force') for o in ops):
        return None
    case['ops'] = ops
    return case


def run(case, stats):
    if 'box' in case:
        return boxes.run(case, stats, WHAT)
    cache = {}
    node, v = case['node'], copy.deepcopy(case['v'])
    obj = edits.start(case, cache)
    n = 0
    for op in case['ops']:
        stats.add('steps')
        if op[0] == 'check':
            edits.check(obj, node, v, WHAT, random.Random(op[1]))
            continue
        edits.apply_obj(obj, node, v, op, cache)
        if op[0] not in ('read', 'force'):
            edits.apply_model(node, v, op)
            n += 1
            stats.add('edit:' + op[0])
            stats.seen('edit kinds by depth', (op[0], len(op[1])))
    edits.check(obj, node, v, WHAT, random.Random(case['rs']))
    if n:
        stats.seen('case', case)


def shrink(case):
    from ..subject import shrink_list
    if 'box' in case:
        yield from boxes.shrink(case)
        return
    for ops in shrink_list(case['ops']):
        yield dict(case, ops=ops)
    if case['start'] != 'load':
        yield dict(case, start='load')
