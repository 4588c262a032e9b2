"""
C15: iterations that are suspended, interleaved, interrupted, closed or dropped half way.
"""
from .. import common, lib, sched, subject
from ..runner import Violation
from . import c11

N = {'quick': 12000, 'thorough': 500000}
RULE = ('a case is a value (all shipped classes, random types, a fifth damaged) and PEM texts, and 1-3 consumers that start, '
        'step, close, drop and finish 1-5 iterations over any of its containers or over the PEM texts, mixed with reads and '
        'copies of the value, as one interleaved history or as preempted threads; non-trivial when an iteration was left '
        'suspended while something else happened; distinct by (value, history)')
STEP = 'iteration steps and reads'
STUB = 'the order consumers are stepped in, thread preemption, asynchronous exceptions inside a step'
ASSUMPTIONS = ['each iteration must yield what a lone one over a freshly loaded value yields']
WHAT = 'an iteration depends on other readers'
FAULTS = ['KeyboardInterrupt', 'MemoryError']


def setup():
    lib.load_all()
    common.install_stdout()
    sched.install()


def iterable(v):
    c = lib.core()
    return isinstance(v, (c.Sequence, c.SequenceOf, c.Concat))


def gen(rng, tier, i):
    s = subject.gen(rng, damage=0.2, max_len=rng.choice([400, 800, 800, 4000]))
    load = subject.loader(s)
    try:
        found = common.nodes(load(), 100)
    except common.REFUSED:
        return None
    conts = [p for p, v in found if iterable(v)]
    pems = []
    if rng.random() < 0.2 or not conts:
        pems = [c11.gen(rng, tier, i)['files'][0] for _ in range(rng.choice([1, 2]))]
    threads = rng.random() < 0.3
    scripts = []
    focus = rng.choice(conts) if conts else None
    for _ in range(rng.choice([2, 2, 3]) if threads else 1):
        ops = []
        n = 0
        for _ in range(rng.choice([3, 6, 12, 20])):
            r = rng.random()
            if n == 0 or r < 0.2:
                if pems and (rng.random() < 0.4 or not conts):
                    ops.append(['pem', rng.randrange(len(pems))])
                else:
                    ops.append(['new', focus if rng.random() < 0.6 else rng.choice(conts)])
                n += 1
            elif r < 0.6:
                op = ['next', rng.randrange(n), rng.choice([1, 1, 1, 2, 5])]
                if rng.random() < 0.08:
                    op.append([rng.randint(1, rng.choice([20, 400])), rng.choice(FAULTS)])
                ops.append(op)
            elif r < 0.68:
                ops.append([rng.choice(['close', 'drop']), rng.randrange(n)])
            elif r < 0.76:
                ops.append(['rest', rng.randrange(n)])
            else:
                got = subject.gen_reads(rng, s, 1)
                if rng.random() < 0.4 and focus is not None:
                    got = [[focus, rng.choice(['iter', 'items', 'native', 'dump', 'len', 'copy', 'eq', 'contains'])]]
                    if got[0][1] == 'contains' and not hasattr(common.at(load(), focus), '__contains__'):
                        got = []
                if got:
                    ops.append(['read'] + got[0])
        scripts.append(ops)
    case = {'s': s, 'pems': pems, 'scripts': scripts, 'plan': []}
    if threads:
        lengths, hots = [], []
        for ops in scripts:
            case1 = dict(case, scripts=[[o[:3] if o[0] == 'next' else o for o in ops]])
            w = World(case1)
            c = w.consumers[0]
            c.run()
            w = World(case1)
            _, _, steps, _, hot = sched.run_counted(w.consumers[0].run, record_hot=True)
            lengths.append(steps)
            hots.append(hot)
        case['scripts'] = [[o[:3] if o[0] == 'next' else o for o in ops] for ops in scripts]
        case['plan'] = sched.gen_plan(rng, lengths, hots, rng.choice([1, 2, 3, 5, 8]))
    return case


class World(object):
    def __init__(self, case):
        self.load = subject.loader(case['s'])
        self.root = self.load()
        self.other = self.load()
        self.texts = [c11.build(p)[0] for p in case['pems']]
        self.consumers = [Consumer(self, i, ops) for i, ops in enumerate(case['scripts'])]


class Iteration(object):
    def __init__(self, it, key):
        self.it = it
        self.key = key
        self.got = []
        self.ended = None        # None, 'end', 'refused', 'interrupted', 'left'


class Consumer(object):
    def __init__(self, world, n, ops):
        self.w = world
        self.n = n
        self.ops = ops
        self.its = []
        self.reads = []
        self.suspended = 0

    def run(self):
        for op in self.ops:
            self.do(op)

    def do(self, op):
        kind = op[0]
        if kind in ('new', 'pem'):
            key = [kind, op[1]]
            try:
                if kind == 'new':
                    it = iter(common.at(self.w.root, op[1]))
                else:
                    it = lib.mod('pem').unarmor(self.w.texts[op[1]], multiple=True)
                self.its.append(Iteration(it, key))
            except common.REFUSED:
                x = Iteration(None, key)
                x.ended = 'refused'
                self.its.append(x)
        elif kind in ('next', 'rest'):
            x = self.its[op[1]]
            for _ in range(op[2] if kind == 'next' else 100000):
                if x.ended:
                    break
                if len(op) > 3:
                    got, err, _, fired, _ = sched.run_counted(lambda: step(x.it), op[3])
                    if fired:
                        x.ended = 'interrupted'
                        x.fault = op[3][1]
                        x.it = None
                        break
                    if err is not None:
                        raise err
                else:
                    got = step(x.it)
                if got[0] == 'item':
                    x.got.append(got[1])
                else:
                    x.ended = got[0]
        elif kind in ('close', 'drop'):
            x = self.its[op[1]]
            if not x.ended:
                if kind == 'close' and hasattr(x.it, 'close'):
                    x.it.close()
                x.it = None
                x.ended = 'left'
        else:
            self.suspended += sum(1 for x in self.its if not x.ended and x.got)
            self.reads.append((op[1], op[2], common.read(self.w.root, op[1], op[2], lambda: self.w.other)))


def item(x):
    c = lib.core()
    if isinstance(x, c.Asn1Value):
        return [type(x).__name__, common.outcome(lambda: x.native), common.outcome(x.dump)]
    return common.canon(x)


def step(it):
    try:
        return ['item', item(next(it))]
    except StopIteration:
        return ['end']
    except common.REFUSED:
        return ['refused']


class Lone(object):
    """What a lone iteration over a fresh value yields"""

    def __init__(self, world):
        self.w = world
        self.memo = {}

    def get(self, key):
        k = repr(key)
        if k not in self.memo:
            out = []
            try:
                if key[0] == 'new':
                    it = iter(common.at(self.w.load(), key[1]))
                else:
                    it = lib.mod('pem').unarmor(self.w.texts[key[1]], multiple=True)
                while True:
                    got = step(it)
                    if got[0] != 'item':
                        self.memo[k] = (out, got[0])
                        break
                    out.append(got[1])
            except common.REFUSED:
                self.memo[k] = (out, 'refused')
        return self.memo[k]


def run(case, stats):
    try:
        w = World(case)
    except common.REFUSED:
        return
    lone = Lone(w)
    expected = subject.Expected(w.load)
    for ops in case['scripts']:
        for op in ops:
            if op[0] == 'read':
                expected.get(op[1], op[2])
            elif op[0] in ('new', 'pem'):
                lone.get(op[:2])
    trail = []
    if len(w.consumers) > 1:
        sim = sched.Sim([c.run for c in w.consumers], case['plan']).run()
        stats.add('fault:preemption', len(sim.trail))
        trail = sim.trail
        for x in trail:
            stats.seen('preempted instructions', x[1:])
        for t in sim.threads:
            if t.error is not None:
                raise Violation(WHAT, 'consumer %d failed: %r, preemptions %s' % (t.tid, t.error, trail), WHAT)
    else:
        w.consumers[0].run()
    for c in w.consumers:
        stats.add('steps', len(c.ops))
        for x in c.its:
            want, end = lone.get(x.key)
            if x.ended == 'left':
                stats.add('fault:iteration abandoned')
            elif x.ended == 'interrupted':
                stats.add('fault:' + x.fault)
            full = x.ended in ('end', 'refused')
            if x.got != want[:len(x.got)] or full and (len(x.got) != len(want) or x.ended != end):
                raise Violation(WHAT, 'consumer %d, iteration over %s yielded %s (%s), a lone one %s (%s); preemptions %s'
                                % (c.n, x.key, str(x.got)[:700], x.ended, str(want)[:700], end, trail), WHAT)
        for path, op, got in c.reads:
            if not subject.agrees(expected, path, op, got):
                raise Violation(WHAT, 'consumer %d, %s of %s: got %s, fresh value gives %s; preemptions %s' % (
                    c.n, op, path, str(got)[:400], str(expected.get(path, op))[:400], trail), WHAT)
    if any(c.suspended for c in w.consumers) or trail or sum(len(c.its) for c in w.consumers) > 1:
        stats.seen('case', (case['s']['hex'], case['scripts'], case['plan']))
    # what the suspended iterations still hold must come out now
    for c in w.consumers:
        for x in c.its:
            if not x.ended:
                want, end = lone.get(x.key)
                while not x.ended:
                    got = step(x.it)
                    if got[0] == 'item':
                        x.got.append(got[1])
                    else:
                        x.ended = got[0]
                    if len(x.got) > len(want) + 2:
                        break
                stats.add('probe:resumed at the end')
                if x.got != want or x.ended != end:
                    raise Violation(WHAT, 'resumed iteration over %s yielded %s (%s), a lone one %s (%s)' % (
                        x.key, str(x.got)[:700], x.ended, str(want)[:700], end), WHAT)
    paths = []
    for c in w.consumers:
        for x in c.its:
            if x.key[0] == 'new' and x.key[1] not in paths:
                paths.append(x.key[1])
    subject.audit(w.root, expected, [[]], WHAT)
    subject.audit(w.root, expected, paths, WHAT, ops=('native', 'dump', 'iter', 'items'))


def shrink(case):
    for p in subject.shrink_list(case['plan']):
        yield dict(case, plan=p)
    for n, ops in enumerate(case['scripts']):
        for i in range(len(ops)):
            if ops[i][0] not in ('new', 'pem'):
                yield dict(case, scripts=case['scripts'][:n] + [ops[:i] + ops[i + 1:]] + case['scripts'][n + 1:])
        for i in range(len(ops)):
            if ops[i][0] in ('new', 'pem'):
                k = sum(1 for o in ops[:i] if o[0] in ('new', 'pem'))
                rest = []
                for o in ops[:i] + ops[i + 1:]:
                    if o[0] in ('next', 'rest', 'close', 'drop'):
                        if o[1] == k:
                            continue
                        if o[1] > k:
                            o = [o[0], o[1] - 1] + o[2:]
                    rest.append(o)
                yield dict(case, scripts=case['scripts'][:n] + [rest] + case['scripts'][n + 1:])
