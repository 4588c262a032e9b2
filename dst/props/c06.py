"""
C06: first uses of types in a pristine process, preempted by each other or aborted.
"""
import json

from .. import common, corpus, fork, lib, sched, schema, shipped
from ..runner import Violation

N = {'quick': 2000, 'thorough': 50000}
RULE = ('a case is a forked process in which no type was used yet, 1-3 threads with 1-4 first uses each (load, build from '
        'native, name lookup, bare construction, named bits) of shipped or user-defined types that share classes, and '
        'preemptions or aborts placed by instruction count; non-trivial when at least one preemption or abort happened; '
        'distinct by (workload, plan)')
STEP = 'interpreter instructions executed in the library'
STUB = 'the thread scheduler and locks, the moment of aborts; each case runs in its own forked process'
ASSUMPTIONS = ['the reference is an identically prepared process in which the same first uses run alone and undisturbed']
NAMES = ['KeyboardInterrupt', 'MemoryError', 'RecursionError']


def setup():
    lib.load_all()
    common.install_stdout()
    sched.install()
    for code in sched.CODES:
        sched.hot_offsets(code)
    mapped()


_MAPPED = []


def mapped():
    """Shipped classes with named values (only their declarations are read)"""
    if not _MAPPED:
        core = lib.core()
        for path, c in shipped.classes():
            m = c.__dict__.get('_map')
            if m and issubclass(c, (core.ObjectIdentifier, core.Integer, core.BitString, core.Enumerated)):
                _MAPPED.append((path, sorted(m.items(), key=str)))
    return _MAPPED


def named_bits():
    core = lib.core()
    return [m for m in mapped() if issubclass(lib.cls(m[0]), core.BitString)]


def gen(rng, tier, i):
    nt = rng.choice([1, 1, 2, 2, 2, 3])
    targets = []
    pool = []
    r = rng.random()
    if r < 0.2:
        # types with named values: by name, by number, single bits
        for _ in range(rng.choice([1, 1, 2])):
            path, items = rng.choice(mapped() if rng.random() < 0.4 else named_bits())
            keys = [rng.choice(items) for _ in range(3)] + [items[-1], items[0]]
            for k, v in keys:
                pool.append(['set', path, v])
                pool.append(['unmap', path, v])
                pool.append(['bit', path, [x[1] for x in keys[:rng.choice([1, 2, 3])]], v])
            pool.append(['several', path, sorted(set(x[1] for x in keys))])
            pool.append(['map', path, keys[0][0]])
        if rng.random() < 0.6:
            pool = [op for op in pool if op[0] in ('set', 'bit', 'several')]
    elif r < 0.62:
        # related shipped types: the same value, the same class, or classes of one module
        e = corpus.pick(rng, max_len=1500)
        pool.append(['load', e['cls'], e['hex']])
        pool.append(['load', e['cls'], e['hex']])
        pool.append(['rebuild', e['cls'], e['hex']])
        pool.append(['bare', e['cls']])
        e2 = corpus.pick(rng, max_len=600)
        pool.append(['load', e2['cls'], e2['hex']])
        path, items = rng.choice(mapped())
        k, v = rng.choice(items)
        pool.append(['map', path, k])
        pool.append(['unmap', path, v])
        pool.append(['set', path, v])
    else:
        for _ in range(rng.choice([1, 1, 2])):
            node, v = schema.gen_root(rng)
            targets.append(node)
            t = len(targets) - 1
            pool.append(['load', t, schema.der(node, v).hex()])
            pool.append(['build', t, v])
            pool.append(['build', t, v])
            v2 = schema.gen_value(rng, node)
            pool.append(['load', t, schema.der(node, v2).hex()])
            pool.append(['build', t, v2])
            pool.append(['bare', t])
    if rng.random() < 0.35:
        # types the user derives from some of these, used next to them
        for op in list(pool):
            if isinstance(op[1], str) and rng.random() < 0.6:
                pool.append(derived(rng, op))
    threads = []
    for t in range(nt):
        if t and rng.random() < 0.4:
            threads.append(list(threads[0]))
        else:
            threads.append([rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 4]))])
    case = {'targets': targets, 'threads': threads, 'tries': []}
    m = fork.call(lambda: measure(case))
    if min(m['lengths']) < 2:
        return None
    for _ in range(5):
        plan, faults = [], []
        if nt > 1:
            plan = sched.gen_plan(rng, m['lengths'], m['hots'], rng.choice([1, 2, 3, 3, 5, 8]))
        if nt == 1 or rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 1, 2])):
                t = rng.randrange(nt)
                hot = m['hots'][t]
                at = sched.pick_hot(rng, hot) if hot and rng.random() < 0.7 else rng.randint(1, m['lengths'][t])
                faults.append([t, at, rng.choice(NAMES)])
        case['tries'].append([plan, faults])
    return case


def derived(rng, op):
    cls = lib.cls(op[1])
    core = lib.core()
    if op[0] in ('set', 'unmap', 'bit', 'several', 'map'):
        how = rng.choice(['map', 'map', 'plain'])
    elif issubclass(cls, core.Sequence) and cls._fields:
        how = rng.choice(['fields', 'plain'])
    else:
        how = 'plain'
    op = [op[0], 'sub:%s:%s' % (how, op[1])] + op[2:]
    if how == 'map':
        if op[0] in ('set', 'unmap'):
            op[2] += '_sub'
        elif op[0] in ('bit', 'several'):
            op[2] = [x + '_sub' for x in op[2]]
            if op[0] == 'bit':
                op[3] += '_sub'
    return op


def klass(case, t, cache):
    if isinstance(t, int):
        return schema.build(case['targets'][t], cache)
    if not t.startswith('sub:'):
        return lib.cls(t)
    if t not in cache:
        # only declares it
        _, how, path = t.split(':')
        base = lib.cls(path)
        body = {}
        if how == 'map':
            body['_map'] = dict((k, v + '_sub') for k, v in base._map.items())
        elif how == 'fields':
            body['_fields'] = list(base._fields) + [('extra', lib.core().Integer, {'explicit': 1077, 'optional': True})]
        cache[t] = type(base)('Sub', (base,), body)
    return cache[t]


def full(v):
    return [common.native_of(v), v.dump()]


def perform(case, op, cache):
    """One first use; gives its canonical answer"""
    kind = op[0]

    def do():
        if kind == 'build':
            node = case['targets'][op[1]]
            return full(schema.instance(node, op[2], None, cache))
        cls = klass(case, op[1], cache)
        if kind == 'load':
            return full(cls.load(bytes.fromhex(op[2])))
        if kind == 'rebuild':
            v = cls.load(bytes.fromhex(op[2]))
            n = common.native_of(v)
            return full(cls(n) if not isinstance(v, lib.core().Choice) else cls({v.name: v.chosen}))
        if kind == 'bare':
            v = cls()
            return [type(v).__name__, common.native_of(v), getattr(v, "tag", None), getattr(v, "class_", None), getattr(v, "explicit", None)]
        if kind == 'map':
            return cls.map(op[2])
        if kind == 'unmap':
            return cls.unmap(op[2])
        if kind == 'set':
            bits = issubclass(cls, lib.core().BitString)
            return full(cls(set([op[2]]) if bits else op[2]))
        if kind == 'several':
            bits = issubclass(cls, lib.core().BitString)
            return [full(cls(set(op[2])))] if bits else [full(cls(n)) for n in op[2]]
        if kind == 'bit':
            if not issubclass(cls, lib.core().BitString):
                return full(cls(op[3]))
            # What is looked at comes from elsewhere, only the reading is a use of the type
            keys = dict((v, k) for k, v in cls._map.items())
            bits = [0] * (max(cls._map) + 1)
            for n in op[2]:
                bits[keys[n]] = 1
            v = cls.load(lib.core().BitString(tuple(bits)).dump())
            return [v[op[3]], v[keys[op[3]]]]
        raise AssertionError(kind)

    def safe():
        try:
            return do()
        except (KeyError, AttributeError) as e:
            return ['raised', type(e).__name__]
    return common.outcome(safe)


def solo(case, ops):
    cache = {}
    return [perform(case, op, cache) for op in ops]


def measure(case):
    """Lengths of each thread's work when it is the first to run (children of this process)"""
    lengths, hots = [], []
    for ops in case['threads']:
        def one():
            cache = prebuilt(case)
            _, _, n, _, hot = sched.run_counted(lambda: [perform(case, op, cache) for op in ops], record_hot=True)
            return [n, hot]
        n, hot = fork.call(one)
        lengths.append(n)
        hots.append(hot)
    return {'lengths': lengths, 'hots': hots}


def prebuilt(case):
    """Declares the user's types without using them"""
    cache = {}
    for node in case['targets']:
        schema.build(node, cache)
    for op in all_ops(case):
        klass(case, op[1], cache)
    return cache


def all_ops(case):
    out = []
    for ops in case['threads']:
        for op in ops:
            if op not in out:
                out.append(op)
    return out


def reference(case, target):
    cache = prebuilt(case)
    return [[op, perform(case, op, cache)] for op in all_ops(case) if op[1] == target]


def simulate(case, plan, faults):
    cache = prebuilt(case)

    def body(ops):
        def go():
            res = []
            for op in ops:
                try:
                    res.append(perform(case, op, cache))
                except (sched.SimDeadlock, sched.SimAbort):
                    raise
                except BaseException as e:
                    res.append(['interrupted', type(e).__name__])
            return res
        return go
    sim = sched.Sim([body(o) for o in case['threads']], plan, faults).run()
    sched.watch(False)
    out = {'trail': sim.trail, 'fired': sim.fired, 'deadlock': sim.deadlock,
           'steps': sum(t.steps for t in sim.threads),
           'results': [t.result for t in sim.threads],
           'errors': [None if t.error is None else repr(t.error) for t in sim.threads]}
    if not sim.deadlock:
        out['after'] = [perform(case, op, cache) for op in all_ops(case)]
    return out


def run(case, stats):
    # each type is used alone in a process of its own
    ref = {}
    for t in sorted(set(op[1] for op in all_ops(case)), key=str):
        for op, r in fork.call(lambda: reference(case, t)):
            ref[json.dumps(op)] = r
    for plan, faults in case['tries']:
        attempt(case, ref, plan, faults, stats)


def attempt(case, ref, plan, faults, stats):
    sim = fork.call(lambda: simulate(case, plan, faults))
    stats.add('simulated runs')
    stats.add('steps', sim['steps'])
    stats.add('fault:preemption', len(sim['trail']))
    for f in sim['fired']:
        stats.add('fault:abort by ' + f[1])
        stats.seen('aborted instructions', f[2:])
    for t in sim['trail']:
        stats.seen('preempted instructions', t[1:])
    if sim['trail'] or sim['fired']:
        stats.seen('case', [case['threads'], plan, faults])
        stats.seen('interleavings', [sim['trail'], sim['fired']])
    where = 'preemptions %s, aborts %s' % (sim['trail'], sim['fired'])
    if sim['deadlock']:
        raise Violation('first uses block each other for ever', where)
    ops = all_ops(case)
    want = ref
    aborted = set(f[0] for f in sim['fired'])
    for t, (mine, got, err) in enumerate(zip(case['threads'], sim['results'], sim['errors'])):
        if err:
            raise Violation('a first use fails because of another one', 'thread %d: %s; %s' % (t, err, where))
        for op, g in zip(mine, got):
            if g == want[json.dumps(op)]:
                continue
            if t in aborted and g[0] in ('interrupted', 'raised') and g[1] in NAMES:
                continue
            raise Violation('a first use answers differently than an undisturbed one',
                            'thread %d: %s: got %s, undisturbed %s; %s' % (t, str(op)[:300], str(g)[:500],
                                                                           str(want[json.dumps(op)])[:500], where))
    for op, g in zip(ops, sim['after']):
        if g != want[json.dumps(op)]:
            raise Violation('a disturbed first use leaves a type broken',
                            'afterwards %s: got %s, undisturbed %s; %s' % (str(op)[:300], str(g)[:500],
                                                                           str(want[json.dumps(op)])[:500], where))


def shrink(case):
    from ..subject import shrink_list
    tries = case['tries']
    if len(tries) > 1:
        for t in tries:
            yield dict(case, tries=[t])
    for i, (plan, faults) in enumerate(tries):
        for p in shrink_list(plan):
            yield dict(case, tries=tries[:i] + [[p, faults]] + tries[i + 1:])
        for p in shrink_list(faults):
            yield dict(case, tries=tries[:i] + [[plan, p]] + tries[i + 1:])
    th = case['threads']
    for i in range(len(th)):
        for r in shrink_list(th[i]):
            if r:
                yield dict(case, threads=th[:i] + [r] + th[i + 1:])
