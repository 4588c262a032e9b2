"""
C13: the process dies and only a dump survives; the reloaded value against the model and the
value that lived on.
"""
import copy
import datetime
import random

from .. import boxes, common, corpus, eckeys, edits, lib, modelled, schema, subject, twins
from ..runner import Violation

N = {'quick': 140000, 'thorough': 1200000}
RULE = ('a case is a value (random or shipped type, structure or scalar), a history of edits and reads, and 1-3 moments at '
        'which the process dies after a dump and the value is reloaded; both go on; non-trivial when at least one reload '
        'happened; distinct by (value, history)')
STEP = 'operations'
STUB = 'process death and restart (only the dumped bytes survive)'
ASSUMPTIONS = ['the order of the members of a set-of is not part of its value']
WHAT = 'a value reloaded from its dump is not the value that was dumped'


def setup():
    lib.load_all()
    common.install_stdout()


# ------------------------------------------------------------------ generating

def gen(rng, tier, i):
    r = rng.random()
    if r < 0.25:
        return gen_scalar(rng)
    if r < 0.5:
        return gen_twin(rng)
    if r < 0.58:
        return gen_partial(rng)
    if r < 0.595:
        return eckeys.gen(rng, ['crash'])
    if r < 0.645:
        return boxes.gen(rng, 'c13')
    case = edits.gen_case(rng, modelled.nodes())
    node = case['node']
    sides = [copy.deepcopy(case['v'])]
    ops = []
    for _ in range(rng.choice([2, 3, 5, 8, 14])):
        r = rng.random()
        k = rng.randrange(len(sides))
        if r < 0.2 and len(sides) < 4:
            ops.append(['crash', k, rng.random() < 0.3])
            sides.append(edits.sorted_sets(node, copy.deepcopy(sides[k])))
        elif r < 0.7:
            op = edits.gen_edit(rng, node, sides[k])
            if op is None:
                continue
            who = [k]
            if not edits.passes_set(node, sides[k], op[1]):
                want = edits.sorted_sets(node, sides[k])
                who = [j for j in range(len(sides)) if j == k or edits.sorted_sets(node, sides[j]) == want]
            for j in who:
                edits.apply_model(node, sides[j], op)
            ops.append(['op', who, op])
        elif r < 0.95:
            ops.append(['op', [k], edits.gen_read(rng, node, sides[k])])
        else:
            ops.append(['check', k, rng.randrange(1 << 16)])
    if len(sides) == 1:
        ops.append(['crash', 0, False])
    case['ops'] = ops
    return case


def gen_partial(rng):
    """A structure that is filled in field by field by an application that may die before it is done"""
    if rng.random() < 0.3:
        node = rng.choice(modelled.nodes())[1]
        if node['k'] not in ('seq', 'set'):
            return None
        v = edits.gen_value(rng, node)
    else:
        node, v = schema.gen_root(rng)
    if node['k'] not in ('seq', 'set') or not v:
        return None
    v = edits.sorted_sets(node, v)
    if rng.random() < 0.4:
        # a part that is itself not finished
        holes = []
        for path, n, x in edits.walk(node, v):
            n = edits.deref(n)
            if path and n['k'] in ('seq', 'set') and not edits.passes_set(node, v, path):
                if 'dep' in n:
                    # some of these fill in the field that was left out
                    continue
                for f in n['fields']:
                    if f['name'] in x and len(x) > 1:
                        holes.append((path, f['name']))
        if holes:
            path, name = rng.choice(holes)
            v = copy.deepcopy(v)
            del edits.descend(node, v, path)[1][name]
    names = [f['name'] for f in node['fields'] if f['name'] in v]
    if 'dep' not in node:
        rng.shuffle(names)
    ops = []
    for name in names:
        ops.append(['put', name])
        if rng.random() < 0.4:
            ops.append(['read', rng.choice(['native', 'contents', 'dump', 'items', 'repr', 'copy'])])
        if rng.random() < 0.5 and not ('dep' in node and 'cls' in node):
            ops.append(['crash'])
    ops.append(['crash'])
    return {'partial': node, 'v': v, 'ops': ops, 'rs': rng.randrange(1 << 16)}


def missing(node, v):
    """Whether a required field is absent somewhere"""
    while 'inner' in node:
        node = node['inner']
    k = node['k']
    if k in ('seqof', 'setof'):
        return any(missing(node['of'], x) for x in v)
    if k == 'choice':
        return missing(schema.alt(node, v[0]), v[1])
    if k not in ('seq', 'set'):
        return False
    for f in node['fields']:
        if f['name'] in v:
            if missing(schema.resolve(node, f, v), v[f['name']]):
                return True
        elif not f.get('opt') and 'def' not in f:
            return True
    return False


def run_partial(case, stats):
    node, v = case['partial'], case['v']
    cache = {}
    cls = schema.build(node, cache)
    x = cls()
    have = {}
    rng = random.Random(case['rs'])
    stats.seen('case', case)
    for op in case['ops']:
        stats.add('steps')
        if op[0] == 'put':
            f = [g for g in node['fields'] if g['name'] == op[1]][0]
            have[op[1]] = v[op[1]]
            hole = missing(schema.resolve(node, f, v), v[op[1]])
            try:
                x[op[1]] = schema.to_py(schema.resolve(node, f, v), v[op[1]], None if hole else rng, cache)
            except common.REFUSED:
                if hole:
                    return
                raise
        elif op[0] == 'read':
            common.read(x, [], op[1])
        elif have:
            try:
                data = x.dump()
            except common.REFUSED as e:
                if not missing(node, have):
                    raise Violation(WHAT, 'a complete value can not be encoded: %r' % e, WHAT)
                stats.add('probe:unfinished value not encoded')
                continue
            stats.add('fault:death and reload')
            try:
                y = cls.load(data)
                nat = common.native_of(y)
            except common.REFUSED as e:
                raise Violation(WHAT, 'what was encoded before the value was finished does not load: %r' % e, WHAT)
            if missing(node, have):
                raise Violation(WHAT, 'a value without a required field was encoded as %s and loads as %r' % (data.hex(), nat), WHAT)
            edits.check(y, node, have, WHAT, rng)
            edits.check(x, node, have, WHAT, rng)


def gen_twin(rng):
    s = twins.gen_subject(rng)
    if 'node' in s:
        return None
    s.pop('v', None)
    if rng.random() < 0.4:
        s['start'] = 'build'
    try:
        found = common.nodes(subject.loader(s)(), 100)
    except common.REFUSED:
        return None
    corpus.entries()
    donor = rng.choice(corpus._by[s['cls']])['hex']
    if len(donor) > 4000:
        donor = s['hex']
    c = lib.core()
    byp = dict((tuple(p), v) for p, v in found)

    def history(n):
        out = []
        for _ in range(n):
            if rng.random() < 0.5:
                op = twins.gen_give(rng, found, True)
                if op and '#parsed' not in op[1]:
                    v = byp[tuple(op[1])]
                    if isinstance(v, c.Sequence) and v._fields and twins.governed(v, op[2]):
                        # its type is known only from fields that the edit leaves alone
                        continue
                    anc = [byp.get(tuple(op[1][:j])) for j in range(len(op[1]) + 1)]
                    if any(isinstance(a, c.SetOf) for a in anc):
                        continue
                    out.append(['edit', op])
            else:
                path, v = rng.choice(found)
                out.append(['read', list(path), rng.choice([o for o in common.ops_for(v) if o != 'eq'])])
        return out
    return {'twin': s, 'donor': donor, 'before': history(rng.choice([0, 0, 1, 2, 4])),
            'after': history(rng.choice([0, 1, 2, 4])), 'seed': rng.randrange(1 << 20)}


UTC = datetime.timezone.utc


def gen_scalar(rng):
    """A scalar that is built, set and read"""
    if rng.random() < 0.6:
        node = schema.gen_prim(rng)
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            r = rng.random()
            if r < 0.5 or not ops:
                ops.append(['set', schema.gen_value(rng, node)])
            elif r < 0.6 and node['k'] in ('bits', 'bitsmap'):
                ops.append(['bit', rng.choice(sorted(node['map'].values())) if 'map' in node else rng.randrange(12),
                            rng.random() < 0.5])
            elif r < 0.7 and node['k'] in ('utctime', 'gentime'):
                ops.append(['time', [rng.choice([1951, 1999, 2000, 2048]), rng.randint(1, 12), rng.randint(1, 28),
                                     rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)],
                            rng.choice([0, 0, 1, 1000, 123456, 999999, 500000]), rng.choice([0, 0, 60, -90, 330, 765])])
            elif r < 0.85:
                ops.append(['read', rng.randrange(1000)])
            else:
                ops.append(['crash'])
        return {'scalar': {'node': node}, 'ops': ops, 'seed': rng.randrange(1 << 20)}
    for _ in range(50):
        e = corpus.pick(rng, canonical=True, max_len=300)
        if e['cls'] in leaves():
            break
    else:
        return None
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        r = rng.random()
        if r < 0.55 or not ops:
            ops.append(['native', rng.choice(corpus._by[e['cls']])['hex']])
        elif r < 0.85:
            ops.append(['read', rng.randrange(1000)])
        else:
            ops.append(['crash'])
    return {'scalar': {'cls': e['cls'], 'hex': e['hex']}, 'ops': ops, 'seed': rng.randrange(1 << 20)}


_LEAVES = set()


def leaves():
    if not _LEAVES:
        c = lib.core()
        corpus.entries()
        for name in corpus._by:
            cls = lib.cls(name)
            if issubclass(cls, c.Primitive) or not issubclass(cls, (c.Sequence, c.SequenceOf, c.Choice, c.Any, c.Concat)):
                _LEAVES.add(name)
    return _LEAVES


# ------------------------------------------------------------------ running

def run(case, stats):
    if 'twin' in case:
        return run_twin(case, stats)
    if 'scalar' in case:
        return run_scalar(case, stats)
    if 'partial' in case:
        return run_partial(case, stats)
    if 'box' in case:
        return boxes.run(case, stats, WHAT)
    if 'eckeys' in case:
        return eckeys.run(case, stats, WHAT)
    cache = {}
    node = case['node']
    sides = [(edits.start(case, cache), copy.deepcopy(case['v']))]
    for op in case['ops']:
        stats.add('steps')
        if op[0] == 'crash':
            if op[1] >= len(sides):
                continue
            obj, v = sides[op[1]]
            data = obj.dump(force=op[2])
            new = schema.build(schema.strip_field_tag(node) if False else node, cache).load(data)
            x = edits.sorted_sets(node, copy.deepcopy(v))
            sides.append((new, x))
            stats.add('fault:death and reload')
            stats.seen('reloaded kinds', (node['k'], len(sides), len(case['ops'])))
        elif op[0] == 'check':
            if op[1] < len(sides):
                obj, v = sides[op[1]]
                edits.check(obj, node, v, WHAT, random.Random(op[2]))
        else:
            for j in op[1]:
                if j < len(sides):
                    obj, v = sides[j]
                    edits.apply_obj(obj, node, v, op[2], cache)
                    edits.apply_model(node, v, op[2])
    if len(sides) == 1:
        return
    stats.seen('case', case)
    rng = random.Random(case['rs'])
    order = list(range(len(sides)))
    rng.shuffle(order)
    for j in order:
        obj, v = sides[j]
        edits.check(obj, node, v, WHAT, rng)


def run_twin(case, stats):
    cache = {}
    s = case['twin']
    cls = subject.klass(s, cache)
    donor = bytes.fromhex(case['donor'])
    a = twins.start(s, cache)
    edited = False

    def do(x, item):
        if item[0] == 'edit':
            got = twins.perform(x, item[1], cls.load(donor))
            return type(got).__name__ if isinstance(got, Exception) else got
        if common.guesses(x, item[1], item[2]):
            # what an octet string stands for was replaced by an earlier edit
            return None
        return common.read(x, item[1], item[2])
    for item in case['before']:
        stats.add('steps')
        got = do(a, item)
        if item[0] == 'edit':
            edited = True
            if 'Error' in got:
                return
    try:
        data = a.dump()
        common.native_of(a)
    except common.REFUSED:
        return
    b = cls.load(data)
    stats.add('fault:death and reload')
    stats.seen('reloaded types', s['cls'])
    stats.seen('case', case)
    rng = random.Random(case['seed'])
    for item in case['after']:
        stats.add('steps')
        if item[0] == 'read':
            do(a if rng.random() < 0.5 else b, item)
            continue
        edited = True
        x, y = do(a, item), do(b, item)
        if 'Error' in x + y:
            return
        if x != y:
            raise Violation(WHAT, '%s on the live value: %s, on the reloaded: %s' % (item[1], x, y), WHAT)
    paths = [[]]
    for item in case['before'] + case['after']:
        p = item[1] if item[0] == 'read' else item[1][1]
        if '#parsed' not in p:
            paths.append(p)
    for path in paths:
        ops = ['dump', 'native', 'items']
        if not edited:
            try:
                ops += [o for o in common.ops_for(common.at(b, path)) if o.startswith('.') or o in (
                    'len', 'iter', 'int', 'bits', 'bytes', 'name', 'chosen')]
            except Exception:
                pass
        for op in ops:
            try:
                if op == 'items' and not common.is_container(common.at(b, path)):
                    continue
            except Exception:
                pass
            got, want = common.read(b, path, op), common.read(a, path, op)
            if got != want:
                raise Violation(WHAT, '%s of %s reloaded: %s, live: %s' % (op, path, str(got)[:500], str(want)[:500]), WHAT)


def run_scalar(case, stats):
    s = case['scalar']
    cache = {}
    cls = schema.build(s['node'], cache) if 'node' in s else lib.cls(s['cls'])
    x = None
    seen = []
    due = None
    for op in case['ops'] + [['crash']]:
        stats.add('steps')
        if op[0] in ('set', 'time', 'native', 'bit'):
            due = None
        if op[0] in ('set', 'time', 'native'):
            if op[0] == 'set':
                due = [schema.native(s['node'], op[1])]
                value = schema.to_py(s['node'], op[1])
            elif op[0] == 'time':
                tz = datetime.timezone(datetime.timedelta(minutes=op[3]))
                value = datetime.datetime(*op[1], microsecond=op[2], tzinfo=tz)
                # an UTCTime has no room for fractions
                due = [value.replace(microsecond=0) if s['node']['k'] == 'utctime' else value]
            else:
                value = cls.load(bytes.fromhex(op[1])).native
            try:
                if x is None:
                    x = cls(value)
                elif isinstance(x, lib.core().Null):
                    continue
                else:
                    x.set(value)
            except common.REFUSED:
                if op[0] == 'native':
                    return
                raise
        elif x is None:
            continue
        elif op[0] == 'bit':
            x[op[1]] = op[2]
        elif op[0] == 'read':
            ops = common.ops_for(x)
            common.read(x, [], ops[op[1] % len(ops)])
        else:
            data = x.dump()
            y = cls.load(data)
            ops = [o for o in common.ops_for(y) if o not in ('debug', 'repr', 'eq', 'contents', 'str') or
                   o == 'str' and isinstance(y, (lib.core().AbstractString, lib.core().ObjectIdentifier))]
            if isinstance(y, (lib.core().ParsableOctetString, lib.core().ParsableOctetBitString)):
                ops = ['dump', 'bytes', 'native']
            random.Random(case['seed']).shuffle(ops)
            for o in ops:
                got, want = common.read(y, [], o), common.read(x, [], o)
                if got != want:
                    raise Violation(WHAT, '%s reloaded: %s, live: %s' % (o, str(got)[:500], str(want)[:500]), WHAT)
            if schema.plain(x.native) != schema.plain(y.native):
                raise Violation(WHAT, 'native reloaded %r, live %r' % (y.native, x.native), WHAT)
            if due is not None and schema.norm(s['node'], y.native) != schema.norm(s['node'], due[0]):
                raise Violation(WHAT, 'native reloaded %r, set to %r' % (y.native, due[0]), WHAT)
            stats.add('fault:death and reload')
            seen.append(data.hex())
    stats.seen('case', case)
    stats.seen('reloaded types', s.get('cls') or s['node']['k'])


def shrink(case):
    if 'twin' in case:
        for key in ('before', 'after'):
            for ops in subject.shrink_list(case[key]):
                yield dict(case, **{key: ops})
        return
    if 'box' in case:
        yield from boxes.shrink(case)
        return
    if 'scalar' in case or 'partial' in case or 'eckeys' in case:
        for ops in subject.shrink_list(case['ops']):
            yield dict(case, ops=ops)
        return
    for ops in subject.shrink_list(case['ops']):
        old = [o for o in case['ops'] if o[0] == 'crash']
        new = [o for o in ops if o[0] == 'crash']
        if new == old[:len(new)]:
            yield dict(case, ops=ops)
    if case.get('start', 'load') != 'load':
        yield dict(case, start='load')
