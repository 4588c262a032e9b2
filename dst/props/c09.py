"""
C09: copies taken at random moments of a history, then edits and reads on every side.
"""
import copy
import pickle
import random

from .. import boxes, common, eckeys, edits, lib, modelled, schema, subject, twins
from ..runner import Violation
from . import c10

N = {'quick': 120000, 'thorough': 1200000}
RULE = ('a case is a value of a random or shipped type and a history in which 1-4 copies (copy, deepcopy, shallow, pickle, '
        'retag, untag; of the value or of a part, also of copies) are taken between edits and reads of all sides; '
        'non-trivial when at least one copy was taken; distinct by (value, history)')
STEP = 'operations'
STUB = 'nothing is stubbed; the clients and the transport of pickles are simulated'
ASSUMPTIONS = ['a shallow copy shares its elements by definition, so only its own fields are edited afterwards',
               'shipped types without a model are compared with twins that were never copied']
WHAT = 'a copy differs from its original, or the two are not independent'

KINDS = ['copy', 'copy', 'deepcopy', 'pickle', 'pickle', 'untag', 'explicit', 'implicit', 'legacy', 'shallow', 'inlist', 'cast']
# an octet or bit string may be turned into one that is read in another way, and back
CASTS = {'octets': ['IntegerOctetString', 'ParsableOctetString'], 'bits': ['OctetBitString', 'IntegerBitString'],
         'bitsmap': ['OctetBitString', 'IntegerBitString'], 'obits': ['BitString', 'ParsableOctetBitString', 'IntegerBitString'],
         'ibits': ['BitString', 'OctetBitString']}


def setup():
    lib.load_all()
    common.install_stdout()


# ------------------------------------------------------------------ generating

def retagged(node, kind):
    """The node of a copy, or None where the library has no such copy"""
    t = node.get('t')
    if kind in ('explicit', 'implicit', 'legacy', 'untag'):
        if t and t['at'] == 'class' and kind != 'untag':
            return None
        if node['k'] == 'any':
            return None
        node = dict(schema.strip_field_tag(node))
        if kind == 'explicit':
            node['t'] = {'how': 'exp', 'tags': [[2, 7]], 'at': 'field'}
        elif kind == 'implicit' or kind == 'legacy':
            if node['k'] == 'choice':
                return None
            node['t'] = {'how': 'imp', 'tags': [[2, 5]], 'at': 'field'}
    return node


def gen(rng, tier, i):
    r = rng.random()
    if r < 0.3:
        return gen_twin(rng)
    if r < 0.42:
        return gen_ber(rng)
    if r < 0.435:
        return eckeys.gen(rng, rng.choice([['copy', 'deepcopy'], ['copy', 'deepcopy', 'pickle']]))
    if r < 0.48:
        return boxes.gen(rng, 'c09')
    case = edits.gen_case(rng, modelled.nodes())
    sides = [[case['node'], copy.deepcopy(case['v']), False]]
    ops = []
    copies = 0
    for _ in range(rng.choice([2, 3, 5, 8, 14])):
        r = rng.random()
        k = rng.randrange(len(sides))
        node, v, shallow = sides[k]
        if shallow == 'dead':
            continue
        if r < 0.3 and len(sides) < 5 or not copies and r < 0.5:
            kind = rng.choice(KINDS)
            path = []
            if rng.random() < 0.4:
                path = rng.choice(edits.walk(node, v))[0]
            if shallow or kind == 'shallow' and path:
                path = []
            if kind == 'cast':
                path = [p for p, n, _ in edits.walk(node, v) if edits.deref(n)['k'] in CASTS
                        and (edits.deref(n).get('t') or {}).get('at') != 'class']
                if not path or shallow:
                    continue
                path = rng.choice(path)
            n, x = edits.descend(node, copy.deepcopy(v), path)
            n = edits.deref(n)
            if kind == 'pickle' and (n['k'] == 'any' or 'inner' in n):
                # its type is known only to what contains it
                continue
            m = retagged(n, kind)
            if m is None:
                continue
            x = copy.deepcopy(x)
            if kind == 'pickle':
                x = edits.sorted_sets(m, x)
            edits.descend(node, v, path)
            sides.append([m, x, kind == 'shallow' or shallow])
            if kind == 'shallow':
                sides[k][2] = True
            ops.append(['copy', k, path, kind, rng.randrange(1 << 16)])
            copies += 1
        elif r < 0.75:
            op = edits.gen_edit(rng, node, v)
            if op is None or shallow and op[1]:
                continue
            edits.apply_model(node, v, op)
            ops.append(['op', k, op])
        elif r < 0.78 and copies and not shallow and len(sides) > 1:
            # the owner of this side changes everything in it in place; the others must not see it
            ops.append(['scribble', k, rng.randrange(1 << 16)])
            sides[k][2] = 'dead'
        elif r < 0.95:
            ops.append(['op', k, edits.gen_read(rng, node, v)])
        else:
            ops.append(['check', k, rng.randrange(1 << 16)])
    if not copies:
        return None
    case['ops'] = ops
    return case


def gen_ber(rng):
    """A value as a streaming producer wrote it, copied (whole or in part) between reads"""
    # nothing says how to re-encode an untyped structure
    deep, schema.GENERIC_DEPTH = schema.GENERIC_DEPTH, 0
    try:
        if rng.random() < 0.3:
            node = rng.choice(modelled.nodes())[1]
        elif rng.random() < 0.8:
            node, v = schema.gen_root(rng)
        else:
            node = schema.gen_prim(rng)
        if node['k'] == 'any':
            return None
        v = edits.gen_value(rng, node)
    finally:
        schema.GENERIC_DEPTH = deep
    opt = {}
    for o in c10.OPTS:
        if rng.random() < 0.5:
            opt[o] = rng.choice([0.1, 0.4, 0.9])
    counts = {}
    data = schema.ber_enc(node, v, rng, opt, counts)
    if not counts or c10.nesting(data)[0] > c10.LIMIT:
        return None
    sides = [(node, v)]
    ops = []
    for _ in range(rng.choice([1, 2, 4, 6])):
        k = rng.randrange(len(sides))
        n, x = sides[k]
        path = rng.choice(edits.walk(n, x))[0]
        if rng.random() < 0.5 and not edits.passes_set(n, x, path) or not ops:
            if edits.passes_set(n, x, path):
                path = []
            kind = rng.choice(['copy', 'copy', 'deepcopy', 'pickle', 'untag', 'explicit', 'implicit', 'inlist'])
            pn, px = edits.descend(n, copy.deepcopy(x), path)
            pn = edits.deref(pn)
            if kind == 'pickle' and (pn['k'] == 'any' or 'inner' in pn):
                continue
            m = retagged(pn, kind)
            if m is None:
                continue
            sides.append((m, copy.deepcopy(px)))
            ops.append(['copy', k, path, kind, rng.randrange(1 << 16)])
        else:
            op = rng.choice(c10.READS)
            pn = edits.deref(edits.descend(n, copy.deepcopy(x), path)[0])
            if op in ('len', 'iter', 'items') and pn['k'] not in ('seq', 'set', 'seqof', 'setof'):
                op = 'native'
            ops.append(['read', k, path, op])
    if len(sides) < 2:
        return None
    return {'ber': data.hex(), 'forms': counts, 'node': node, 'v': v, 'ops': ops, 'rs': rng.randrange(1 << 16)}


def run_ber(case, stats):
    node, v = case['node'], case['v']
    cls = schema.build(node, {})
    sides = [(cls.load(bytes.fromhex(case['ber'])), node, v)]
    for k, n in case['forms'].items():
        stats.add('fault:' + k, n)
    for op in case['ops']:
        stats.add('steps')
        if op[1] >= len(sides):
            continue
        obj, n, x = sides[op[1]]
        if op[0] == 'read':
            common.read(obj, op[2], op[3])
            continue
        pn, px = edits.descend(n, copy.deepcopy(x), op[2])
        pn = edits.deref(pn)
        sides.append((make_copy(common.at(obj, op[2]), op[3], op[4], pn['k']), retagged(pn, op[3]), px))
        stats.add('copies: ' + op[3])
        stats.seen('copied kinds', (op[3], pn['k'], len(op[2]), 'ber'))
    if len(sides) < 2:
        return
    stats.seen('case', (case['ber'], case['ops']))
    rng = random.Random(case['rs'])
    for turn in range(2):
        order = list(range(len(sides)))
        rng.shuffle(order)
        for k in order:
            obj, n, x = sides[k]
            who = 'copy' if k else 'original'
            nat = common.native_of(obj)
            if not edits.match(n, x, nat):
                raise Violation(WHAT, 'native of the %s is %r, the encoding means %s' % (who, nat, str(x)[:900]), WHAT)
            if turn or rng.random() < 0.5:
                got, want = obj.dump(force=True), schema.der(n, x)
                if got != want:
                    raise Violation(WHAT, 'forced dump of the %s is %s, DER is %s' % (who, got.hex()[:800], want.hex()[:800]), WHAT)


def gen_twin(rng):
    s = twins.gen_subject(rng)
    if 'node' in s:
        return None
    s.pop('v', None)
    try:
        root = subject.loader(s)()
        found = common.nodes(root, 100)
    except common.REFUSED:
        return None
    c = lib.core()
    kinds = ['copy', 'deepcopy', 'inlist', 'shallow']
    if not isinstance(root, c.Any):
        kinds += ['pickle', 'pickle']
    if not isinstance(root, (c.Any, c.Choice, c.Concat)) and not root.explicit and not root.implicit:
        kinds += ['untag', 'explicit', 'implicit']
    kind = rng.choice(kinds)
    from .. import corpus
    corpus.entries()
    donor = rng.choice(corpus._by[s['cls']])['hex']
    if len(donor) > 4000:
        donor = s['hex']

    def history(n, top=False):
        out = []
        for _ in range(n):
            if rng.random() < 0.55:
                op = twins.gen_give(rng, found[:1] if top else found, True)
                if op and '#parsed' not in op[1]:
                    out.append(['edit', op])
            else:
                path, v = rng.choice(found)
                names = [o for o in common.ops_for(v) if o not in ('eq',)]
                out.append(['read', list(path), rng.choice(names)])
        return out
    top = kind == 'shallow'
    after = [[rng.randrange(2), x] for x in history(rng.choice([1, 2, 4, 7]), top)]
    before = history(rng.choice([0, 0, 1, 2, 4]))
    if kind == 'pickle':
        # members of sets are sorted by it, and a value of a foreign type is taken for the declared one
        before = [x for x in before if x[0] == 'read']
    return {'twin': s, 'donor': donor, 'before': before, 'kind': kind, 'after': after,
            'seed': rng.randrange(1 << 20)}


# ------------------------------------------------------------------ running

def make_copy(x, kind, seed, k=None):
    if kind == 'copy':
        return x.copy()
    if kind == 'deepcopy':
        return copy.deepcopy(x)
    if kind == 'shallow':
        return copy.copy(x)
    if kind == 'inlist':
        two = copy.deepcopy([x, {'x': x}])
        if two[0] is not two[1]['x']:
            raise Violation(WHAT, 'copying a list that holds a value twice gives two values', WHAT)
        return two[0]
    if kind == 'pickle':
        return pickle.loads(pickle.dumps(x, seed % 6))
    if kind == 'cast':
        return x.cast(getattr(lib.core(), random.Random(seed).choice(CASTS[k]))).cast(type(x))
    if kind == 'untag':
        return x.untag()
    if kind == 'explicit':
        return x.retag({'explicit': 7})
    if kind == 'implicit':
        return x.retag({'implicit': 5})
    if kind == 'legacy':
        return x.retag('implicit', 5)
    raise AssertionError(kind)


def run(case, stats):
    if 'twin' in case:
        return run_twin(case, stats)
    if 'ber' in case:
        return run_ber(case, stats)
    if 'box' in case:
        return boxes.run(case, stats, WHAT)
    if 'eckeys' in case:
        return eckeys.run(case, stats, WHAT)
    cache = {}
    sides = [(edits.start(case, cache), case['node'], copy.deepcopy(case['v']))]
    copies = 0
    dead = set()
    for op in case['ops']:
        stats.add('steps')
        if op[1] >= len(sides):
            continue
        obj, node, v = sides[op[1]]
        if op[1] in dead:
            continue
        if op[0] == 'scribble':
            dead.add(op[1])
            stats.add('fault:owner changes everything inside its side in place', common.scribble(obj, random.Random(op[2])) and 1)
        elif op[0] == 'copy':
            path, kind = op[2], op[3]
            n, x = edits.descend(node, v, path)
            n = edits.deref(n)
            m = retagged(n, kind)
            x = copy.deepcopy(x)
            if kind == 'pickle':
                x = edits.sorted_sets(m, x)
            new = make_copy(common.at(obj, path), kind, op[4], n['k'])
            sides.append((new, m, x))
            copies += 1
            stats.add('copies: ' + kind)
            stats.seen('copied kinds', (kind, n['k'], len(path)))
        elif op[0] == 'check':
            edits.check(obj, node, v, WHAT, random.Random(op[2]))
        else:
            edits.apply_obj(obj, node, v, op[2], cache)
            edits.apply_model(node, v, op[2])
    if not copies:
        return
    stats.seen('case', case)
    rng = random.Random(case['rs'])
    order = list(range(len(sides)))
    rng.shuffle(order)
    for k in order:
        if k in dead:
            continue
        obj, node, v = sides[k]
        edits.check(obj, node, v, WHAT, rng)


READS = ('native', 'dump', 'len', 'iter', 'items', 'name', 'chosen')


def run_twin(case, stats):
    cache = {}
    s = case['twin']
    cls = subject.klass(s, cache)
    donor = bytes.fromhex(case['donor'])

    def do(x, item):
        if item[0] == 'edit':
            got = twins.perform(x, item[1], cls.load(donor))
            return type(got).__name__ if isinstance(got, Exception) else got
        if common.guesses(x, item[1], item[2]):
            # what an octet string stands for was replaced by an earlier edit
            return None
        return common.read(x, item[1], item[2])
    a, ta, tb = [twins.start(s, cache) for _ in range(3)]
    for item in case['before']:
        stats.add('steps')
        do(a, item)
        do(ta, item)
        do(tb, item)
    try:
        a.dump()
        ta.dump()
        tb.dump()
    except common.REFUSED:
        # edited into something that cannot be encoded
        return
    kind = case['kind']
    b = make_copy(a, kind, case['seed'])
    stats.add('copies: ' + kind)
    stats.seen('copied types', (s['cls'], kind))
    stats.seen('case', case)
    if kind in ('untag', 'explicit', 'implicit'):
        # tagging is the only difference
        pass
    for side, item in case['after']:
        stats.add('steps')
        x, t = (a, ta) if side == 0 else (b, tb)
        got, want = do(x, item), do(t, item)
        if item[0] == 'edit' and 'Error' in got + want:
            # not an edit that this value accepts; when that is noticed depends on what was read
            return
        if item[0] == 'edit' and got != want:
            raise Violation(WHAT, '%s on the %s: %s, on its uncopied twin: %s' % (
                item[1], ['original', 'copy'][side], got, want), WHAT)
        if item[0] == 'read' and item[2] in READS and (item[1] or side == 0 or kind not in ('untag', 'explicit', 'implicit')) \
                and got != want:
            raise Violation(WHAT, '%s of %s of the %s: %s, of its uncopied twin: %s' % (
                item[2], item[1], ['original', 'copy'][side], str(got)[:500], str(want)[:500]), WHAT)
    rng = random.Random(case['seed'])
    paths = [[]] + [x[1] for x in case['before'] if x[0] == 'read'] + [x[1][1] for x in case['before'] if x[0] == 'edit']
    for side, item in case['after']:
        paths.append(item[1] if item[0] == 'read' else item[1][1])
    sides = ((a, ta, 'original'), (b, tb, 'copy'))
    if kind != 'shallow' and rng.random() < 0.5:
        # one side is scribbled over, the other must not see it
        k = rng.randrange(2)
        common.scribble(sides[k][0], rng)
        sides = (sides[1 - k],)
        stats.add('fault:owner changes everything inside its side in place')
    for x, t, who in sides:
        for path in paths:
            for op in ('dump', 'native', 'items'):
                if x is b and not path and kind in ('untag', 'explicit', 'implicit') and op == 'dump':
                    op = 'untag'
                try:
                    if op == 'items' and not common.is_container(common.at(t, path)):
                        continue
                except Exception:
                    pass
                if common.guesses(t, path):
                    continue
                got, want = common.read(x, path, op), common.read(t, path, op)
                if got != want:
                    raise Violation(WHAT, '%s of %s of the %s: %s, of its uncopied twin: %s' % (
                        op, path, who, str(got)[:500], str(want)[:500]), WHAT)


def shrink(case):
    if 'box' in case:
        yield from boxes.shrink(case)
        return
    if 'eckeys' in case:
        for ops in subject.shrink_list(case['ops']):
            yield dict(case, ops=ops)
        return
    if 'twin' in case:
        for key in ('before', 'after'):
            for ops in subject.shrink_list(case[key]):
                yield dict(case, **{key: ops})
        return
    for ops in subject.shrink_list([o for o in case['ops']]):
        # copies keep their numbers, so only what is not a copy is dropped, or a trailing copy
        old = [o for o in case['ops'] if o[0] == 'copy']
        new = [o for o in ops if o[0] == 'copy']
        if new == old[:len(new)]:
            yield dict(case, ops=ops)
    if case.get('start', 'load') != 'load':
        yield dict(case, start='load')
