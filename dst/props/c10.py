"""
C10: producers that stream and spell values in other BER forms; histories of reads and dumps.
"""
import copy
import pickle
import random

from .. import ber, common, corpus, edits, lib, modelled, schema, subject
from ..runner import Violation

N = {'quick': 300000, 'thorough': 2500000}
RULE = ('a case is a value of a random or shipped type as a streaming producer wrote it (indefinite lengths, segments, long '
        'lengths, unsorted sets, spelled-out defaults, padded values, each with its own probability) and a history of 0-6 '
        'reads, copies and dumps; non-trivial when the bytes are not DER; distinct by (bytes, history)')
STEP = 'reads and dumps'
STUB = 'the producer of the bytes; the reader'
ASSUMPTIONS = ['the independent DER encoder in dst/schema.py',
               'definite-length constructed strings are refused by the library and not produced']
WHAT = 'a BER encoding does not mean the same as the DER one'

OPTS = ['indef', 'segments', 'longlen', 'padded', 'unsorted', 'spelled_default']
READS = ['native', 'native', 'dump', 'len', 'iter', 'items', 'repr', 'debug', 'contents', 'copy', 'eq', 'untag']


def setup():
    lib.load_all()
    common.install_stdout()
    # nothing says how to re-encode an untyped structure
    schema.GENERIC_DEPTH = 0


def restream(data, rng, opt, counts, pos=0, end=None):
    """The same elements as a streaming producer writes them, whatever their types are"""
    out = b''
    end = len(data) if end is None else end

    def hit(name):
        if rng.random() < opt.get(name, 0):
            counts[name] = counts.get(name, 0) + 1
            return True
        return False
    while pos < end:
        cls, cons, tag, cs, ce = element(data, pos)
        if cons:
            body = restream(data, rng, opt, counts, cs, ce)
            form = 'indef' if hit('indef') else rng.randint(1, 4) if hit('longlen') else None
            out += ber.tlv(cls, True, tag, body, form)
        elif cls == 0 and tag in (4, 12, 19, 22) and hit('segments'):
            out += schema.segments(cls, tag, {4: 'octets', 12: 'utf8', 19: 'printable', 22: 'ia5'}[tag], data[cs:ce], rng,
                                   lambda c: None, 0)
        else:
            form = rng.randint(1, 4) if hit('longlen') else None
            out += ber.tlv(cls, False, tag, data[cs:ce], form)
        pos = ce
    return out


def element(data, pos):
    b = data[pos]
    cls, cons, tag = b >> 6, bool(b & 0x20), b & 0x1f
    p = pos + 1
    if tag == 31:
        tag = 0
        while True:
            tag = tag << 7 | data[p] & 0x7f
            p += 1
            if not data[p - 1] & 0x80:
                break
    n = data[p]
    p += 1
    if n & 0x80:
        k = n & 0x7f
        n = int.from_bytes(data[p:p + k], 'big')
        p += k
    return cls, cons, tag, p, p + n


def nesting(data, pos=0, end=None, depth=0):
    """(the deepest nesting of indefinite lengths directly inside each other, where this level ends)"""
    worst = depth
    while end is None or pos < end:
        if data[pos:pos + 2] == b'\x00\x00' and end is None:
            return worst, pos + 2
        b = data[pos]
        p = pos + 1
        if b & 0x1f == 31:
            while data[p] & 0x80:
                p += 1
            p += 1
        n = data[p]
        p += 1
        if n == 0x80:
            w, pos = nesting(data, p, None, depth + 1)
            worst = max(worst, w)
            if depth == 0 and end is None:
                return worst, pos
            continue
        if n & 0x80:
            k = n & 0x7f
            n = int.from_bytes(data[p:p + k], 'big')
            p += k
        if b & 0x20:
            worst = max(worst, nesting(data, p, p + n, 0)[0])
        pos = p + n
        if depth == 0 and end is None:
            return worst, pos
    return worst, pos


LIMIT = 9


def gen_stream(rng):
    e = corpus.pick(rng, canonical=True, max_len=2000)
    der = bytes.fromhex(e['hex'])
    opt = {}
    for o in ('indef', 'longlen', 'segments'):
        if rng.random() < 0.6:
            opt[o] = rng.choice([0.1, 0.4, 0.9])
    counts = {}
    try:
        data = restream(der, rng, opt, counts)
        found = common.nodes(lib.cls(e['cls']).load(der), 400)
        if any(type(v) in (lib.core().Sequence, lib.core().Set) for _, v in found):
            # nothing says how to re-encode an untyped structure
            return None
        found = found[:60]
    except (IndexError,) + common.REFUSED:
        return None
    if data == der or nesting(data)[0] > LIMIT:
        return None
    ops = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        if rng.random() < 0.7:
            path, v = rng.choice(found)
            ops.append(['read', path, rng.choice([o for o in common.ops_for(v) if o != 'eq'])])
        else:
            ops.append(['become', rng.choice(['copy', 'deepcopy'])])
    return {'stream': e['cls'], 'der': e['hex'], 'hex': data.hex(), 'forms': counts, 'ops': ops,
            'paths': [p for p, v in rng.sample(found, min(4, len(found)))]}


def run_stream(case, stats):
    cls = lib.cls(case['stream'])
    der = bytes.fromhex(case['der'])
    for k, n in case['forms'].items():
        stats.add('fault:' + k, n)
    stats.seen('case', (case['hex'], case['ops']))
    stats.seen('streamed types', case['stream'])
    x, d = cls.load(bytes.fromhex(case['hex'])), cls.load(der)
    for op in case['ops']:
        stats.add('steps')
        if op[0] == 'read':
            common.read(x, op[1], op[2])
        else:
            x = x.copy() if op[1] == 'copy' else copy.deepcopy(x)
    for n in range(2):
        for path in [[]] + case['paths']:
            got, want = common.read(x, path, 'native'), common.read(d, path, 'native')
            if got != want:
                raise Violation(WHAT, 'native of %s is %s, of the DER encoding %s' % (path, str(got)[:600], str(want)[:600]),
                                WHAT)
        if n == 0 and '#parsed' not in str(case['paths']):
            for k in range(2):
                got = x.dump(force=True)
                if got != der:
                    raise Violation(WHAT, 'forced dump is %s, DER is %s' % (got.hex()[:900], der.hex()[:900]), WHAT)


def gen(rng, tier, i):
    if rng.random() < 0.3:
        return gen_stream(rng)
    shipped_nodes = modelled.nodes()
    if rng.random() < 0.35:
        path, node = rng.choice(shipped_nodes)
    elif rng.random() < 0.75:
        while True:
            node, v = schema.gen_root(rng)
            if node['k'] != 'any':
                break
    else:
        node = schema.gen_prim(rng)
    v = edits.gen_value(rng, node)
    opt = {}
    for o in OPTS:
        if rng.random() < 0.5:
            opt[o] = rng.choice([0.1, 0.4, 0.9])
    counts = {}
    data = schema.ber_enc(node, v, rng, opt, counts)
    if not counts or nesting(data)[0] > LIMIT:
        return None
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2, 4, 6])):
        r = rng.random()
        if r < 0.7:
            p, n, x = rng.choice(edits.walk(node, v))
            op = rng.choice(READS)
            if op in ('len', 'iter', 'items') and n['k'] not in ('seq', 'set', 'seqof', 'setof'):
                op = 'native'
            ops.append(['read', p, op])
        elif r < 0.8:
            p, n, x = rng.choice(edits.walk(node, v))
            if edits.passes_set(node, v, p):
                # which member is which depends on how the producer ordered them
                continue
            ops.append(['force', p])
        elif r < 0.9:
            ops.append(['become', rng.choice(['copy', 'pickle', 'deepcopy', 'reload'])])
        else:
            ops.append(['check'])
    return {'node': node, 'v': v, 'hex': data.hex(), 'forms': counts, 'ops': ops, 'rs': rng.randrange(1 << 16)}


def run(case, stats):
    if 'stream' in case:
        return run_stream(case, stats)
    cache = {}
    node, v = case['node'], case['v']
    data = bytes.fromhex(case['hex'])
    want = schema.der(node, v)
    if data == want:
        return
    for k, n in case['forms'].items():
        stats.add('fault:' + k, n)
    stats.seen('case', (case['hex'], case['ops']))
    stats.seen('forms', (sorted(case['forms']), node['k']))
    cls = schema.build(node, cache)
    x = cls.load(data)
    rng = random.Random(case['rs'])
    for op in case['ops']:
        stats.add('steps')
        if op[0] == 'read':
            common.read(x, op[1], op[2])
        elif op[0] == 'force':
            p, n, y = [w for w in edits.walk(node, v) if w[0] == op[1]][0]
            d = schema.der(n, y)
            got = common.at(x, p).dump(force=True)
            if got != d:
                raise Violation(WHAT, 'forced dump of %s is %s, DER is %s' % (p, got.hex()[:600], d.hex()[:600]), WHAT)
        elif op[0] == 'become':
            if op[1] == 'copy':
                x = x.copy()
            elif op[1] == 'deepcopy':
                x = copy.deepcopy(x)
            elif op[1] == 'pickle':
                x = pickle.loads(pickle.dumps(x))
            else:
                x = cls.load(x.dump())
        else:
            check_native(x, node, v, 'in the middle')
    if rng.random() < 0.5:
        check_native(x, node, v, 'before forcing')
    if rng.random() < 0.5 and indefinite(x):
        got = x.dump()
        if got != want:
            raise Violation(WHAT, 'dump of an indefinite-length value is %s, DER is %s' % (got.hex()[:600], want.hex()[:600]),
                            WHAT)
    for n in range(2):
        got = x.dump(force=True)
        if got != want:
            raise Violation(WHAT, 'forced dump is %s, DER is %s' % (got.hex()[:800], want.hex()[:800]), WHAT)
        check_native(x, node, v, 'after forcing')
    got = x.dump()
    if got != want:
        raise Violation(WHAT, 'dump after forcing is %s, DER is %s' % (got.hex()[:800], want.hex()[:800]), WHAT)


def indefinite(x):
    return bool(getattr(x, '_indefinite', False))


def check_native(x, node, v, when):
    nat = common.native_of(x)
    if not edits.match(node, v, nat):
        raise Violation(WHAT, 'native %s is %r, the DER encoding means %s' % (when, nat, str(v)[:1000]), WHAT)


def shrink(case):
    for ops in subject.shrink_list(case['ops']):
        yield dict(case, ops=ops)
