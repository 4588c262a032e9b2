"""
Histories of edits on a value and on its twin, which is spared some of them.  No model is
needed, so this runs on every shipped class.
"""
import copy
import datetime
import random

from . import common, corpus, edits, lib, schema, subject
from .runner import Violation


class Opaque(object):
    def __repr__(self):
        return 'Opaque'


UTC = datetime.timezone.utc

PLAIN = {
    'none': lambda r: None,
    'opaque': lambda r: Opaque(),
    'int': lambda r: r.choice([0, 1, 5, 7, 99, 255, 256]),
    'neg': lambda r: r.choice([-1, -128, -129]),
    'huge': lambda r: r.choice([1 << 70, -(1 << 70), 1 << 4000]),
    'float': lambda r: r.choice([1.5, float('nan'), 1e300]),
    'str': lambda r: r.choice(['', 'x', 'not a name', '1.2.3', '1', '0.40', '9.9', '1.2.x', '256.1.1.1/99', '20240230000000Z',
                               '1.2.840.113549.1.1.11', '2.5.4.3', 'rsa', '1.2.-3', '10.0.0.1', '::1', '::1/129', 'a@b@c',
                               'http://[', 'ctx\x00', 'unused', '2.999.1', '...', '.', '1..2']),
    'unicode': lambda r: r.choice(['\xe9', '\u4e2d', '\U0001f600', '\ud800', 'a@\u4e2d', 'http://\xe9/\u4e2d', 'x' * 70 + '.\xe9']),
    'bytes': lambda r: r.choice([b'', b'\x00', b'\xff\xff', b'x', b'\x30\x80', b'\x05\x00', b'\x02\x01\x05', b'\x08\x00']),
    'list': lambda r: r.choice([[], [None], [Opaque()], ['x'], [1, 2], [b'\xff'], [[]], [{}], [1, Opaque()], ['x', Opaque()]]),
    'dict': lambda r: r.choice([{}, {'nope': 1}, {0: 1}, {'version': Opaque()}, {'algorithm': 'nope'}, {'a': 1, 'b': 2}]),
    'tuple': lambda r: r.choice([(), (1,), (0, 1), (2, 3), (1, 2, 3), ('x', Opaque()), (Opaque(),), (0, 1, 0, 1, 5)]),
    'set': lambda r: r.choice([set(), set(['nope']), set([0]), set([99]), set([1, 'x'])]),
    'bool': lambda r: r.choice([True, False]),
    'datetime': lambda r: r.choice([datetime.datetime(2020, 1, 1), datetime.datetime(1800, 1, 1, tzinfo=UTC),
                                    datetime.datetime(2051, 2, 3, tzinfo=UTC), datetime.datetime(9999, 12, 31, 23, 59, 59,
                                    tzinfo=datetime.timezone(datetime.timedelta(hours=-14))),
                                    datetime.datetime(1, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=14))),
                                    datetime.date(2020, 1, 1), datetime.datetime(2020, 1, 1, 2, 3, 4, 5, tzinfo=UTC)]),
    'type': lambda r: r.choice([int, lib.core().Integer, Opaque]),
}
VALUES = {
    'integer': lambda r: lib.core().Integer(r.choice([0, 1, -1, 300])),
    'utf8': lambda r: lib.core().UTF8String('x'),
    'octets': lambda r: lib.core().OctetString(r.choice([b'', b'\x05\x00', b'abc'])),
    'oid': lambda r: lib.core().ObjectIdentifier(r.choice(['1.2.3', '2.5.4.3', '1.2.840.113549.1.1.1'])),
    'nullv': lambda r: lib.core().Null(),
    'void': lambda r: lib.core().Void(),
    'novalue': lambda r: lib.core().NoValue(),
    'anyv': lambda r: lib.core().Any(lib.core().Integer(3)),
    'untyped': lambda r: lib.core().Sequence.load(b'\x30\x03\x02\x01\x05'),
    'unsetseq': lambda r: lib.core().Sequence(),
    'unset': lambda r: r.choice([lib.core().Integer, lib.core().OctetString, lib.core().Set, lib.core().UTCTime])(),
}
KINDS = sorted(PLAIN) + sorted(VALUES) + ['corrupt'] * 10 + ['corpus'] * 3 + ['blank'] * 2 + ['tagged', 'choice', 'choice',
                                                                                             'damaged', 'damaged', 'damaged']


def corrupt(r, nat, depth=0):
    """A native value with one leaf of it made unacceptable"""
    if isinstance(nat, dict) and nat and r.random() < 0.95:
        out = copy.copy(nat)
        k = r.choice(list(nat))
        x = r.random()
        if x < 0.12:
            del out[k]
        elif x < 0.2:
            out['no such field'] = 1
        else:
            out[k] = corrupt(r, nat[k], depth + 1)
        return out
    if isinstance(nat, list) and nat and r.random() < 0.9:
        out = list(nat)
        i = r.randrange(len(out))
        x = r.random()
        if x < 0.3:
            out.append(junk_leaf(r))
        else:
            out[i] = corrupt(r, nat[i], depth + 1)
        return out
    if isinstance(nat, (set, frozenset)):
        return set(nat) | set(['no such bit'])
    if isinstance(nat, tuple) and nat:
        return nat + (r.choice([2, 'x', None]),)
    if isinstance(nat, str) and r.random() < 0.5:
        return nat + r.choice(['\u4e2d', '\xe9', '\ud800', '.', '.x', '\x00'])
    return junk_leaf(r)


def junk_leaf(r):
    return PLAIN[r.choice(['opaque', 'opaque', 'float', 'str', 'unicode', 'bytes', 'int', 'neg', 'none', 'datetime', 'dict',
                           'list'])](r)


def junk(kind, seed, old, sub):
    """The value a user wrongly assigns.  old is what is there now (or None)"""
    r = random.Random(seed)
    c = lib.core()
    if kind in PLAIN:
        return PLAIN[kind](r)
    if kind in VALUES:
        return VALUES[kind](r)
    if kind == 'corrupt':
        return corrupt(r, copy.deepcopy(old.native) if isinstance(old, c.Asn1Value) else old)
    if kind == 'corpus':
        e = corpus.pick(r, max_len=300)
        x = lib.cls(e['cls']).load(bytes.fromhex(e['hex']))
        # a bit string has an answer for every bit, so taking it for a list never ends
        return Opaque() if isinstance(x, c.BitString) else x
    if kind == 'blank':
        # an object of the right type to which nothing was ever assigned
        cls = type(old) if isinstance(old, c.Asn1Value) else c.Sequence
        if issubclass(cls, c.Choice):
            return cls
        return cls()
    if kind == 'damaged':
        # an object of the right type whose inside rotted
        if not isinstance(old, c.Asn1Value) or isinstance(old, (c.Void, c.Concat)):
            return Opaque()
        data, faults = subject.damaged(r, old.untag().dump() if not isinstance(old, (c.Choice, c.Any)) else old.dump())
        return type(old).load(data)
    if kind == 'tagged':
        x = VALUES[r.choice(['integer', 'utf8', 'octets'])](r)
        return type(x)(x.native, explicit=r.choice([0, 1, 5]))
    if kind == 'choice':
        names = ['nope']
        if isinstance(old, c.Choice):
            names += [a[0] for a in old._alternatives]
        name = r.choice(names)
        x = PLAIN[r.choice(sorted(PLAIN))](r)
        form = r.choice(['tuple', 'dict', 'dict2', 'tuple3'])
        if form == 'tuple':
            return (name, x)
        if form == 'dict':
            return {name: x}
        if form == 'dict2':
            return {name: x, 'other': 1}
        return (name, x, 1)
    raise AssertionError(kind)


# ------------------------------------------------------------------ the subject

def gen_subject(rng, ber_prob=0):
    ber = rng.random() < ber_prob
    s = subject.gen(rng, damage=0, max_len=1500, schema_prob=0.4, ber_prob=0.9 if ber else 0, canonical=not ber)
    s['start'] = rng.choice(['load', 'load', 'native', 'copy', 'build'])
    s['rs'] = rng.randrange(1 << 16)
    return s


def start(s, cache):
    cls = subject.klass(s, cache)
    how = s['start']
    if how == 'build' and 'node' in s:
        return schema.instance(schema.strip_field_tag(s['node']), s['v'], random.Random(s['rs']), cache)
    x = cls.load(bytes.fromhex(s['hex']))
    if how in ('native', 'build'):
        common.native_of(x)
        if how == 'build' and not isinstance(x, (lib.core().Any, lib.core().Concat)):
            # made by the application from natives where that is possible
            try:
                x = rebuilt(x)
            except Exception:
                pass
    elif how == 'copy':
        x = x.copy()
    return x


def rebuilt(x):
    c = lib.core()
    cls = type(x)
    if isinstance(x, c.Choice):
        return cls(name=x.name, value=x.chosen.copy())
    if isinstance(x, c.Sequence) and x._fields:
        out = cls()
        for name in x:
            if not isinstance(x[name], c.Void):
                out[name] = x[name].copy()
        return out
    if isinstance(x, c.SequenceOf):
        out = cls([])
        for y in x:
            out.append(y.copy())
        return out
    return cls(x.native)


# ------------------------------------------------------------------ edits

def gen_junk(rng, found, near=None):
    """A wrong edit somewhere in the tree; found = common.nodes of the value as generated"""
    c = lib.core()
    if near and rng.random() < 0.3:
        path, v = near
    else:
        path, v = rng.choice(found[:1] * 3 + found)
    seed = rng.randrange(1 << 20)
    kind = rng.choice(KINDS)
    if isinstance(v, c.Sequence) and v._fields:
        names = [f[0] for f in v._fields]
        r = rng.random()
        if r < 0.3 and hasattr(v, 'set_key_size'):
            return ['width', path, rng.choice([0, 1, 20, 28, 31, 32, 48, 66])]
        if r < 0.6:
            return ['item', path, rng.choice(names), kind, seed]
        if r < 0.7:
            return ['item', path, rng.choice(['nope', 99, -1, -99, None, 1.5, len(names)]), kind, seed]
        if r < 0.75:
            return ['item', path, rng.randrange(len(names)), kind, seed]
        return ['del', path, rng.choice(names + ['nope', 99, -1, len(names)])]
    if isinstance(v, c.SequenceOf) or isinstance(v, c.Sequence):
        n = len(v)
        r = rng.random()
        if r < 0.45 and isinstance(v, c.SequenceOf):
            return ['append', path, kind, seed]
        if r < 0.75:
            return ['item', path, rng.choice(list(range(n)) + [n, -1, 99, 'x', None]), kind, seed]
        return ['del', path, rng.choice([n, 99, -99, 'x', None, n + 1])]
    if isinstance(v, c.Concat):
        return ['item', path, rng.choice([0, 1, 2, -1, 'x']), kind, seed]
    if isinstance(v, c.BitString) and rng.random() < 0.4:
        return ['bit', path, rng.choice(['nope', -1, -99, None, 1.5, 5000]), bool(seed & 1)]
    if isinstance(v, c.IntegerOctetString) and rng.random() < 0.4:
        return ['width', path, rng.choice([0, 1, 2, 8, 32, 70, -1, None])]
    if isinstance(v, (c.Choice, c.Any)):
        if path and rng.random() < 0.8:
            return ['item', path[:-1], path[-1], kind, seed] if not str(path[-1]).startswith('#') else None
        return None
    return ['set', path, kind, seed]


def perform(root, op, donor=None, dry=False):
    """-> 'done', 'skipped' or the exception.  dry only looks at what is there, as the edit does first"""
    kind = op[0]
    c = lib.core()
    try:
        target = common.at(root, op[1])
    except Exception:
        return 'skipped'
    if kind == 'item':
        try:
            old = target[op[2]]
        except Exception:
            old = None
        try:
            value = junk(op[3], op[4], old, target)
        except Exception:
            return 'skipped'
    elif kind == 'append':
        try:
            old = target[0] if len(target) else None
            value = junk(op[2], op[3], old, target)
        except Exception:
            return 'skipped'
    elif kind == 'set':
        try:
            value = junk(op[2], op[3], target, target)
        except Exception:
            return 'skipped'
    elif kind == 'give':
        try:
            value = common.at(donor, op[1] + [op[2]])
            if isinstance(value, c.Void):
                return 'skipped'
            value = common.native_of(value) if op[3] == 'native' else value.copy() if op[3] == 'copy' else value
        except Exception:
            return 'skipped'
    if dry:
        return 'skipped'
    try:
        if kind in ('item', 'give'):
            target[op[2]] = value
        elif kind == 'append':
            target.append(value)
        elif kind == 'del':
            del target[op[2]]
        elif kind == 'set':
            target.set(value)
        elif kind == 'bit':
            target[op[2]] = op[3]
        elif kind == 'width':
            target.set_key_size(op[2]) if isinstance(target, c.Sequence) else target.set_encoded_width(op[2])
        else:
            raise AssertionError(kind)
    except Exception as e:
        return e
    return 'done'


def governs(v, key):
    """Whether a field decides the type of another one"""
    if v._oid_pair and v._oid_pair[0] == key:
        return True
    return bool(v._spec_callbacks) and key not in v._spec_callbacks


def governed(v, key):
    """Whether the type of a field is decided by another one, or open"""
    if v._oid_pair and v._oid_pair[1] == key or key in (v._spec_callbacks or {}):
        return True
    c = lib.core()
    spec = [f for f in v._fields if f[0] == key][0][1]
    return issubclass(spec, (c.Any, c.ParsableOctetString, c.ParsableOctetBitString))


def gen_give(rng, found, independent=False):
    """A valid edit: what another value of the class has in the same place"""
    c = lib.core()
    spots = [(p, v) for p, v in found if common.is_container(v) and len(v)]
    if not spots:
        return None
    path, v = rng.choice(spots)
    if isinstance(v, c.Sequence) and v._fields:
        key = rng.choice([f[0] for f in v._fields])
        if independent and governs(v, key):
            return None
    else:
        key = rng.randrange(len(v))
    return ['give', path, key, rng.choice(['copy', 'copy', 'native', 'same'])]


# ------------------------------------------------------------------ comparing

def same(a, b, path, op, what, why):
    x = common.read(a, path, op)
    y = common.read(b, path, op)
    if x != y:
        raise Violation(what, '%s of %s %s: %s, spared twin: %s' % (op, path, why, str(x)[:500], str(y)[:500]), what)


def compare(a, b, paths, rng, what, why, count=4):
    for path in paths:
        # even finding a place may be the first look at something, so both are asked
        try:
            common.at(a, path)
        except Exception:
            pass
        try:
            y = common.at(b, path)
        except Exception:
            continue
        ops = common.ops_for(y)
        if isinstance(y, lib.core().Asn1Value) and not isinstance(y, lib.core().Void):
            some = ['dump', 'native'] + rng.sample(ops, min(count, len(ops)))
            rng.shuffle(some)
            for op in some:
                if op == 'eq':
                    continue
                same(a, b, path, op, what, why)
