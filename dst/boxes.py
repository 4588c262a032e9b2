"""
Boxes: values whose content is opaque or addressed piecewise - parsable octet and bit strings, Any, Concat, and bit strings
with named bits.  Every side (the live value, its reloads and copies) has a model of its own.
"""
import copy
import pickle
import random

from . import ber, common, lib
from .runner import Violation

# encoding, DER, native without a spec
PAY = [
    ('020105', '020105', 5), ('0201ff', '0201ff', -1), ('02020100', '02020100', 256), ('0101ff', '0101ff', True),
    ('0500', '0500', None), ('0400', '0400', b''), ('0c00', '0c00', ''), ('0403616263', '0403616263', b'abc'), ('0c026869', '0c026869', 'hi'),
    ('06032a0304', '06032a0304', '1.2.3.4'), ('02810105', '020105', 5), ('0482000161', '040161', b'a'),
    ('3006020101020102', '3006020101020102', {'0': 1, '1': 2}), ('3000', '3000', {}),
    ('30810602010102 0102'.replace(' ', ''), None, {'0': 1, '1': 2}),
    ('31810602010102 0102'.replace(' ', ''), None, {'0': 1, '1': 2}),
    ('3103020107', '3103020107', {'0': 7}), ('3182000502030100 00'.replace(' ', ''), None, {'0': 65536}),
]
# exact type of a payload, by its first octet
EXACT = {0x02: 'Integer', 0x01: 'Boolean', 0x05: 'Null', 0x04: 'OctetString', 0x0c: 'UTF8String', 0x06: 'ObjectIdentifier'}
# a Null that is missing can not be told from one that is there
SPECS = [t for t in EXACT if t != 5]
# object identifiers in unusual spellings, and what is none
ARCS = ['1.2.3', '2.999.1', '0.39', '1.2.03', '01.2.3', '1.2.840.113549', '1.2.3', '2.100.3', '1.2.-3', '1.-2.3', '-1.2', '1', '0', '2',
        '7', '3.4.5', '1.40', '', '1.', '.1', 'nil', '1.2.x', '1.2.+3', ' 1.2.3', 'named', '1.3.6.1']
ARCMAPS = [None, {'1.2.3': 'named'}, {'1.3.6.1': 'named', '2.100.3': 'other'}, {'1.2.3': 'named', '1.3.6.1': 'nil'}]
JUNK = ['', '00', 'ff', '0205', '30800201']
NAMES = [{0: 'a', 1: 'b', 3: 'd'}, {0: 'a', 2: 'c', 5: 'f', 9: 'j'}, {1: 'b'}, dict((i, 'n%d' % i) for i in range(9))]
TAGS = [None, ['explicit', 3], ['implicit', 5], ['explicit', 40]]
MARKS = {'c07': [], 'c09': ['copy', 'deepcopy', 'pickle', 'shallow'], 'c13': ['crash']}


def cls_of(case):
    c = lib.core()
    w = case['box']
    if w in ('poct', 'pbit', 'any'):
        return {'poct': c.ParsableOctetString, 'pbit': c.ParsableOctetBitString, 'any': c.Any}[w]
    from . import schema
    name = 'Box_%s_%s' % (w, '_'.join(str(x) for x in case['type']))
    if not hasattr(schema.DYN, name):
        if w == 'arcs':
            m = ARCMAPS[case['type'][0]]
            cls = type(name, (c.ObjectIdentifier,), dict({'_map': dict(m)} if m else {}, __module__='dst_dyn'))
        elif w == 'holder':
            ints = type(name + '_ints', (c.SequenceOf,), {'_child_spec': c.Integer, '__module__': 'dst_dyn'})
            setattr(schema.DYN, name + '_ints', ints)
            where, tag = case['type']
            field = ('a', c.Any) if tag is None else ('a', c.Any, {'explicit': tag})
            cls = type(name, (c.Set if where == 'set' else c.Sequence,), {
                '_fields': [('n', c.Integer, {'implicit': 7}), field], '__module__': 'dst_dyn', 'ints': ints})
            if where in ('seq', 'of'):
                setattr(schema.DYN, name + '_in', cls)
                cls.__name__ = cls.__qualname__ = name + '_in'
                body = {'_fields': [('h', cls)]} if where == 'seq' else {'_child_spec': cls}
                body.update({'__module__': 'dst_dyn', 'ints': ints})
                cls = type(name, (c.Sequence if where == 'seq' else c.SequenceOf,), body)
        elif w == 'named':
            cls = type(name, (c.BitString,), {'_map': dict(NAMES[case['type'][0]]), '__module__': 'dst_dyn'})
        else:
            cls = type(name, (c.Concat,), {'_child_specs': [getattr(c, s) for s in case['type']], '__module__': 'dst_dyn'})
        setattr(schema.DYN, name, cls)
    return getattr(schema.DYN, name)


# ------------------------------------------------------------------ generating

def gen(rng, marks):
    w = rng.choice(['poct', 'poct', 'pbit', 'named', 'named', 'any', 'concat', 'holder', 'holder', 'arcs'])
    case = {'box': w, 'rs': rng.randrange(1 << 16)}
    marks = MARKS[marks]
    if w in ('poct', 'pbit'):
        case['tag'] = rng.choice(TAGS)
        case['start'] = rng.choice(['build', 'load', 'indef', 'parsed', 'empty'])
        case['v'] = rng.randrange(len(PAY))
        edit = lambda: ['set', rng.choice(JUNK) if rng.random() < 0.15 else PAY[rng.randrange(len(PAY))][0]]
        reads = ['bytes', 'native', 'dump', 'parsed', 'parsed', 'exact', 'any', 'debug', 'force', 'eq', 'repr', 'untag']
    elif w == 'named':
        m = rng.randrange(len(NAMES))
        case['type'] = [m]
        case['start'] = rng.choice(['build', 'load', 'longer'])
        case['v'] = bits(rng, m)
        def edit():
            r = rng.random()
            if r < 0.3:
                return ['setbits', bits(rng, m)]
            if r < 0.45:
                return ['unknown', bits(rng, m), rng.choice(['zzz', 'A', ''])]
            if r < 0.55:
                n = rng.choice([1, 3, max(NAMES[m]) + 1])
                return ['tuple', [rng.randrange(2) for _ in range(min(n, max(NAMES[m]) + 1))]]
            return ['bit', rng.choice(sorted(NAMES[m].values())) if rng.random() < 0.6 else rng.randrange(14),
                    rng.random() < 0.6]
        reads = ['native', 'dump', 'getbits', 'force', 'eq', 'repr', 'getbad', 'setbad']
    elif w == 'any':
        case['v'] = rng.randrange(len(PAY))
        case['start'] = rng.choice(['load', 'load', 'build'])
        edit = lambda: ['parse', rng.choice(['none', 'exact', 'any'])]
        reads = ['native', 'dump', 'parsed', 'debug', 'repr', 'deep']
    elif w == 'arcs':
        case['type'] = [rng.randrange(len(ARCMAPS))]
        case['start'] = rng.choice(['build', 'load'])
        case['v'] = rng.choice(['1.2.3', '1.3.6.1', '2.100.3', '2.5.4.3'])
        edit = lambda: ['arcs', rng.choice(ARCS)]
        reads = ['native', 'dump', 'force', 'dotted', 'repr', 'eq', 'debug']
    elif w == 'holder':
        case['type'] = [rng.choice(['flat', 'set', 'seq', 'of']), rng.choice([None, None, 1])]
        if case['type'][0] == 'set':
            # an element of a set is found by its tag
            case['type'][1] = 1
        case['start'] = rng.choice(['build', 'load', 'load'])
        case['v'] = rng.randrange(len(PAY)) if rng.random() < 0.2 else [rng.randrange(300) for _ in range(rng.choice([0, 1, 2, 3]))]
        def edit():
            r = rng.random()
            if r < 0.15:
                return ['n', rng.randrange(300)]
            if r < 0.3:
                return ['all', [rng.randrange(300) for _ in range(rng.choice([0, 1, 2]))], rng.choice(['any', 'ints', 'raw'])]
            if r < 0.4:
                return ['other', rng.randrange(len(PAY))]
            return [rng.choice(['append', 'put', 'del']), rng.randrange(4), rng.randrange(300)]
        reads = ['native', 'dump', 'force', 'debug', 'repr', 'ints', 'parsed', 'contents']
    else:
        case['type'] = [EXACT[rng.choice(SPECS)] for _ in range(rng.choice([1, 2, 2, 3]))]
        n = len(case['type'])
        case['v'] = [payload(rng, s) for s in case['type']]
        case['start'] = rng.choice(['build', 'load', 'load'])
        if case['start'] == 'load':
            keep = rng.choice([n, n, rng.randint(0, n)])
            case['v'] = case['v'][:keep] + [None] * (n - keep)
        def edit():
            j = rng.randrange(n)
            return ['item', j, payload(rng, case['type'][j])]
        reads = ['dump', 'native', 'force', 'len', 'iter', 'debug', 'repr', 'str', 'contents', 'getbad', 'setbad']
    ops = []
    sides = 1
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        r = rng.random()
        k = rng.randrange(sides)
        if marks and (r < 0.25 or len(ops) == 0 and r < 0.4) and sides < 4:
            ops.append(['mark', k, rng.choice(marks)])
            sides += 1
        elif r < 0.65:
            ops.append(['edit', k, edit()])
        elif r < 0.9:
            ops.append(['read', k, rng.choice(reads)])
        else:
            ops.append(['check', k])
    if marks and sides == 1:
        ops.insert(rng.randint(0, len(ops)), ['mark', 0, rng.choice(marks)])
        if rng.random() < 0.5:
            ops.append(['edit', rng.randrange(2), edit()])
    case['ops'] = ops
    return case


def bits(rng, k):
    top = max(NAMES[k]) + 1
    n = rng.choice([0, 1, 2, 3, 5])
    return sorted(set(rng.randrange(top if rng.random() < 0.7 else top + 10) for _ in range(n)))


def payload(rng, spec):
    return rng.choice([i for i, p in enumerate(PAY) if EXACT.get(int(p[0][:2], 16)) == spec])


# ------------------------------------------------------------------ model

def plain(x):
    return dict((k, plain(v)) for k, v in x.items()) if isinstance(x, dict) else x


PAYLOAD = dict((p[0], p) for p in PAY)


def fresh(p):
    """What the outermost value of a payload is encoded as by a copy"""
    cls, cons, tag, head, body, tail, end = ber.split(bytes.fromhex(p[0]))
    return ber.tlv(cls, cons, tag, body)


def header(case, contents, cons=False, extra=b''):
    """What a string is encoded as"""
    tag = 3 if case['box'] == 'pbit' else 4
    t = case['tag']
    if t and t[0] == 'implicit':
        return ber.tlv(2, cons, t[1], contents)
    out = ber.tlv(0, cons, tag, contents)
    if t:
        out = ber.tlv(2, True, t[1], out)
    return out


class Side(object):
    """A value and what it has to be"""
    # read from segments: equality is of the encodings
    ber = False
    # copies of scalars are encoded anew
    copied = False


def start(case):
    cls = cls_of(case)
    w = case['box']
    s = Side()
    s.cls = cls
    if w in ('poct', 'pbit'):
        p = PAY[case['v']]
        s.b, s.hint, s.enc, s.kw = bytes.fromhex(p[0]), False, None, {}
        if case['tag']:
            s.kw[case['tag'][0]] = case['tag'][1]
        lead = b'\x00' if w == 'pbit' else b''
        how = case['start']
        if how == 'build':
            s.x = cls(s.b, **s.kw)
        elif how == 'empty':
            s.x = cls(**s.kw)
            s.x.set(s.b)
        elif how == 'parsed':
            v = lib.core().Asn1Value.load(s.b)
            s.x = cls(parsed=v, **s.kw)
            s.hint = True
        elif how == 'load':
            s.x = cls.load(header(case, lead + s.b), **s.kw)
        else:
            tag = 3 if w == 'pbit' else 4
            cut = case['rs'] % (len(s.b) + 1)
            parts = b''.join(ber.tlv(0, False, tag, lead + x) for x in (s.b[:cut], s.b[cut:]))
            s.ber = True
            t = case['tag']
            if t and t[0] == 'implicit':
                data = ber.tlv(2, True, t[1], parts, 'indef')
            else:
                data = ber.tlv(0, True, tag, parts, 'indef')
                if t:
                    data = ber.tlv(2, True, t[1], data)
            s.x = cls.load(data, **s.kw)
    elif w == 'named':
        s.on = set(case['v'])
        data = ber.tlv(0, False, 3, named(s.on))
        if case['start'] == 'build':
            s.x = cls(names(case, s.on))
        elif case['start'] == 'load':
            s.x = cls.load(data)
        else:
            # bits that are not set may be spelled out
            text = ''.join('1' if i in s.on else '0' for i in range(max([-1] + list(s.on)) + 1)) + '0' * (case['rs'] % 7)
            s.enc = ber.tlv(0, False, 3, ber.bits_contents(text))
            s.x = cls.load(s.enc)
            return s
        s.enc = None
    elif w == 'arcs':
        s.v = tuple(int(a) for a in case['v'].split('.'))
        s.x = cls.load(arcs(s.v)) if case['start'] == 'load' else cls(case['v'])
        # what a name was mapped from
        s.name = mapped(case, s.v)
        if case['start'] == 'build':
            s.v, s.name = meant(case, case['v'])
    elif w == 'holder':
        s.n, s.v, s.spec, s.der = 5, case['v'], False, [True]
        if isinstance(s.v, list):
            s.v = list(s.v)
        data = holder(case, s)
        if case['start'] == 'load':
            s.x = cls.load(data)
        else:
            held = held_by(case, s)
            h = {'n': 5, 'a': held}
            s.x = cls([h]) if case['type'][0] == 'of' else cls({'h': h} if case['type'][0] == 'seq' else h)
            s.spec = isinstance(s.v, list)
    elif w == 'any':
        p = PAY[case['v']]
        s.p = p
        s.b = bytes.fromhex(p[0])
        s.x = any_of(s.b) if case['start'] == 'load' else cls(lib.core().Asn1Value.load(s.b))
    else:
        c = lib.core()
        s.v = list(case['v'])
        if case['start'] == 'load':
            s.x = cls.load(b''.join(bytes.fromhex(PAY[i][0]) for i in s.v if i is not None))
        else:
            s.x = cls([c.Asn1Value.load(bytes.fromhex(PAY[i][0])) for i in s.v])
        s.der = [False] * len(s.v)
    return s


def arcs(v):
    return ber.tlv(0, False, 6, ber.oid_contents('.'.join(str(a) for a in v)))


def mapped(case, v):
    m = ARCMAPS[case['type'][0]] or {}
    text = '.'.join(str(a) for a in v)
    return m.get(text, text)


def meant(case, text):
    """The arcs and the name a text stands for, or None where it is no object identifier"""
    m = dict((b, a) for a, b in (ARCMAPS[case['type'][0]] or {}).items())
    text = m.get(text, text)
    try:
        v = tuple(int(a) for a in text.split('.'))
    except ValueError:
        return None, None
    if len(v) < 2 or min(v) < 0 or v[0] > 2 or v[0] < 2 and v[1] > 39:
        return None, None
    return v, mapped(case, v)


def ints(v):
    return ber.tlv(0, True, 16, b''.join(ber.tlv(0, False, 2, i.to_bytes(i.bit_length() // 8 + 1, 'big')) for i in v))


def holder(case, s):
    """The encoding of a structure with an Any"""
    where, tag = case['type']
    n = ber.tlv(2, False, 7, s.n.to_bytes(s.n.bit_length() // 8 + 1, 'big'))
    a = ints(s.v) if isinstance(s.v, list) else bytes.fromhex(PAY[s.v][0])
    if tag is not None:
        a = ber.tlv(2, True, tag, a)
    if where == 'set':
        return ber.tlv(0, True, 17, a + n)
    out = ber.tlv(0, True, 16, n + a)
    return ber.tlv(0, True, 16, out) if where in ('seq', 'of') else out


def held_by(case, s):
    if isinstance(s.v, list):
        return cls_of(case).ints(s.v)
    return lib.core().Asn1Value.load(bytes.fromhex(PAY[s.v][0]))


def at(case, s):
    """The structure that has the Any"""
    where = case['type'][0]
    return s.x[0] if where == 'of' else s.x['h'] if where == 'seq' else s.x


def any_of(data):
    c = lib.core()
    return c.SequenceOf.load(ber.tlv(0, True, 16, data), spec=c.Any)[0]


def named(on):
    return ber.bits_contents(''.join('1' if i in on else '0' for i in range(max([-1] + list(on)) + 1)))


def names(case, on):
    m = NAMES[case['type'][0]]
    return set(m.get(i, i) for i in on)


def branch(case, s, kind):
    n = Side()
    n.__dict__.update(s.__dict__)
    n.ber = False
    n.copied = s.copied or kind in ('copy', 'deepcopy')
    x = s.x
    if kind == 'crash':
        data = x.dump()
        n.x = any_of(data) if case['box'] == 'any' else s.cls.load(data, **(s.kw if hasattr(s, 'kw') else {}))
        if case['box'] in ('poct', 'pbit'):
            n.hint = False
    elif kind == 'copy':
        n.x = x.copy()
    elif kind == 'deepcopy':
        n.x = copy.deepcopy(x)
    elif kind == 'pickle':
        n.x = pickle.loads(pickle.dumps(x))
        if case['box'] in ('poct', 'pbit') and s.hint:
            n.hint = None
    elif kind == 'shallow':
        n.x = copy.copy(x)
    if hasattr(n, 'on'):
        n.on = set(n.on)
    if hasattr(n, 'v'):
        # copies of scalars are encoded anew
        if hasattr(n, 'der'):
            n.der = [kind in ('copy', 'deepcopy') or d for d in n.der]
        if isinstance(n.v, list):
            n.v = list(n.v)
    if case['box'] == 'holder' and kind in ('crash', 'pickle'):
        n.spec = False
    if type(n.x) is not s.cls:
        raise Violation('the copy has another type', '%s of %s: %s' % (kind, s.cls, type(n.x)), None)
    return n


# ------------------------------------------------------------------ running

def quiet(fn):
    try:
        return fn()
    except common.REFUSED as e:
        return type(e).__name__


def edit(case, s, op, what):
    c = lib.core()
    x = s.x
    if op[0] == 'set':
        x.set(bytes.fromhex(op[1]))
        s.b, s.hint, s.enc, s.ber = bytes.fromhex(op[1]), False, None, False
    elif op[0] == 'setbits':
        given = names(case, op[1])
        x.set(given)
        # what becomes of the set afterwards is up to its owner
        given.clear()
        s.on, s.enc = set(op[1]), None
    elif op[0] == 'tuple':
        x.set(tuple(op[1]))
        s.on, s.enc = set(i for i, b in enumerate(op[1]) if b), None
    elif op[0] == 'unknown':
        got = quiet(lambda: x.set(names(case, op[1]) | set([op[2]])))
        if got not in ('ValueError', 'TypeError'):
            raise Violation(what, 'the unknown bit %r was accepted: native %r' % (op[2], x.native), what)
    elif op[0] == 'bit':
        x[op[1]] = op[2]
        m = dict((v, k) for k, v in NAMES[case['type'][0]].items())
        i = m.get(op[1], op[1])
        s.on = (s.on | set([i])) if op[2] else (s.on - set([i]))
        s.enc = None
    elif case['box'] == 'arcs':
        v, name = meant(case, op[1])
        got = quiet(lambda: x.set(op[1]))
        if v is None and got not in ('ValueError', 'TypeError'):
            raise Violation(what, 'the object identifier %r was accepted: %s' % (op[1], x.dump().hex()), what)
        if v is not None:
            if got is None:
                s.v, s.name = v, name
            elif op[1] == mapped(case, v) or op[1] == '.'.join(str(a) for a in v):
                raise Violation(what, 'the object identifier %r was refused: %s' % (op[1], got), what)
    elif case['box'] == 'holder':
        hold(case, s, op, what)
    elif op[0] == 'parse':
        parse(case, s, op[1], what)
    elif op[0] == 'item':
        x[op[1]] = c.Asn1Value.load(bytes.fromhex(PAY[op[2]][0]))
        s.v[op[1]], s.der[op[1]] = op[2], False


def hold(case, s, op, what):
    h = at(case, s)
    c = lib.core()
    kind = op[0]
    if kind == 'n':
        h['n'] = s.n = op[1]
    elif kind == 'other':
        s.v, s.spec = op[1], False
        h['a'] = c.Any(held_by(case, s))
    elif kind == 'all':
        s.v, s.spec = list(op[1]), op[2] != 'raw'
        if op[2] == 'raw':
            h['a'] = any_of(ints(s.v))
        else:
            new = cls_of(case).ints(s.v)
            h['a'] = c.Any(new) if op[2] == 'any' else new
    elif isinstance(s.v, list):
        value = h['a'].parse(cls_of(case).ints)
        # in which form a native value made before was is not settled by looking at the content in another light
        s.spec = True if kind == 'append' or op[1] < len(s.v) else None
        if kind == 'append':
            value.append(op[2])
            s.v = s.v + [op[2]]
        elif op[1] < len(s.v):
            s.v = list(s.v)
            if kind == 'put':
                value[op[1]] = op[2]
                s.v[op[1]] = op[2]
            else:
                del value[op[1]]
                del s.v[op[1]]


def parse(case, s, how, what):
    """The content in the light of a type"""
    c = lib.core()
    p = PAYLOAD.get(s.b.hex())
    spec = None
    if how == 'exact' and p and EXACT.get(s.b[0]):
        spec = getattr(c, EXACT[s.b[0]])
    elif how == 'any':
        spec = c.Any
    try:
        got = s.x.parse(spec) if spec else s.x.parsed if how == 'parsed' else s.x.parse()
    except common.REFUSED:
        if p:
            raise
        return
    if hasattr(s, 'hint'):
        s.hint = True
    if p and (plain(got.native) != p[2] or got.dump() != s.b and not (s.copied and got.dump() == fresh(p))):
        raise Violation(what, 'parsed as %s: %r (%s), it holds %s' % (how, got.native, got.dump().hex(), s.b.hex()), what)
    if p is None and got.dump() != s.b[:len(got.dump())]:
        raise Violation(what, 'parsed as %s: %s, it holds %s' % (how, got.dump().hex(), s.b.hex()), what)


def read(case, s, op, what):
    x = s.x
    if case['box'] == 'holder' and op in ('ints', 'parsed'):
        if isinstance(s.v, list) and op == 'ints':
            got = at(case, s)['a'].parse(cls_of(case).ints)
            s.spec = s.spec and True or None
            if got.native != s.v:
                raise Violation(what, 'the Any holds %r, should hold %r' % (got.native, s.v), what)
        elif op == 'parsed':
            at(case, s)['a'].parsed
    elif op in ('parsed', 'exact', 'any') and case['box'] != 'concat':
        parse(case, s, op, what)
    elif op == 'debug':
        quiet(lambda: common.captured(x.debug))
    elif op == 'force':
        x.dump(force=True)
        if case['box'] in ('poct', 'pbit'):
            s.enc, s.ber = None, False
            p = PAYLOAD.get(s.b.hex())
            if s.hint is None:
                # whether a pickle remembers that its content was parsed is not determined
                s.hint = x.native != s.b
            if s.hint and p and p[1]:
                s.b = bytes.fromhex(p[1])
            elif s.hint:
                # without a spec, or not a whole value: what is kept is up to the parsed value
                s.b = bytes(x)
        elif case['box'] == 'concat':
            s.der = [True] * len(s.der)
        elif case['box'] == 'holder':
            s.der = [None]
        else:
            s.enc = None
    elif op == 'eq':
        if not s.ber and (not x == x.copy() or x != x.copy()):
            raise Violation(what, 'the value is not equal to its copy', what)
    elif op == 'untag':
        got = x.untag()
        if not s.ber and not got == x or bytes(got) != s.b:
            raise Violation(what, 'untagged: %s, it holds %s' % (bytes(got).hex(), s.b.hex()), what)
    elif op == 'getbits':
        for i in range(16):
            n = NAMES[case['type'][0]].get(i)
            if x[i] is not (i in s.on) or n is not None and x[n] is not (i in s.on):
                raise Violation(what, 'bit %d is %r, set are %s' % (i, x[i], sorted(s.on)), what)
    elif op == 'getbad':
        bad = -1 if case['box'] == 'concat' else 'zzz'
        try:
            x[bad]
        except (KeyError, ValueError):
            return
        raise Violation(what, 'there is an item %r' % bad, what)
    elif op == 'setbad':
        bad = len(case['type']) if case['box'] == 'concat' else 'zzz'
        try:
            x[bad] = lib.core().Integer(1) if case['box'] == 'concat' else True
        except (KeyError, ValueError):
            return
        raise Violation(what, 'an item %r was set' % bad, what)
    elif op == 'deep':
        quiet(lambda: x.parsed.native)
        quiet(lambda: x.parsed.copy().dump())
    elif op == 'len':
        len(x)
    elif op == 'iter':
        [quiet(lambda: v.native) for v in x]
    elif op == 'native' and case['box'] == 'concat':
        [quiet(lambda: v.native) for v in x]
    elif op == 'repr':
        quiet(lambda: repr(x))
    elif op == 'str':
        quiet(lambda: str(x))
    elif op == 'bytes':
        bytes(x)
    else:
        quiet(lambda: getattr(x, op) if op in ('native', 'contents', 'dotted') else x.dump())


def check(case, s, what, rng):
    x = s.x
    w = case['box']
    facts = []
    if w in ('poct', 'pbit'):
        want = s.enc or header(case, (b'\x00' if w == 'pbit' else b'') + s.b)
        facts.append(('dump', lambda: x.dump(), want))
        facts.append(('bytes', lambda: bytes(x), s.b))
        p = PAYLOAD.get(s.b.hex())
        if s.hint is False:
            facts.append(('native', lambda: x.native, s.b))
        elif s.hint and p:
            facts.append(('native', lambda: plain(x.native), p[2]))
    elif w == 'named':
        facts.append(('native', lambda: x.native, names(case, s.on)))
        facts.append(('dump', lambda: x.dump(), s.enc or ber.tlv(0, False, 3, named(s.on))))
    elif w == 'arcs':
        facts.append(('dump', lambda: x.dump(), arcs(s.v)))
        facts.append(('native', lambda: x.native, s.name))
        facts.append(('dotted', lambda: x.dotted, '.'.join(str(a) for a in s.v)))
    elif w == 'holder':
        if isinstance(s.v, list):
            facts.append(('dump', lambda: x.dump(), holder(case, s)))
            a = s.v if s.spec else dict((str(i), v) for i, v in enumerate(s.v))
        else:
            a = PAY[s.v][2]
            if PAY[s.v][0] == PAY[s.v][1]:
                facts.append(('dump', lambda: x.dump(), holder(case, s)))
        if s.spec is None and at(case, s).native['a'] == s.v:
            a = s.v
        want = {'n': s.n, 'a': a}
        want = [want] if case['type'][0] == 'of' else {'h': want} if case['type'][0] == 'seq' else want
        facts.append(('native', lambda: [plain(v) for v in x.native] if isinstance(x.native, list) else plain(x.native), want))
        facts.append(('n', lambda: at(case, s)['n'].native, s.n))
    elif w == 'any':
        data = s.b
        if s.copied and s.p[1] and x.dump() != s.b:
            data = bytes.fromhex(s.p[1])
        facts.append(('dump', lambda: x.dump(), data))
        facts.append(('native', lambda: plain(x.native), s.p[2]))
    else:
        want = [None if i is None else bytes.fromhex(PAY[i][1 if d else 0]) for i, d in zip(s.v, s.der)]
        facts.append(('dump', lambda: x.dump(), b''.join(b for b in want if b is not None)))
        facts.append(('contents', lambda: x.contents, b''.join(b for b in want if b is not None)))
        facts.append(('len', lambda: len(x), len(want)))
        facts.append(('items', lambda: [v.native for v, i in zip(x, s.v) if i is not None],
                      [PAY[i][2] for i in s.v if i is not None]))
        for j, b in enumerate(want):
            if b is not None:
                facts.append(('[%d]' % j, lambda j=j: x[j].dump(), b))
    rng.shuffle(facts)
    for name, fn, want in facts:
        got = fn()
        if got != want or type(got) is not type(want):
            show = lambda v: v.hex() if isinstance(v, bytes) else repr(v)
            raise Violation(what, '%s is %s, should be %s' % (name, show(got), show(want)), what)


def run(case, stats, what):
    rng = random.Random(case['rs'])
    sides = [start(case)]
    for op in case['ops']:
        stats.add('steps')
        if op[1] >= len(sides):
            continue
        s = sides[op[1]]
        if op[0] == 'mark':
            kind = op[2]
            if kind == 'crash':
                stats.add('fault:death and reload')
                if case['box'] == 'concat':
                    have = [i is not None for i in s.v]
                    if have != sorted(have, reverse=True):
                        # what comes after a gap can not be told from what is missing
                        continue
            else:
                stats.add('copies')
                if kind == 'shallow' and case['box'] != 'named' or kind == 'pickle' and case['box'] == 'any':
                    # shares its content; has no type of its own when it is loaded
                    kind = 'copy'
            sides.append(branch(case, s, kind))
        elif op[0] == 'edit':
            edit(case, s, op[2], what)
            stats.add('edit:' + op[2][0])
        elif op[0] == 'read':
            read(case, s, op[2], what)
        else:
            check(case, s, what, rng)
    stats.seen('case', case)
    order = list(range(len(sides)))
    rng.shuffle(order)
    for j in order:
        check(case, sides[j], what, rng)


def shrink(case):
    from .subject import shrink_list
    for ops in shrink_list(case['ops']):
        old = [o for o in case['ops'] if o[0] == 'mark']
        new = [o for o in ops if o[0] == 'mark']
        if new == old[:len(new)]:
            yield dict(case, ops=ops)
