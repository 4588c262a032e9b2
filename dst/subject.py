"""
Values under test: shipped structures or generated types, optionally damaged by storage
faults, together with histories of reads over them.
"""
from . import ber, common, corpus, lib, names, schema
from .runner import Violation


def gen(rng, damage=0.3, max_len=None, ber_prob=0.15, canonical=False, schema_prob=0.45, rich=0.08, odd=0):
    if odd and rng.random() < odd:
        cls, data = names.odd(rng)
        s = {'cls': cls, 'hex': data.hex()}
    elif rng.random() < schema_prob:
        node, v = schema.gen_root(rng)
        if rng.random() < ber_prob:
            opt = {'indef': .3, 'longlen': .1, 'segments': .4, 'padded': .1, 'unsorted': .3, 'spelled_default': .3}
            data = schema.ber_enc(node, v, rng, opt)
        else:
            data = schema.der(node, v)
        s = {'node': node, 'v': v, 'hex': data.hex()}
    else:
        e = corpus.pick(rng, max_len=max_len, canonical=canonical, rich=rich)
        s = {'cls': e['cls'], 'hex': e['hex']}
        if e['src'] == 'rich':
            s['rich'] = 1
    if rng.random() < damage:
        data, faults = damaged(rng, bytes.fromhex(s['hex']))
        s['hex'] = data.hex()
        s['faults'] = faults
    return s


_PAIRS = []


def pairs():
    """Every derived attribute of every class in the corpus"""
    if not _PAIRS:
        corpus.entries()
        for name in sorted(corpus._by):
            cls = lib.cls(name)
            for p in common.props_of(cls):
                _PAIRS.append((name, '.' + p))
            for m in common.METHODS:
                if hasattr(cls, m):
                    _PAIRS.extend([(name, m + '()')] * 3)
            if hasattr(cls, 'is_valid_domain_ip'):
                _PAIRS.extend((name, 'domain:' + d) for d in common.DOMAINS)
    return _PAIRS


def targeted(rng, damage=0.0):
    """A value chosen for one of its derived attributes -> (subject, attribute)"""
    name, prop = rng.choice(pairs())
    found = corpus._by[name]
    if rng.random() < 0.6:
        # one that has an answer
        found = corpus.derived(name, prop) or found
    for _ in range(10):
        e = rng.choice(found)
        if len(e['hex']) < 8000:
            break
    s = {'cls': name, 'hex': e['hex']}
    if rng.random() < damage:
        data, s['faults'] = damaged(rng, bytes.fromhex(s['hex']))
        s['hex'] = data.hex()
    return s, prop


KINDS = ['flip', 'flip', 'set', 'set', 'set', 'zero', 'drop', 'insert', 'dup', 'tear', 'len',
         'lose part', 'empty part', 'repeat part', 'swap parts', 'cut part', 'grow part', 'sign of part']


def damaged(rng, data, n=None):
    """Storage faults; most keep the outer framing so damage reaches the inside"""
    faults = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        if not data:
            break
        kind = rng.choice(KINDS)
        spans = ber.walk_spans(data)
        spot = None
        if spans and rng.random() < 0.7:
            st, cs, en, depth, cons, cls, tag = rng.choice(spans)
            where = rng.random()
            if where < 0.25:
                spot = st
            elif where < 0.45:
                spot = cs - 1
            elif en > cs:
                spot = rng.randrange(cs, en)
        if spot is None:
            spot = rng.randrange(len(data))
        if kind == 'flip':
            data = data[:spot] + bytes([data[spot] ^ (1 << rng.randrange(8))]) + data[spot + 1:]
        elif kind == 'set':
            data = data[:spot] + bytes([rng.choice([0, 1, 0x7f, 0x80, 0xff, 0x30, 0x31, 0x04, 0x05, 0x02, 0xa0, 0x24,
                                                    rng.getrandbits(8)])]) + data[spot + 1:]
        elif kind == 'zero':
            n2 = rng.choice([1, 2, 4, 16])
            data = data[:spot] + bytes(len(data[spot:spot + n2])) + data[spot + n2:]
        elif kind == 'drop':
            data = data[:spot] + data[spot + rng.choice([1, 1, 2, 8]):]
        elif kind == 'insert':
            data = data[:spot] + bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 1, 2, 5]))) + data[spot:]
        elif kind == 'dup':
            n2 = rng.choice([1, 2, 8, 32])
            data = data[:spot + n2] + data[spot:spot + n2] + data[spot + n2:]
        elif kind == 'tear':
            data = data[:spot]
        elif kind.endswith((' part', ' parts')):
            # a whole element is affected, and the framing around it was written accordingly
            inner = [x for x in spans if x[3]]
            if not inner:
                continue
            st, cs, en = rng.choice(inner)[:3]
            spot = st
            if kind == 'lose part':
                data = replaced(data, spans, st, en, b'')
            elif kind == 'empty part':
                data = replaced(data, spans, st, en, bytes([data[st]]) + b'\x00')
            elif kind in ('cut part', 'grow part', 'sign of part'):
                # a value of another length or sign, in good order otherwise
                leaves = [x for x in inner if not x[4] and x[2] > x[1] and x[1] - x[0] == 2]
                if not leaves:
                    continue
                st, cs, en = rng.choice(leaves)[:3]
                spot = st
                body = data[cs:en]
                if kind == 'cut part':
                    body = body[:rng.randrange(len(body))]
                elif kind == 'grow part':
                    body = (body + bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 1, 2, 4]))))[:127]
                else:
                    body = bytes([body[0] ^ 0x80]) + body[1:]
                data = replaced(data, spans, st, en, data[st:st + 1] + bytes([len(body)]) + body)
            elif kind == 'repeat part':
                data = replaced(data, spans, st, en, data[st:en] * 2)
            else:
                st2, cs2, en2 = rng.choice(inner)[:3]
                if en2 <= st or en <= st2:
                    (st, en), (st2, en2) = sorted([(st, en), (st2, en2)])
                    one, two = data[st:en], data[st2:en2]
                    data = replaced(data, spans, st2, en2, one)
                    data = replaced(data, ber.walk_spans(data), st, en, two)
        elif kind == 'len' and spans:
            # an element emptied in place: its bytes were lost but the framing survived
            st, cs, en, depth, cons, cls, tag = rng.choice(spans)
            if en - cs < 128 and cs - st == 2:
                keep = rng.randint(0, en - cs)
                cut = (en - cs) - keep
                new = data[:st + 1] + bytes([keep]) + data[cs:cs + keep] + data[en:]
                # parents keep their old length, so the data ends early unless it is topmost
                data = shrink_parents(new, spans, st, cut) if rng.random() < 0.8 else new
        faults.append([kind, spot])
    return data, faults


def replaced(data, spans, st, en, new):
    """Puts other bytes in the place of an element and corrects the lengths around it"""
    around = sorted((x for x in spans if x[0] < st and x[1] <= st and x[2] >= en), key=lambda x: -x[3])
    for s, c, e, depth, cons, cls, tag in around:
        head = s + 1
        if data[s] & 31 == 31:
            while data[head] & 0x80:
                head += 1
            head += 1
        body = data[c:st] + new + data[en:e]
        if data[head] == 0x80:
            new = data[s:head + 1] + body
        else:
            n = len(body)
            raw = n.to_bytes((n.bit_length() + 7) // 8, 'big')
            new = data[s:head] + (bytes([n]) if n < 128 else bytes([0x80 | len(raw)]) + raw) + body
        st, en = s, e
    return data[:st] + new + data[en:]


def shrink_parents(data, spans, st, cut):
    """Lowers the one-byte lengths of the elements around st (best effort)"""
    b = bytearray(data)
    for s, c, e, depth, cons, cls, tag in spans:
        if s < st < e and c <= st:
            if c - s == 2 and b[s + 1] < 128 and b[s + 1] >= cut:
                b[s + 1] -= cut
            elif c - s == 3 and b[s + 1] == 0x81 and b[s + 2] - cut >= 0:
                b[s + 2] -= cut
            elif c - s == 4 and b[s + 1] == 0x82:
                n = b[s + 2] * 256 + b[s + 3] - cut
                if n >= 0:
                    b[s + 2], b[s + 3] = n >> 8, n & 255
    return bytes(b)


def klass(s, cache=None):
    if 'node' in s:
        return schema.build(s['node'], cache if cache is not None else {})
    return lib.cls(s['cls'])


def loader(s):
    cls = klass(s)
    data = bytes.fromhex(s['hex'])
    if not s.get('pre'):
        return lambda: cls.load(data)
    from . import twins
    donor = bytes.fromhex(s['donor'])

    def load():
        x = cls.load(data)
        for item in s['pre']:
            if item[0] == 'read':
                common.read(x, item[1], item[2])
            else:
                twins.perform(x, item, cls.load(donor))
        return x
    return load


def edited(rng, s):
    """Gives the subject a history of edits (and a few reads) by its only owner, before it is looked at"""
    from . import twins
    try:
        root = loader(s)()
        found = common.nodes(root, 60)
        # what is not canonical is written as it was unless it was looked at, once something next to it changed
        if loader(s)().dump(True).hex() != s['hex']:
            return
    except common.REFUSED:
        return
    if 'node' in s:
        donor = schema.der(s['node'], schema.gen_value(rng, s['node'])).hex()
    else:
        donor = rng.choice(corpus._by.get(s['cls']) or [s])['hex']
        if len(donor) > 4000:
            donor = s['hex']
    pre = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.6:
            pre.append(['read', [], rng.choice(['native', 'native', 'dump'])])
        op = twins.gen_give(rng, found, True)
        if op and '#parsed' not in op[1]:
            pre.append(op)
    if any(op[0] != 'read' for op in pre):
        s['pre'] = pre
        s['donor'] = donor


def gen_reads(rng, s, count, big=False, prefer=None):
    """A history of reads over a value: [[path, op], ...]"""
    load = loader(s)
    try:
        found = common.nodes(load(), 120)
    except common.REFUSED:
        return []
    out = []
    attrs = rng.random() < 0.6 if s.get('rich') else False
    for _ in range(count):
        r = rng.random()
        if s.get('pre') and r < 0.5:
            # what was edited, or contains it
            path = rng.choice([x[1] for x in s['pre'] if x[0] != 'read'])
            path = path[:rng.choice([0, 0, len(path), rng.randint(0, len(path))])]
            match = [x for x in found if x[0] == path]
            if match:
                out.append([path, rng.choice([o for o in ('native', 'native', 'dump', 'contents') if o in common.ops_for(match[0][1])])])
                continue
        if attrs and r < 0.6:
            # derived attributes of the whole message
            props = [o for o in common.ops_for(found[0][1]) if o.startswith('.')]
            if props:
                out.append([[], rng.choice(props)])
                continue
        if r < 0.3:
            path, v = found[0]
        elif r < 0.5 and out:
            # come back to something already read, or near it
            path = list(rng.choice(out)[0])
            if path and rng.random() < 0.5:
                path = path[:-1]
            match = [x for x in found if x[0] == path]
            path, v = match[0] if match else found[0]
        else:
            path, v = rng.choice(found)
        ops = common.ops_for(v)
        props = [o for o in ops if o.startswith('.')]
        if props and rng.random() < 0.45:
            op = rng.choice(props)
        elif rng.random() < 0.4:
            op = rng.choice([o for o in ('native', 'dump', 'items', 'iter', 'chosen', 'parsed') if o in ops])
        else:
            op = rng.choice(ops)
        out.append([list(path), op])
    return out


class Expected(object):
    """What each read answers on a freshly loaded value"""

    def __init__(self, load):
        self.load = load
        self.memo = {}

    def get(self, path, op):
        key = (tuple(path), op)
        if key not in self.memo:
            try:
                root = self.load()
            except common.REFUSED:
                self.memo[key] = ['refused']
                return self.memo[key]
            self.memo[key] = common.read(root, path, op, lambda: self.load())
        return self.memo[key]


def agrees(expected, path, op, got):
    """
    Whether an answer is that of a fresh value; copying a value that is damaged
    inside may be refused once the damage has been met.  The same goes for
    encoding what is of indefinite length, which is done on a copy.
    """
    want = expected.get(path, op)
    if got == want:
        return True
    if got != ['refused'] or expected.get(path, 'native') != ['refused']:
        return False
    return op in common.COPIES or op == 'dump' and split(expected, path)


def split(expected, path):
    """Whether a value, or part of it, is of indefinite length, so that encoding it takes a copy of it"""
    try:
        v = common.at(expected.load(), path)
    except common.REFUSED:
        return False
    header = getattr(v, '_header', None)
    return not isinstance(header, bytes) or b'\x80' in header


def audit(root, expected, paths, what, ops=('dump', 'native')):
    for path in paths:
        for op in ops:
            got = common.read(root, path, op, expected.load)
            if not agrees(expected, path, op, got):
                want = expected.get(path, op)
                raise Violation(what, '%s of %s: got %s, fresh value gives %s' % (op, path, str(got)[:500],
                                                                                   str(want)[:500]),
                                what)


def shrink_pre(case):
    s = case['s']
    if s.get('pre'):
        for pre in shrink_list(s['pre']):
            yield dict(case, s=dict(s, pre=pre))


def shrink_list(items):
    n = len(items)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            if i + k <= n:
                yield items[:i] + items[i + k:]
        k //= 2
