"""
C01: a byte stream of values over a simulated link that fragments, delays and dies.
"""
import heapq

from .. import ber, corpus, lib, schema
from ..runner import Violation

N = {'quick': 180000, 'thorough': 1500000}
RULE = ('a case is a stream of 1-5 values (random schema values in random BER forms, raw nested TLVs, shipped '
        'structures) cut into chunks with random sizes and delays, possibly cut off by a dying connection; non-trivial '
        'when some value was seen incomplete at least once; distinct by (values, chunk plan)')
STEP = 'deliveries examined by a reader'
STUB = 'the link (chunking, delays, virtual clock, connection loss); nothing of the library'
ASSUMPTIONS = ['the independent BER reader dst/ber.py decides where values end']


def setup():
    lib.load_all()


def raw_tlv(rng, depth):
    cls = rng.choice([0, 0, 1, 2, 3])
    if cls == 0:
        tag = rng.choice([1, 2, 4, 5, 12, 16, 17, 40, 200])
    else:
        tag = rng.choice([0, 1, 5, 30, 31, 127, 128, 16383, 16384])
    cons = depth > 0 and rng.random() < 0.6
    if cons:
        body = b''.join(raw_tlv(rng, depth - 1) for _ in range(rng.randint(0, 3)))
        form = rng.choice(['indef', 'indef', None, 1, 2, 4])
        return ber.tlv(cls, True, tag, body, form)
    n = rng.choice([0, 0, 1, 2, 3, 10, 127, 128, 129, 255, 256, 300])
    if cls == 0 and tag == 1 and rng.random() < 0.5:
        # Looks like an end-of-contents marker, but only one with a length of zero in a single octet is
        tag = 0
        n = n or 1
    if rng.random() < 0.3:
        body = rng.choice([b'\x00\x00', b'\x00', b'\x00\x00\x00', b'\x30\x80']) * rng.randint(1, 3)
    else:
        body = bytes(rng.getrandbits(8) for _ in range(n))
    return ber.tlv(cls, False, tag, body, rng.choice([None, None, None, 1, 2, 3, 8]))


def huge(rng):
    """The first bytes of a value that is far larger than what the link will ever deliver"""
    octets = rng.choice([3, 4, 5, 7, 8, 9, 9, 10, 12, 16, 20, 60, 126])
    length = rng.choice([0, 1, 2, 5, 200]) + (1 << (8 * rng.randint(2, octets - 1)))
    if rng.random() < 0.3:
        length |= rng.getrandbits(8 * octets)
    first = rng.choice([b'\x04', b'\x30', b'\x02', b'\xa0', b'\xbf\x87\x68', b'\x1f\x1f'])
    head = first + bytes([0x80 | octets]) + length.to_bytes(octets, 'big')
    for _ in range(rng.choice([0, 0, 1, 2])):
        head = b'\x30\x80' + head
    return {'huge': True, 'hex': (head + b'\x02\x01\x05' * rng.randint(0, 4) + b'\x00' * rng.randint(0, 40)).hex()}


def gen(rng, tier, i):
    items = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        r = rng.random()
        if r < 0.4:
            node, v = schema.gen_root(rng, rng.choice([0, 1, 2]), struct=rng.random() < 0.7)
            opt = {'indef': rng.choice([0, .3, .8]), 'longlen': rng.choice([0, .3]), 'segments': rng.choice([0, .5]),
                   'padded': 0.1, 'unsorted': 0.2, 'spelled_default': 0.2}
            items.append({'node': node, 'v': v, 'hex': schema.ber_enc(node, v, rng, opt).hex()})
        elif r < 0.8:
            items.append({'hex': raw_tlv(rng, rng.choice([0, 1, 2, 4])).hex()})
        else:
            e = corpus.pick(rng, max_len=700, only=lambda e: 'Trusted' not in e['cls'])
            items.append({'cls': e['cls'], 'hex': e['hex']})
    if rng.random() < 0.25:
        items.append(huge(rng))
    total = sum(len(x['hex']) // 2 for x in items)
    mode = rng.choice(['bytes', 'small', 'mixed', 'big'])
    chunks = []
    left = total
    while left > 0:
        n = {'bytes': 1, 'small': rng.randint(1, 4), 'mixed': rng.choice([1, 1, 2, 3, 7, 64, 200]),
             'big': rng.randint(1, 400)}[mode]
        if mode == 'bytes' and total > 120:
            n = rng.choice([1, 1, 1, 40])
        n = min(n, left)
        chunks.append([n, rng.randint(0, 50)])
        left -= n
    die = rng.randint(0, total) if rng.random() < 0.4 else None
    return {'items': items, 'chunks': chunks, 'die': die, 'reader': rng.choice(['peek', 'parse', 'load'])}


def refuse(what, fn, buf):
    try:
        r = fn()
    except ValueError:
        return
    raise Violation('%s accepted a value that was cut off' % what, 'bytes %s gave %r' % (buf.hex()[:400], r))


def check_state(buf, end, item, cls, stats):
    """Everything the library says about a buffer whose head value ends at end (None: incomplete)"""
    parser = lib.mod('parser')
    core = lib.core()
    if end is None:
        refuse('peek', lambda: parser.peek(buf), buf)
        refuse('parse', lambda: parser.parse(buf), buf)
        refuse('strict parse', lambda: parser.parse(buf, strict=True), buf)
        if cls is not None:
            refuse('load', lambda: cls.load(buf), buf)
            refuse('strict load', lambda: cls.load(buf, strict=True), buf)
        if cls is None:
            refuse('generic load', lambda: core.load(buf), buf)
        return None
    n = parser.peek(buf)
    if n != end:
        raise Violation('peek reports a wrong length', '%d instead of %d for %s' % (n, end, buf.hex()[:400]))
    want = ber.split(buf)
    got = parser.parse(buf)
    if got[3] + got[4] + got[5] != buf[:end] or tuple(got) != tuple(want[:6]):
        raise Violation('parse reports a wrong value', 'got %r want %r' % (got, want[:6]))
    trailing = len(buf) > end
    for what, fn in (('strict parse', lambda: parser.parse(buf, strict=True)),
                     ('strict load', (lambda: cls.load(buf, strict=True)) if cls else None)):
        if fn is None:
            continue
        try:
            fn()
            ok = True
        except ValueError as e:
            ok = False
            err = e
        if ok and trailing:
            raise Violation('%s accepted bytes after the value' % what, buf.hex()[:400])
        if not ok and not trailing:
            raise Violation('%s refused a complete value' % what, '%s: %s' % (buf.hex()[:400], err))
    if parser.parse(buf[:end], strict=True) is None:
        raise Violation('strict parse returned nothing', '')
    value = None
    if cls is not None:
        value = cls.load(buf)
        if definite_only(buf[:end]):
            if value.dump() != buf[:end]:
                raise Violation('load picked up other bytes than the value\'s', buf.hex()[:300])
        if item.get('node') is not None:
            node = item['node']
            if schema.norm(node, value.native) != schema.norm(node, schema.native(node, item['v'])):
                raise Violation('a value received over the link reads differently from what was sent',
                                '%r for %r' % (value.native, item['v']))
    return n


JUNK = [b'\x00', b'\n', b'\x00\x00', b'\xff', b' ', b'\r\n', b'\x00' * 7, b'\x05\x00', b'\x30', b'\x80', b'\xff' * 5, b'\n\n',
        b'\t', b'\x00\x00\x00\x00', b'-', b'\x1a', b'\x30\x80\x00\x00', b'=', b'\x00' * 512]


def strict_refuses(data, cls, junk):
    parser = lib.mod('parser')
    refuse("strict parse (junk behind the value)", lambda: parser.parse(data + junk, strict=True), data + junk)
    if cls is not None:
        refuse("strict load (junk behind the value)", lambda: cls.load(data + junk, strict=True), data + junk)


def definite_only(b):
    return no_indef(b, 0, len(b))


def no_indef(b, pos, end):
    while pos < end:
        try:
            cls, cons, tag, length, c = ber.header(b, pos)
        except (ber.Short, ber.Bad):
            return True
        if length is None:
            return False
        if cons and not no_indef(b, c, c + length):
            return False
        pos = c + length
    return True


def run(case, stats):
    schema.reset_classes()
    items = case['items']
    data = b''.join(bytes.fromhex(x['hex']) for x in items)
    ends = []
    pos = 0
    for x in items:
        pos += len(x['hex']) // 2
        ends.append(pos + (1 << 20 if 'huge' in x else 0))
    die = case['die']
    classes = []
    for x in items:
        if 'node' in x:
            classes.append(schema.build(x['node'], {}))
        elif 'cls' in x:
            classes.append(lib.cls(x['cls']))
        else:
            classes.append(None)
    # the link: events (time, sequence number, bytes)
    queue = []
    t = 0
    pos = 0
    for seq, (n, delay) in enumerate(case['chunks']):
        t += delay
        chunk = data[pos:pos + n]
        pos += n
        if die is not None and pos > die:
            chunk = chunk[:len(chunk) - (pos - die)]
            heapq.heappush(queue, (t, seq, chunk))
            stats.add('fault:connection lost')
            break
        heapq.heappush(queue, (t, seq, chunk))
    buf = b''
    base = 0
    k = 0
    waited = False
    stats.add('fault:fragmentation', max(0, len(queue) - len(items)))
    check_state(b'', None, {}, classes[0], stats)
    while queue:
        now, _, chunk = heapq.heappop(queue)
        buf += chunk
        while k < len(items):
            stats.add('steps')
            complete = base + len(buf) >= ends[k]
            end = ends[k] - base if complete else None
            if not complete:
                waited = True
                stats.add('probe:value seen incomplete')
            n = check_state(buf, end, items[k], classes[k], stats)
            if not complete:
                if 'huge' in items[k]:
                    stats.add('probe:start of a value with a huge length')
                break
            strict_refuses(buf[:end], classes[k], JUNK[(k + end) % len(JUNK)])
            if len(buf) > end:
                stats.add('probe:value followed by more bytes')
            base += end
            buf = buf[end:]
            k += 1
            if not buf:
                break
    stats.add('simulated_ms', t)
    want = sum(1 for e in ends if e <= (len(data) if die is None else die))
    if k != want:
        raise Violation('the reader did not recover the values that arrived whole', '%d of %d' % (k, want))
    if waited:
        stats.seen('case', (case['items'], case['chunks'], die))


def shrink(case):
    items = case['items']
    for i in range(len(items)):
        if len(items) > 1:
            c = items[:i] + items[i + 1:]
            yield rechunk(dict(case, items=c))
    if case['die'] is not None:
        yield dict(case, die=None)
    if len(case['chunks']) > 1:
        ch = case['chunks']
        for i in range(len(ch) - 1):
            yield dict(case, chunks=ch[:i] + [[ch[i][0] + ch[i + 1][0], ch[i][1]]] + ch[i + 2:])
    for i, x in enumerate(items):
        if ('node' in x or 'cls' in x) and 'huge' not in x:
            yield dict(case, items=items[:i] + [{'hex': x['hex']}] + items[i + 1:])
    if any(c[1] for c in case['chunks']):
        yield dict(case, chunks=[[n, 0] for n, _ in case['chunks']])


def rechunk(case):
    total = sum(len(x['hex']) // 2 for x in case['items'])
    return dict(case, chunks=[[1, 0]] * total if total < 200 else [[total, 0]],
                die=min(case['die'], total) if case['die'] is not None else None)
