"""
C02: stored encodings that rot, and everything that can be read from them.
"""
import base64
import random
import resource

from .. import ber, common, corpus, lib, schema, subject, work
from ..runner import Violation

N = {'quick': 50000, 'thorough': 600000}
RULE = ('a case is a valid encoding (all shipped classes, random types, bulky ones, PEM armor) with 1-6 storage faults, and '
        '4-24 reads over everything still reachable; non-trivial when bytes were changed; distinct by (bytes, reads)')
STEP = 'reads'
STUB = 'storage (bit flips, lost, duplicated, zeroed, inserted and torn bytes)'
ASSUMPTIONS = ['work is counted in function entries, jumps and branches of the library, memory by an address-space limit of 3 GB']
WHAT = 'damaged input makes a read fail with something other than ValueError or TypeError'
WORK = 'reading damaged input takes work out of proportion to its size'


def setup():
    lib.load_all()
    common.install_stdout()
    work.install()
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def budget(size):
    return 20000 + 300 * size


# ------------------------------------------------------------------ generating

def bulky(rng):
    """A valid encoding with very many or very long parts"""
    c = rng.choice(['seqof', 'setof', 'names', 'long', 'set', 'segments', 'nested', 'map', 'crl'])
    n = rng.choice([200, 800, 2500])
    if c in ('seqof', 'setof'):
        el = rng.choice([b'\x02\x01\x05', b'\x06\x03\x2a\x03\x04', b'\x0c\x01\x41', b'\x30\x03\x02\x01\x05', b'\x05\x00'])
        cls = {2: 'core.Integer', 6: 'core.ObjectIdentifier', 12: 'core.UTF8String', 0x30: 'core.Sequence',
               5: 'core.Null'}[el[0]]
        return {'bulk': 'core.SequenceOf' if c == 'seqof' else 'core.SetOf', 'spec': cls,
                'hex': ber.tlv(0, True, 16 if c == 'seqof' else 17, el * n).hex()}
    if c == 'names':
        atv = ber.tlv(0, True, 17, ber.tlv(0, True, 16, b'\x06\x03\x55\x04\x0a' + b'\x0c\x05' + b'a b C'))
        return {'cls': 'x509.Name', 'hex': ber.tlv(0, True, 16, atv * (n // 8)).hex()}
    if c == 'crl':
        rev = ber.tlv(0, True, 16, b'\x02\x01\x05' + ber.tlv(0, False, 23, b'200101000000Z'))
        tbs = (b'\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00' + b'\x30\x00' +
               ber.tlv(0, False, 23, b'200101000000Z') + ber.tlv(0, True, 16, rev * (n // 4)))
        return {'cls': 'crl.CertificateList', 'hex': ber.tlv(0, True, 16, ber.tlv(0, True, 16, tbs) +
                b'\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00' + b'\x03\x02\x00\x01').hex()}
    if c == 'long':
        k, tag = rng.choice([('Integer', 2), ('BitString', 3), ('OctetString', 4), ('ObjectIdentifier', 6), ('UTF8String', 12),
                             ('BMPString', 30), ('IntegerOctetString', 4), ('IntegerBitString', 3), ('PrintableString', 19),
                             ('GeneralizedTime', 24), ('Any', 4), ('UniversalString', 28), ('TeletexString', 20)])
        body = bytes(rng.choice([0x31, 0x80, 0x81, 0xff, 0x00, 0x41, rng.getrandbits(8)]) for _ in range(n))
        if tag == 3:
            body = b'\x00' + body
        return {'cls': 'core.' + k, 'hex': ber.tlv(0, False, tag, body).hex()}
    if c == 'segments':
        k, tag = rng.choice([('OctetString', 4), ('UTF8String', 12), ('BitString', 3), ('ParsableOctetString', 4),
                             ('IntegerOctetString', 4)])
        seg = ber.tlv(0, False, tag, b'\x00A' if tag == 3 else b'A')
        return {'cls': 'core.' + k, 'hex': ber.tlv(0, True, tag, seg * n, 'indef').hex()}
    if c == 'nested':
        out = b'\x02\x01\x05'
        for _ in range(rng.choice([5, 12, 25])):
            out = ber.tlv(0, True, rng.choice([16, 17]), out, rng.choice([None, None, 'indef']))
        return {'cls': rng.choice(['core.Sequence', 'core.Set', 'core.Any', 'x509.Name', 'x509.GeneralName']), 'hex': out.hex()}
    if c == 'set':
        parts = [ber.tlv(2, False, i, b'\x05') for i in range(min(n, 600))]
        return {'cls': 'core.Set', 'hex': ber.tlv(0, True, 17, b''.join(parts)).hex()}
    node = {'k': 'seqof', 'of': {'k': 'bitsmap', 'map': dict((str(i), 'b%d' % i) for i in range(9))}}
    return {'node': node, 'v': None, 'hex': ber.tlv(0, True, 16, b'\x03\x03\x00\xff\xff' * n).hex()}


class Untyped(object):
    pass


def loader(s):
    if 'bulk' in s:
        cls = lib.cls(s['bulk'])
        data = bytes.fromhex(s['hex'])
        spec = lib.cls(s['spec'])
        return lambda: cls.load(data, spec=spec)
    return subject.loader(s)


def gen(rng, tier, i):
    r = rng.random()
    prop = None
    if r < 0.08:
        return gen_pem(rng)
    if r < 0.2:
        s = bulky(rng)
    else:
        if r < 0.4:
            s, prop = subject.targeted(rng)
        else:
            s = subject.gen(rng, damage=0, ber_prob=0.2, rich=0.15, odd=0.06)
    odd = not prop and s.get('cls') in ('x509.Certificate', 'x509.GeneralNames')
    if odd and s['cls'] == 'x509.Certificate' and rng.random() < 0.5:
        prop = 'domain:' + rng.choice(common.DOMAINS)
    if r > 0.12 and not (odd and rng.random() < 0.3):
        data = bytes.fromhex(s['hex'])
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            data, f = subject.damaged(rng, data)
            faults += f
        s['hex'] = data.hex()
        s['faults'] = faults
    s.pop('v', None)
    return {'s': s, 'prop': prop, 'count': rng.choice([4, 8, 14, 24]), 'seed': rng.randrange(1 << 20)}


def gen_pem(rng):
    out = b''
    for _ in range(rng.randint(1, 3)):
        e = corpus.pick(rng, max_len=600)
        label = rng.choice(['CERTIFICATE', 'RSA PRIVATE KEY', 'X', ''])
        b64 = base64.b64encode(bytes.fromhex(e['hex'])).decode()
        width = rng.choice([64, 76, 20])
        out += ('-----BEGIN %s-----\n%s%s\n-----END %s-----\n' % (
            label, rng.choice(['', '', 'Proc-Type: 4,ENCRYPTED\nDEK-Info: x\n\n']),
            '\n'.join(b64[j:j + width] for j in range(0, len(b64), width)), label)).encode()
    if rng.random() < 0.1:
        out = out * 20
    data, faults = out, []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        data, f = subject.damaged(rng, data)
        faults += f
    return {'pem': data.hex(), 'faults': faults, 'seed': 0}


# ------------------------------------------------------------------ running

def call(fn, what, size, stats):
    """Runs a read; -> its value or None when it was refused"""
    try:
        got, n = work.measure(fn, 40 * budget(size))
    except common.REFUSED:
        stats.add('refused')
        n = work.N[0]
        got = None
    except work.TooMuchWork:
        raise Violation(WORK, '%s: more than %d steps for %d bytes' % (what, 40 * budget(size), size), WORK)
    except RecursionError:
        return None
    except Exception as e:
        if type(e).__name__ == 'APIException':
            # a property that was removed from the library says so for every value
            return None
        raise Violation(WHAT, '%s raised %s: %s' % (what, type(e).__name__, str(e)[:400]), WHAT)
    if n > budget(size):
        raise Violation(WORK, '%s: %d steps for %d bytes' % (what, n, size), WORK)
    stats.seen('work per byte', n // (size + 100))
    return got


def run(case, stats):
    if 'pem' in case:
        return run_pem(case, stats)
    load = loader(case['s'])
    for k, n in case['s'].get('faults') or []:
        stats.add('fault:storage ' + k)
    size = len(case['s']['hex']) // 2
    root = call(load, 'load', size, stats)
    stats.seen('case', case)
    parser = lib.mod('parser')
    data = bytes.fromhex(case['s']['hex'])
    call(lambda: parser.peek(data), 'peek', size, stats)
    call(lambda: parser.parse(data), 'parse', size, stats)
    if root is None:
        stats.add('refused at load')
        return
    rng = random.Random(case['seed'])
    try:
        found = common.nodes(root, 60)
    except common.REFUSED:
        found = [([], root)]
    reads = [([], 'force'), ([], 'native'), ([], 'debug'), ([], 'dump')]
    for _ in range(case['count']):
        path, v = found[0] if rng.random() < 0.3 else rng.choice(found)
        ops = common.ops_for(v) + ['force', 'hash']
        props = [o for o in ops if o.startswith('.')]
        reads.append((path, rng.choice(props) if props and rng.random() < 0.5 else rng.choice(ops)))
    if case.get('prop'):
        reads.append(([], case['prop']))
    rng.shuffle(reads)
    if rng.random() < 0.5:
        # as it comes, without having looked around first
        root = call(load, 'load', size, stats)
    for path, op in reads:
        stats.add('steps')
        call(lambda: raw(root, path, op), '%s of %s' % (op, path), size, stats)
        stats.seen('read kinds', (case['s'].get('cls') or case['s'].get('bulk'), op) if not path else op)


def raw(root, path, op):
    if op == 'force':
        return common.at(root, path).dump(force=True)
    if op == 'hash':
        return hash(common.at(root, path))
    got = []
    real = common.outcome
    common.outcome = lambda fn: got.append(fn())
    try:
        common.read(root, path, op)
    finally:
        common.outcome = real
    return 1


def run_pem(case, stats):
    pem = lib.mod('pem')
    data = bytes.fromhex(case['pem'])
    for k, n in case['faults']:
        stats.add('fault:storage ' + k)
    stats.seen('case', case)
    for name, fn in (('detect', lambda: pem.detect(data)), ('unarmor', lambda: pem.unarmor(data)),
                     ('unarmor multiple', lambda: list(pem.unarmor(data, multiple=True)))):
        stats.add('steps')
        call(fn, name, len(data), stats)


def shrink(case):
    return ()
