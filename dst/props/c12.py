"""
C12: processes that import, reload, register and use in different orders and environments.
"""
import json
import os
import random
import subprocess
import sys

from .. import corpus, life, lib, schema
from ..runner import VERIF, Violation

N = {'quick': 1000, 'thorough': 60000}
RULE = ('a case is a workload (values of shipped classes and random types, names of every mapped class, PEM, times, names, '
        'registered names), 1-4 application registrations, and 2-5 simulated processes that import the modules, register, '
        'use types, reload and see the clock and the time zone jump in a random order, in an environment with its own hash '
        'seed, time zone, locale, clock and optimisation level; non-trivial when a process differs from the reference in '
        'its order of steps or environment; distinct by (workload, processes)')
STEP = 'imports, registrations, uses, reloads and jumps'
STUB = ('the clock (datetime runs as Python code over a simulated time module) and the environment of each process; the '
        'processes are real interpreters, one fork per simulated life')
ASSUMPTIONS = ['the reference imports every module in the documented order and registers before the first use, with hash '
               'seed 0, UTC, the C locale and a fixed clock', 'only the locales C, C.utf8 and POSIX are installed here',
               'printed forms (str, repr, debug) are not compared']
WHAT = 'results depend on how the process was set up'
SEED = 1
REF = {'hashseed': 0, 'tz': 'UTC', 'lc': 'C', 'opt': '', 'utf8': 1, 'clock': 1577880000.0}
TZS = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XYZ+11:45', 'HAW10', 'ABC-14']
CLOCKS = [None, 1.0, 86399.0, 946684799.5, 1577836800.0, 1709208000.0, 2147483647.5, 2524607999.5, 2524608000.0,
          4102444799.0, 7258118400.0, 32503680000.0]
LATE = ['x509.Extension', 'cms.CMSAttribute', 'cms.ContentInfo', 'cms.EncapsulatedContentInfo']
_mapped = []
_opened = []
_servers = {}
_types = {}


def setup():
    lib.load_all()
    mapped()
    opened()


def mapped():
    if not _mapped:
        from . import c06
        core = lib.core()
        for path, items in c06.mapped():
            c = lib.cls(path)
            if issubclass(c, core.ObjectIdentifier):
                _mapped.append(('oid', path, items))
            elif issubclass(c, core.BitString):
                pass
            else:
                _mapped.append(('map', path, items))
            if path == 'algos.EncryptionAlgorithmId':
                # has all the names of the other algorithm types
                _mapped.append(('oid', 'algos.AnyAlgorithmId', items))
    return _mapped


def opened():
    """Shipped structures in which an identifier names the type of another field"""
    if not _opened:
        from .. import shipped
        core = lib.core()
        for path, c in shipped.classes():
            if issubclass(c, core.Sequence) and c.__dict__.get('_oid_specs'):
                a, b = life.pair(c)
                ident = [f[1] for f in c._fields if f[0] == a][0]
                names = sorted((ident._map or {}).values(), key=str)
                known = [n for n in names if n in c._oid_specs]
                if known:
                    _opened.append((path, a, known, [n for n in names if n not in c._oid_specs]))
    return _opened


# ------------------------------------------------------------ environments

def env_for(seed, block):
    r = random.Random('%s/env/%s' % (seed, block))
    return {'hashseed': r.randrange(1, 1 << 20), 'tz': r.choice(TZS), 'lc': r.choice(['C', 'C.utf8', 'POSIX', 'C']),
            'opt': r.choice(['', '', '-O', '-OO']), 'utf8': r.choice([0, 1]), 'clock': r.choice(CLOCKS)}


class Server(object):
    def __init__(self, env):
        e = dict(os.environ)
        for k in ('TZ', 'LANG', 'LC_ALL', 'LC_CTYPE', 'PYTHONUTF8', 'PYTHONOPTIMIZE', 'PYTHONHASHSEED'):
            e.pop(k, None)
        e.update({'PYTHONHASHSEED': str(env['hashseed']), 'TZ': env['tz'], 'LC_ALL': env['lc'],
                  'PYTHONCOERCECLOCALE': '0'})
        cmd = [sys.executable, '-B'] + ([env['opt']] if env['opt'] else []) + ['-X', 'utf8=%d' % env['utf8']]
        self.p = subprocess.Popen(cmd + [life.__file__, json.dumps({'clock': env['clock']})], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=e, cwd=VERIF, text=True, encoding='utf-8')

    def ask(self, req):
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('a simulated process ended early (status %s)' % self.p.wait())
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.kill()
        self.p.wait()


def server(env):
    key = json.dumps(env, sort_keys=True)
    if key not in _servers:
        keep = [k for k in _servers if k != json.dumps(REF, sort_keys=True)]
        while len(keep) >= 2:
            _servers.pop(keep.pop(0)).close()
        _servers[key] = Server(env)
    return _servers[key]


def ask(env, req):
    try:
        return server(env).ask(req)
    except BaseException:
        # its stream is out of step with us now
        s = _servers.pop(json.dumps(env, sort_keys=True), None)
        if s is not None:
            s.p.kill()
            s.p.wait()
        raise


# ------------------------------------------------------------ cases

SPECS = [
    ('cms.CMSAttributeType', ['cms.CMSAttribute'], 'cms.SetOfOctetString', ['00ff', '01']),
    ('cms.CMSAttributeType', ['cms.CMSAttribute'], 'cms.SetOfOctetString', ['aa']),
    ('cms.ContentType', ['cms.ContentInfo', 'cms.EncapsulatedContentInfo'], 'core.OctetString', '0102'),
    ('x509.ExtensionId', ['x509.Extension'], 'core.Utf8String', 'value'),
    ('x509.NameType', ['x509.NameTypeAndValue'], 'core.IA5String', 'x'),
    ('algos.DigestAlgorithmId', ['algos.DigestAlgorithm'], 'core.Integer', 5),
    ('algos.SignedDigestAlgorithmId', ['algos.SignedDigestAlgorithm'], 'core.Integer', 5),
    ('algos.EncryptionAlgorithmId', ['algos.EncryptionAlgorithm'], 'core.OctetString', '00112233'),
    ('csr.CSRAttributeType', ['csr.CRIAttribute'], 'cms.SetOfOctetString', ['01']),
    ('pkcs12.BagId', ['pkcs12.SafeBag'], 'core.OctetString', '01'),
    ('ocsp.ResponseType', ['ocsp.ResponseBytes'], 'core.Utf8String', 'r'),
    ('crl.CRLEntryExtensionId', ['crl.CRLEntryExtension'], 'core.Integer', 7),
]


def gen_reg(rng, n):
    r = rng.random()
    oid = '1.3.6.1.4.1.55555.%d.%d' % (rng.randrange(1, 1 << 16), n)
    if rng.random() < 0.2:
        oid = '2.16.840.1.101.%d' % (1000 + rng.randrange(1 << 20))
    name = 'sim_%d_%d' % (rng.randrange(1000), n)
    if r < 0.2:
        return {'kind': 'curve', 'name': name, 'oid': oid, 'size': rng.choice([1, 20, 32, 66])}
    if r < 0.45:
        k, path, items = rng.choice([x for x in mapped() if x[0] == 'oid'])
        return {'kind': 'oid', 'id': path, 'oid': oid, 'name': name}
    if r < 0.55:
        k, path, items = rng.choice([x for x in mapped() if x[0] == 'map'])
        return {'kind': 'value', 'id': path, 'oid': str(rng.randrange(200, 250)), 'name': name}
    while True:
        i, seqs, spec, native = rng.choice(SPECS)
        if seqs and exists([i] + seqs + [spec]):
            r = {'kind': 'spec', 'id': i, 'seq': seqs, 'oid': oid, 'name': name, 'spec': spec, 'native': native}
            if seqs[0] in ('algos.EncryptionAlgorithm', 'algos.SignedDigestAlgorithm'):
                # knows all the algorithms of those
                r['also'] = ['algos.AnyAlgorithmIdentifier']
            return r


def exists(paths):
    try:
        for p in paths:
            lib.cls(p)
        for p in paths[1:-1]:
            # the type has to be one applications can extend
            if lib.cls(p)._oid_pair is None or lib.cls(p)._oid_specs is None:
                return False
        return True
    except AttributeError:
        return False


def gen_item(rng, regs):
    r = rng.random()
    if r < 0.45:
        e = corpus.pick(rng, max_len=2500)
        return ['value', e['cls'], e['hex'], rng.choice([10, 30])]
    if r < 0.57:
        node, v = schema.gen_root(rng)
        return ['schema', node, v, schema.der(node, v).hex()]
    if r < 0.7:
        kind, path, items = rng.choice(mapped())
        if rng.random() < 0.25:
            kind, path, items = rng.choice([x for x in mapped() if x[1] in (
                'x509.ExtensionId', 'cms.CMSAttributeType', 'cms.ContentType', 'x509.KeyPurposeId')])
        some = rng.sample(items, min(len(items), 8))
        mine = [(g['oid'], g['name']) for g in regs if g.get('id') == path]
        if kind == 'oid':
            return ['oid', path, [str(k) for k, v in some] + ['1.2.3.4'] + [o for o, n in mine],
                    [v for k, v in some] + ['nothing_like_it', '1.2.3.4'] + [n for o, n in mine]]
        return ['map', path, [k for k, v in some if isinstance(k, int)] + [77] + [int(o) for o, n in mine],
                [v for k, v in some] + ['nothing_like_it'] + [n for o, n in mine]]
    if r < 0.79:
        path, ident, known, others = rng.choice(opened())
        if rng.random() < 0.5:
            # those that other modules of the library add to
            path, ident, known, others = rng.choice([x for x in opened() if x[0] in LATE])
            others = []
        some = rng.sample(known, min(len(known), 10)) + rng.sample(others, min(len(others), 2))
        return ['open', path, some, rng.choice(['0500', '3100', '3000', '040100', '3106040101040102', '020105'])]
    if r < 0.83:
        return ['pem', rng.choice(['CERTIFICATE', 'X', 'RSA PRIVATE KEY']),
                bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 48, 100]))).hex(),
                rng.choice([[], [['a', 'b'], ['c', 'd']]])]
    if r < 0.92:
        return gen_time(rng)
    if r < 0.97:
        return gen_name(rng, regs)
    return ['iri', rng.choice(['http://example.com/\u00e9?x=\u4e2d#f', 'https://b\u00fccher.example/a%20b',
                               'ldap://x/cn=a', 'http://user:pw@example.com:80/'])]


def gen_name(rng, regs):
    fields = [('country_name', 'US'), ('common_name', 'Will Bond \u00e9'), ('organization_name', 'Codex'),
              ('email_address', 'a@example.com'), ('domain_component', 'Example'), ('street_address', '1  Way'),
              ('1.2.3.4', 'x'), ('serial_number', '42'), ('organizational_unit_name', ['b', 'a', '\u212b']),
              ('unique_identifier', '10'), ('user_id', 'u'), ('tpm_model', 'm')]
    a = rng.sample(fields, rng.randint(1, 6))
    a += [(rng.choice([g['name'], g['name'], g['oid']]), 'x%d' % n) for n, g in enumerate(regs)
          if 'x509.NameTypeAndValue' in g.get('seq', [])]
    b = list(a)
    rng.shuffle(b)
    return ['name', a, b, rng.random() < 0.5]


def gen_time(rng):
    r = rng.random()
    y = rng.choice([1950, 1969, 1970, 1999, 2000, 2024, 2037, 2038, 2049])
    h, mi, s = rng.randrange(24), rng.randrange(60), rng.randrange(60)
    mo, d = rng.randint(1, 12), rng.randint(1, 28)
    if r < 0.35:
        text = '%02d%02d%02d%02d%02d' % (rng.choice([y % 100, rng.randrange(100)]), mo, d, h, mi)
        text += rng.choice(['%02d' % s, '']) + rng.choice(['Z', 'Z', '+0130', '-1145'])
        return ['time', 'UTCTime', 'load', text]
    if r < 0.65:
        text = '%04d%02d%02d%02d' % (rng.choice([y, 0, 1, 2050, 2500, 9999]), mo, d, h)
        text += rng.choice(['', '%02d' % mi, '%02d%02d' % (mi, s), '%02d%02d.5' % (mi, s), '%02d%02d,123456' % (mi, s)])
        return ['time', 'GeneralizedTime', 'load', text + rng.choice(['Z', 'Z', '', '+0130', '-11'])]
    off = rng.choice([0, 0, 90, -705, 840, None])
    if r < 0.75:
        return ['year0', [mo, d, h, mi, s, rng.choice([0, 5, 999999]), off or 0]]
    which = rng.choice(['UTCTime', 'GeneralizedTime'])
    return ['time', which, 'set', [y if which == 'UTCTime' else rng.choice([y, 1, 9998, 2500]), mo, d, h, mi, s,
                                   rng.choice([0, 500000]), off]]


def gen(rng, tier, i):
    regs = [gen_reg(rng, n) for n in range(rng.choice([0, 1, 1, 2, 4]))]
    if rng.random() < 0.15:
        # kinds of names the library has no place for in its order
        for n in range(len(regs), len(regs) + rng.choice([1, 2, 3])):
            regs.append({'kind': 'spec', 'id': 'x509.NameType', 'seq': ['x509.NameTypeAndValue'],
                         'oid': '1.3.6.1.4.1.55555.%d.%d' % (rng.randrange(1, 1 << 16), n),
                         'name': '%s_%d_%d' % (rng.choice('asz'), rng.randrange(1000), n),
                         'spec': rng.choice(['x509.DirectoryString', 'core.IA5String']), 'native': 'x'})
    items = [['reg', r] for r in regs] + [gen_item(rng, regs) for _ in range(rng.choice([4, 6, 8]))]
    if any('x509.NameTypeAndValue' in g.get('seq', []) for g in regs):
        items.append(gen_name(rng, regs))
    lives = []
    for _ in range(rng.choice([2, 3, 4])):
        lives.append(gen_life(rng, regs, items))
    return {'env': env_for(SEED, i // 160), 'regs': regs, 'items': items, 'lives': lives}


def gen_life(rng, regs, items):
    steps = []
    mods = life.MODULES + ['']
    style = rng.random()
    pool = [['import', m] for m in rng.sample(mods, rng.choice([0, 2, 6, len(mods)]))]
    uses = [['use', rng.randrange(len(items))] for _ in range(rng.choice([0, 1, 2, 4]))]
    marks = [['register', n] for n in range(len(regs))]
    if style < 0.3:
        # everything in use before anything is registered
        steps = uses + marks + pool
    elif style < 0.5:
        steps = pool + uses + marks
    else:
        steps = pool + uses + marks
        rng.shuffle(steps)
    for _ in range(rng.choice([0, 0, 1, 2])):
        steps.insert(rng.randint(0, len(steps)), rng.choice([
            ['clock', rng.choice([c for c in CLOCKS if c])], ['tz', rng.choice(TZS)],
            ['locale', rng.choice(['', 'C', 'C.utf8'])]]))
    if rng.random() < 0.3:
        steps.insert(rng.randint(0, len(steps)), ['reload'])
    order = list(range(len(items)))
    rng.shuffle(order)
    out = {'steps': steps, 'order': order}
    if rng.random() < 0.3:
        out['tz'] = rng.choice(TZS)
    if rng.random() < 0.3:
        out['clock'] = rng.choice([c for c in CLOCKS if c])
    return out


def reference(case, full=()):
    req = {'regs': case['regs'], 'items': case['items'],
           'lives': [{'steps': [['import', m] for m in life.MODULES] + [['register', n] for n in range(len(case['regs']))],
                      'order': list(range(len(case['items']))), 'full': list(full)}]}
    got = ask(REF, req)[0]
    if 'died' in got:
        raise RuntimeError(got['died'])
    return got


def run(case, stats):
    want = reference(case)
    req = {'regs': case['regs'], 'items': case['items'], 'lives': case['lives']}
    got = ask(case['env'], req)
    stats.seen('case', (case['items'], case['lives'], case['env']))
    stats.seen('environments', case['env'])
    for n, lf in enumerate(case['lives']):
        for s in lf['steps']:
            stats.add('steps')
            if s[0] == 'register':
                stats.add('fault:late registration')
            elif s[0] in ('reload', 'clock', 'tz', 'locale'):
                stats.add('fault:' + {'clock': 'clock jump', 'tz': 'time zone change', 'reload': 'reload',
                                      'locale': 'locale change'}[s[0]])
        stats.seen('orders of steps', lf['steps'])
        if 'died' in got[n]:
            raise Violation(WHAT, 'life %d failed: %s' % (n, got[n]['died'][-1500:]), WHAT + ': failed')
        for i, item in enumerate(case['items']):
            stats.add('results compared')
            if got[n][str(i)] != want[str(i)]:
                a = reference(case, [i])[str(i)]
                b = ask(case['env'], dict(req, lives=[dict(lf, full=[i])]))[0].get(str(i))
                raise Violation(WHAT, 'item %s\nenvironment %s\nprocess %s\n%s' % (
                    str(item)[:600], case['env'], lf, first(a, b)), WHAT)


def first(a, b, path=()):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first(x, y, path + (i,))
    return 'at %s: reference %s\ngot %s' % (list(path), str(a)[:500], str(b)[:500])


def shrink(case):
    if len(case['lives']) > 1:
        for l in case['lives']:
            yield dict(case, lives=[l])
    for n, l in enumerate(case['lives']):
        def put(m):
            return dict(case, lives=case['lives'][:n] + [m] + case['lives'][n + 1:])
        for j in range(len(l['steps'])):
            yield put(dict(l, steps=l['steps'][:j] + l['steps'][j + 1:]))
        for k in ('tz', 'clock'):
            if k in l:
                yield put(dict((a, b) for a, b in l.items() if a != k))
        if l['order'] != sorted(l['order']):
            yield put(dict(l, order=sorted(l['order'])))
    used = set(s[1] for l in case['lives'] for s in l['steps'] if s[0] == 'use')
    for i in range(len(case['items'])):
        if i not in used and len(case['items']) > 1:
            items = case['items'][:i] + case['items'][i + 1:]
            lives = []
            for l in case['lives']:
                lives.append(dict(l, order=[x - (x > i) for x in l['order'] if x != i],
                                  steps=[['use', s[1] - (s[1] > i)] if s[0] == 'use' else s for s in l['steps']]))
            yield dict(case, items=items, lives=lives)
    for k, v in REF.items():
        if case['env'][k] != v:
            yield dict(case, env=dict(case['env'], **{k: v}))
