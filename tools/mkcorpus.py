"""
Development tool: writes corpus/corpus.jsonl (committed).  Not run by any check.
  python3 tools/mkcorpus.py
"""
import glob
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import lib, schema, shipped, ber  # noqa

lib.load_all()
pem = lib.mod('pem')

CAND = ['x509.Certificate', 'keys.PrivateKeyInfo', 'keys.PublicKeyInfo', 'keys.EncryptedPrivateKeyInfo',
        'keys.RSAPrivateKey', 'keys.DSAPrivateKey', 'keys.ECPrivateKey', 'keys.RSAPublicKey', 'csr.CertificationRequest',
        'crl.CertificateList', 'ocsp.OCSPRequest', 'ocsp.OCSPResponse', 'cms.ContentInfo', 'tsp.TimeStampReq',
        'tsp.TimeStampResp', 'pkcs12.Pfx']
out = []
seen = set()


def add(src, cls, data, canonical):
    if (cls, data) in seen:
        return
    seen.add((cls, data))
    out.append({'src': src, 'cls': cls, 'hex': data.hex(), 'canonical': canonical})


for path in sorted(glob.glob('/repo/tests/fixtures/**/*', recursive=True)):
    if not os.path.isfile(path):
        continue
    data = open(path, 'rb').read()
    blobs = []
    try:
        if pem.detect(data):
            blobs = [b for _, _, b in pem.unarmor(data, multiple=True)]
        else:
            blobs = [data]
    except ValueError:
        continue
    for b in blobs[:3]:
        if len(b) > 6000:
            continue
        for c in CAND:
            cls = lib.cls(c)
            try:
                o = cls.load(b, strict=True)
                o.native
            except Exception:
                continue
            try:
                canonical = cls.load(b).dump(force=True) == b
            except Exception:
                canonical = False
            if c in ('keys.RSAPublicKey',) and not canonical:
                continue
            add(os.path.relpath(path, '/repo/tests/fixtures'), c, b, canonical)

fails = {}
for name, cls in shipped.classes():
    try:
        node = shipped.from_class(cls)
    except shipped.Unsupported as e:
        fails[name] = 'unsupported ' + str(e)
        continue
    got = 0
    for s in range(60):
        rng = random.Random('%s/%d' % (name, s))
        try:
            v = shipped.gen(rng, node, 2 if s % 2 else 1)
            d = schema.der(node, v)
        except Exception as e:
            fails[name] = 'gen %s %s' % (type(e).__name__, e)
            continue
        if len(d) > 2500:
            continue
        try:
            o = cls.load(d, strict=True)
            o.native
            p = cls.load(d)
            canonical = p.dump(force=True) == d
        except Exception as e:
            fails.setdefault(name, 'load %s %s' % (type(e).__name__, str(e)[:150].replace('\n', ' ')))
            continue
        if not canonical:
            fails.setdefault(name, 'canonical %s / %s' % (d.hex()[:60], p.dump().hex()[:60]))
        add('synthesized', name, d, canonical)
        got += 1
        if got >= (4 if node['k'] in ('seq', 'set', 'choice', 'seqof', 'setof') else 2):
            break

from collections import Counter  # noqa
from dst import common  # noqa
have = Counter(e['cls'] for e in out)
names = dict((c, n) for n, c in shipped.classes())
for e in list(out):
    if e['src'] == 'synthesized':
        continue
    for path, v in common.nodes(lib.cls(e['cls']).load(bytes.fromhex(e['hex'])), 400):
        n = names.get(type(v))
        if n and path and have[n] < 5:
            try:
                d = v.untag().dump()
                o = type(v).load(d, strict=True)
                o.native
                canonical = type(v).load(d).dump(force=True) == d
            except Exception:
                continue
            if len(d) < 2500 and (n, d) not in seen:
                have[n] += 1
                add('nested', n, d, canonical)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rich  # noqa
for n, d in rich.all_():
    cls = lib.cls(n)
    o = cls.load(d, strict=True)
    common.native_of(o)
    add('rich', n, d, cls.load(d).dump(force=True) == d)

os.makedirs('corpus', exist_ok=True)
with open('corpus/corpus.jsonl', 'w') as f:
    for e in out:
        f.write(json.dumps(e) + '\n')
print(len(out), sum(len(e['hex']) // 2 for e in out), sum(1 for e in out if not e['canonical']))
print(len(set(e['cls'] for e in out)))
have = set(e['cls'] for e in out)
for k, v in sorted(fails.items()):
    print(k, '' if k in have else 'NONE', v)
