"""The committed corpus of valid encodings of the classes the library ships"""
import json
import os

_all = []
_rich = []
_messages = []
MESSAGES = ('x509.Certificate', 'x509.TrustedCertificate', 'crl.CertificateList', 'ocsp.OCSPRequest', 'ocsp.OCSPResponse')
_by = {}


def entries():
    if not _all:
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', 'corpus.jsonl')
        with open(path) as f:
            for line in f:
                e = json.loads(line)
                _all.append(e)
                if e['src'] == 'rich':
                    _rich.append(e)
                    if e['cls'] in MESSAGES:
                        _messages.append(e)
                _by.setdefault(e['cls'], []).append(e)
    return _all


_derived = {}


def derived(name, op):
    """The entries for which a derived attribute has something to say (corpus/derived.json, from tools/mkrich.py)"""
    if not _derived:
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', 'derived.json')
        with open(path) as f:
            _derived.update(json.load(f))
    found = _by[name]
    return [found[i] for i in _derived.get(name, {}).get(op, ())]


def pick(rng, canonical=False, max_len=None, only=None, rich=0.08):
    """Picks a class first, so rare classes get their share; real-world files are favoured"""
    entries()
    for _ in range(1000):
        r = rng.random()
        if r < rich:
            e = rng.choice(_messages if rng.random() < 0.6 else _rich)
        elif r < rich + 0.25:
            e = rng.choice(_all)
            if e['src'] in ('synthesized', 'nested', 'rich'):
                continue
        else:
            e = rng.choice(_by[rng.choice(sorted(_by))])
        if canonical and not e['canonical']:
            continue
        if max_len is not None and len(e['hex']) > 2 * max_len:
            continue
        if only is not None and not only(e):
            continue
        return e
    raise RuntimeError('no corpus entry matches')
