"""
EC private keys, whose encoding depends on a size that is remembered, inferred or prescribed by a curve: alone and in a
PrivateKeyInfo.  Every edit is applied to all sides (the live value and its reloads or copies), which have to stay alike.
"""
import copy
import pickle

from . import common, lib
from .runner import Violation

CURVES = ['secp192r1', 'secp224r1', 'secp256r1', 'secp384r1', 'secp521r1', 'sect163k1', 'secp256k1']
KEYS = [0, 1, 5, 255, 1 << 100, (1 << 160) + 7, (1 << 191) - 1, (1 << 250) + 3]


def gen(rng, mark):
    info = rng.random() < 0.4
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        r = rng.random()
        if r < 0.3:
            ops.append(['key', rng.choice(KEYS), rng.choice([None] + CURVES) if info else None])
        elif r < 0.45:
            ops.append(['params', rng.choice(CURVES)])
        elif r < 0.5:
            # the size that is remembered then is not part of the encoding
            ops.append(['del'] if not info and mark == ['copy', 'deepcopy'] else ['read', 'native'])
        elif r < 0.75:
            ops.append(['read', rng.choice(['native', 'dump', 'contents', 'parsed', 'params', 'repr', 'items'])])
        else:
            ops.append([rng.choice(mark)])
    ops.append([rng.choice(mark)])
    for _ in range(rng.choice([1, 1, 2])):
        ops.append(['key', rng.choice(KEYS), None] if rng.random() < 0.6 else ['params', rng.choice(CURVES)])
    return {'eckeys': info, 'first': [rng.choice(KEYS), rng.choice([None, None] + CURVES)], 'ops': ops,
            'load': rng.random() < 0.3}


def build(case):
    keys = lib.mod('keys')
    key, curve = case['first']
    info = case['eckeys']
    if info:
        ec = keys.ECPrivateKey({'version': 1, 'private_key': key})
        x = keys.PrivateKeyInfo({'version': 0, 'private_key_algorithm': {'algorithm': 'ec',
                                 'parameters': ('named', curve or 'secp256r1')}, 'private_key': ec})
    else:
        d = {'version': 1, 'private_key': key}
        if curve:
            d['parameters'] = ('named', curve)
        x = keys.ECPrivateKey(d)
    if case['load']:
        x = type(x).load(x.dump())
    return x


def apply(x, op, info):
    keys = lib.mod('keys')
    try:
        if op[0] == 'key':
            if not info:
                x['private_key'] = op[1]
            else:
                d = {'version': 1, 'private_key': op[1]}
                if op[2]:
                    d['parameters'] = ('named', op[2])
                x['private_key'] = keys.ECPrivateKey(d)
        elif op[0] == 'params':
            if not info:
                x['parameters'] = ('named', op[1])
            else:
                x['private_key_algorithm'] = {'algorithm': 'ec', 'parameters': ('named', op[1])}
        elif op[0] == 'del':
            del x['parameters']
        elif op[1] == 'parsed':
            x['private_key'].parsed.native if info else x['private_key'].native
        elif op[1] == 'params':
            x['private_key_algorithm'].native if info else x['parameters'].native
        else:
            common.read(x, [], op[1])
    except common.REFUSED + (OverflowError,) as e:
        # the key is too big for the curve
        return type(e).__name__
    return 'done'


def state(x, info):
    out = [x.dump().hex(), repr(common.native_of(x))]
    if info:
        parsed = x['private_key'].parsed
        out += [parsed.dump().hex(), parsed['private_key'].dump().hex()]
    return out


def run(case, stats, what):
    info = case['eckeys']
    try:
        sides = [('live', build(case))]
    except OverflowError:
        return
    kept = []
    stats.seen('case', case)
    for op in case['ops']:
        stats.add('steps')
        x = sides[-1][1]
        if op[0] == 'crash':
            stats.add('fault:death and reload')
            sides.append(('reloaded', type(x).load(x.dump())))
        elif op[0] in ('copy', 'deepcopy', 'pickle'):
            stats.add('copies')
            y = x.copy() if op[0] == 'copy' else copy.deepcopy(x) if op[0] == 'deepcopy' else pickle.loads(pickle.dumps(x))
            sides.append((op[0], y))
            kept.append((x.copy(), state(x, info)))
        else:
            got = [(n, apply(y, op, info)) for n, y in sides]
            if len(set(g for n, g in got)) > 1:
                raise Violation(what, '%s: %s' % (op, got), what)
            if got[0][1] != 'done':
                return
        want = state(sides[0][1], info)
        for n, y in sides[1:]:
            if state(y, info) != want:
                raise Violation(what, 'after %s the %s key is %s, the live one %s' % (op, n, state(y, info), want), what)
        for y, was in kept:
            if state(y, info) != was:
                raise Violation(what, 'a copy that was put aside is now %s, was %s' % (state(y, info), was), what)
