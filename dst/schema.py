"""
A small language of ASN.1 type definitions (JSON) with an independent encoder and
native-form model.  The same definition is turned into asn1crypto classes.

node = {"k": kind, "t": tagging, ...}
tagging = {"how": "imp"|"exp", "tags": [[cls, tag], ...], "at": "field"|"class"|"legacy"}
          (explicit tags from innermost to outermost)
"""
import datetime
import json
import sys
import types
from collections import OrderedDict

from . import ber, lib

UTC = datetime.timezone.utc

STR = {
    'utf8': (12, 'utf-8', 'UTF8String'), 'printable': (19, 'ascii', 'PrintableString'),
    'ia5': (22, 'ascii', 'IA5String'), 'bmp': (30, 'utf-16-be', 'BMPString'),
    'numeric': (18, 'ascii', 'NumericString'), 'visible': (26, 'latin1', 'VisibleString'),
    'universal': (28, 'utf-32-be', 'UniversalString'), 'general': (27, 'latin1', 'GeneralString'),
    'teletex': (20, 'latin1', 'TeletexString'),
}
UNI = {
    'bool': 1, 'int': 2, 'enum': 10, 'bits': 3, 'bitsmap': 3, 'obits': 3, 'ibits': 3, 'octets': 4,
    'intoctets': 4, 'poctets': 4, 'pobits': 3, 'null': 5, 'oid': 6, 'seq': 16, 'seqof': 16, 'set': 17, 'setof': 17,
    'utctime': 23, 'gentime': 24,
}
UNI.update((k, v[0]) for k, v in STR.items())
BASE = {
    'bool': 'Boolean', 'int': 'Integer', 'enum': 'Enumerated', 'bits': 'BitString', 'bitsmap': 'BitString',
    'obits': 'OctetBitString', 'ibits': 'IntegerBitString', 'octets': 'OctetString',
    'intoctets': 'IntegerOctetString', 'poctets': 'ParsableOctetString', 'pobits': 'ParsableOctetBitString',
    'null': 'Null', 'oid': 'ObjectIdentifier', 'utctime': 'UTCTime', 'gentime': 'GeneralizedTime',
}
BASE.update((k, v[2]) for k, v in STR.items())
CONSTRUCTED = ('seq', 'set', 'seqof', 'setof')
SEGMENTABLE = set(['octets', 'intoctets', 'poctets', 'bits', 'bitsmap', 'obits', 'ibits', 'pobits']) | (
    set(STR)) | set(['utctime', 'gentime'])
CLSNAMES = ['universal', 'application', 'context', 'private']


class MISSING(object):
    pass


# ---------------------------------------------------------------- encoding

def is_default(f, v):
    """What makes a value the default is its encoding: absent and spelled-out defaults inside it are the same"""
    if 'def' not in f:
        return False
    if v == f['def']:
        return True
    if not isinstance(v, (dict, list)):
        return False
    return der(f['n'], v) == der(f['n'], f['def'])


def resolve(node, f, v):
    """The node a field's value is encoded by, taking OID-dependent types into account"""
    n = f['n']
    dep = node.get('dep')
    if dep and dep['value'] == f['name']:
        key = v.get(dep['on'])
        if key is None:
            for g in node['fields']:
                if g['name'] == dep['on'] and 'def' in g:
                    key = g['def']
        key = str(key)
        if key in dep['specs']:
            inner = dep['specs'][key]
            if n['k'] in ('poctets', 'pobits', 'any'):
                return dict(n, inner=inner)
            return dict(inner, t=n.get('t')) if n.get('t') else inner
    return n


def contents(node, v, enc=None):
    """Contents octets.  enc(node, v) encodes nested values (DER by default)"""
    enc = enc or der
    k = node['k']
    if k == 'bool':
        return b'\xff' if v else b'\x00'
    if k == 'int':
        return ber.int_contents(unmap_(node, v))
    if k == 'enum':
        return ber.int_contents(unmap_(node, v))
    if k in ('bits', 'ibits', 'obits'):
        return ber.bits_contents(v)
    if k == 'bitsmap':
        idx = dict((name, int(i)) for i, name in node['map'].items())
        on = set(idx[name] for name in v)
        return ber.bits_contents(''.join('1' if i in on else '0' for i in range(max(on) + 1)) if on else '')
    if k == 'octets':
        return bytes.fromhex(v)
    if k == 'poctets':
        if 'inner' in node:
            return enc(node['inner'], v)
        return bytes.fromhex(v)
    if k == 'pobits':
        if 'inner' in node:
            return b'\x00' + enc(node['inner'], v)
        return b'\x00' + bytes.fromhex(v)
    if k == 'intoctets':
        return ber.uint_contents(v)
    if k == 'null':
        return b''
    if k == 'oid':
        return ber.oid_contents(v)
    if k in STR:
        return v.encode(STR[k][1])
    if k in ('utctime', 'gentime'):
        d = datetime.datetime.fromisoformat(v)
        s = d.strftime('%m%d%H%M%S')
        y = '%04d' % d.year
        if d.microsecond:
            s += ('.%06d' % d.microsecond).rstrip('0')
        return ((y[2:] if k == 'utctime' else y) + s + 'Z').encode('ascii')
    if k == 'seq' or k == 'set':
        parts = []
        for f in node['fields']:
            if f['name'] not in v or is_default(f, v[f['name']]):
                continue
            fn = resolve(node, f, v)
            parts.append(enc(fn, v[f['name']]))
        if k == 'set':
            parts.sort(key=lambda p: ber.header(p, 0)[0:3:2])
        return b''.join(parts)
    if k == 'seqof' or k == 'setof':
        parts = [enc(node['of'], x) for x in v]
        if k == 'setof':
            parts.sort()
        return b''.join(parts)
    raise AssertionError(k)


def unmap_(node, v):
    if 'map' in node and isinstance(v, str):
        for i, name in node['map'].items():
            if name == v:
                return int(i)
    return v


def tagging(node):
    t = node.get('t')
    if not t:
        return None, []
    if t['how'] == 'imp':
        return t['tags'][0], []
    return None, t['tags']


def der(node, v):
    k = node['k']
    imp, exps = tagging(node)
    if k == 'any':
        if 'inner' in node:
            out = der(node['inner'], v)
        else:
            out = der(v[0], v[1])
    elif k == 'choice':
        out = der(alt(node, v[0]), v[1])
    else:
        cls, tag = imp if imp else (0, UNI[k])
        out = ber.tlv(cls, k in CONSTRUCTED, tag, contents(node, v))
    for cls, tag in exps:
        out = ber.tlv(cls, True, tag, out)
    return out


def alt(node, name):
    for a in node['alts']:
        if a['name'] == name:
            return a['n']
    raise KeyError(name)


def ber_enc(node, v, rng, opt, stats=None):
    """A random BER encoding of the value.  opt: dict of probabilities"""
    def hit(name):
        if rng.random() < opt.get(name, 0):
            if stats is not None:
                stats[name] = stats.get(name, 0) + 1
            return True
        return False

    def form(cons):
        if cons and hit('indef'):
            return 'indef'
        if hit('longlen'):
            return rng.randint(1, 4)
        return None

    def rec(n, x):
        return ber_enc(n, x, rng, opt, stats)

    k = node['k']
    imp, exps = tagging(node)
    if k == 'any':
        out = rec(node['inner'], v) if 'inner' in node else rec(v[0], v[1])
    elif k == 'choice':
        out = rec(alt(node, v[0]), v[1])
    else:
        cls, tag = imp if imp else (0, UNI[k])
        if k in ('seq', 'set'):
            parts = []
            for f in node['fields']:
                name = f['name']
                if name not in v or is_default(f, v[name]):
                    if 'def' not in f or not hit('spelled_default'):
                        continue
                    parts.append(rec(resolve(node, f, v), f['def']))
                    continue
                parts.append(rec(resolve(node, f, v), v[name]))
            if k == 'set':
                # the elements of an untyped set are known by their position only
                if not node.get('bare') and hit('unsorted'):
                    rng.shuffle(parts)
                else:
                    parts.sort(key=lambda p: ber.header(p, 0)[0:3:2])
            out = ber.tlv(cls, True, tag, b''.join(parts), form(True))
        elif k in ('seqof', 'setof'):
            parts = [rec(node['of'], x) for x in v]
            if k == 'setof':
                if hit('unsorted'):
                    rng.shuffle(parts)
                else:
                    parts.sort()
            out = ber.tlv(cls, True, tag, b''.join(parts), form(True))
        else:
            if k in ('poctets', 'pobits') and 'inner' in node:
                c = contents(node, v, rec)
            else:
                c = contents(node, v)
            if k == 'bool' and v and hit('padded'):
                c = bytes([rng.randint(1, 255)])
            elif k in ('int', 'enum') and hit('padded'):
                c = ber.int_contents(unmap_(node, v), rng.randint(1, 3) + (len(c) - len(ber.int_contents(unmap_(node, v)))))
            elif k in ('utctime', 'gentime') and hit('padded'):
                c = time_form(k, v, rng)
            if k in SEGMENTABLE and not (node.get('t') or {}).get('at') == 'class' and hit('segments'):
                out = segments(cls, tag, k, c, rng, form, 0)
            else:
                out = ber.tlv(cls, False, tag, c, form(False))
    for cls, tag in exps:
        out = ber.tlv(cls, True, tag, out, form(True))
    return out


def time_form(k, v, rng):
    """Other spellings of a point in time"""
    d = datetime.datetime.fromisoformat(v)
    off = 0
    if rng.random() < 0.5 and 1901 <= d.year <= 2048 and (k == 'gentime' or d.year > 1950):
        off = rng.choice([0, 60, -60, 90, -705, 840, 330])
        d += datetime.timedelta(minutes=off)
    tail = rng.choice(['Z', '+0000']) if not off else '%s%02d%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    y = '%04d' % d.year
    s = (y[2:] if k == 'utctime' else y) + d.strftime('%m%d%H')
    short = rng.random() < 0.5
    if k == 'utctime':
        return (s + d.strftime('%M') + ('' if short and not d.second else d.strftime('%S')) + tail).encode('ascii')
    if tail[1:] == '0000' and rng.random() < 0.5:
        tail = tail[:3]
    mark = rng.choice('.,')
    if short and not d.microsecond and not d.second and d.minute in (0, 15, 30, 45):
        part = {0: '', 15: mark + '25', 30: mark + '5', 45: mark + '750'}[d.minute]
    elif short and not d.microsecond and d.second in (0, 15, 30, 45):
        part = d.strftime('%M') + {0: '', 15: mark + '25', 30: mark + '50', 45: mark + '75'}[d.second]
    else:
        part = d.strftime('%M%S') + (mark + '%06d' % d.microsecond if d.microsecond or rng.random() < 0.5 else '')
    return (s + part + tail).encode('ascii')


def segments(cls, tag, k, c, rng, form, depth):
    uni = UNI[k]
    if uni == 3:
        pad, body = c[0], c[1:]
    else:
        pad, body = 0, c
    n = rng.randint(0, 4)
    cuts = sorted(rng.randint(0, len(body)) for _ in range(n))
    pieces = [body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)])]
    if k in STR and STR[k][1] == 'utf-8':
        pass  # segments may split a character
    out = b''
    for i, p in enumerate(pieces):
        last = i == len(pieces) - 1
        if uni == 3:
            if last and pad and not p:
                # the padding must stay with the last piece that has bits
                p = b''
                pc = b'\x00'
            else:
                pc = bytes([pad if last else 0]) + p
        else:
            pc = p
        if depth < 2 and rng.random() < 0.15 and (uni != 3 or not (last and pad)):
            out += segments(0, uni, k, pc, rng, form, depth + 1)
        else:
            out += ber.tlv(0, False, uni, pc, form(False))
    if uni == 3 and pad and pieces and not pieces[-1]:
        # re-do without an empty tail
        return ber.tlv(cls, True, tag, ber.tlv(0, False, uni, c), 'indef')
    return ber.tlv(cls, True, tag, out, 'indef')


# ---------------------------------------------------------------- native form

def native(node, v):
    k = node['k']
    if 'nat' in node:
        return node['nat']
    if k == 'any':
        return native(node['inner'], v) if 'inner' in node else native(v[0], v[1])
    if k in ('poctets', 'pobits') and 'inner' in node:
        return native(node['inner'], v)
    if k == 'choice':
        return native(alt(node, v[0]), v[1])
    if k == 'int' and 'map' in node:
        return node['map'].get(str(v), v)
    if k in ('bool', 'int', 'enum', 'intoctets', 'null'):
        return v
    if k == 'octets' and 'samples' in node:
        from . import shipped
        return shipped.IPS[v]
    if k in ('octets', 'poctets', 'pobits'):
        return bytes.fromhex(v)
    if k == 'obits':
        b = ber.bits_contents(v)
        return b[1:]
    if k == 'ibits':
        return int(v, 2) if v else 0
    if k == 'bits':
        return tuple(int(c) for c in v)
    if k == 'bitsmap':
        return set(v)
    if k == 'oid':
        return node.get('map', {}).get(v, v)
    if k in STR:
        return v
    if k in ('utctime', 'gentime'):
        return datetime.datetime.fromisoformat(v).replace(tzinfo=UTC)
    if k in ('seq', 'set'):
        out = OrderedDict()
        for f in node['fields']:
            fn = resolve(node, f, v)
            if f['name'] in v:
                out[f['name']] = native(fn, v[f['name']])
            elif 'def' in f:
                out[f['name']] = native(fn, f['def'])
            else:
                out[f['name']] = None
        return out
    if k in ('seqof', 'setof'):
        return [native(node['of'], x) for x in v]
    raise AssertionError(k)


def norm(node, nat, v=None):
    """Canonical comparable form of a native value; sets of are multisets"""
    k = node['k']
    if k == 'any' or (k in ('poctets', 'pobits') and 'inner' in node):
        if 'inner' in node:
            return norm(node['inner'], nat)
        return plain(nat)
    if k == 'choice':
        return plain(nat, unordered=True)
    if k in ('seq', 'set') and isinstance(nat, dict):
        known = dict((f['name'], f) for f in node['fields'])
        dep = node.get('dep')
        out = []
        for key, val in nat.items():
            f = known.get(key)
            if val is None or f is None or (dep and dep['value'] == key):
                out.append([key, plain(val, unordered=True)])
            else:
                out.append([key, norm(f['n'], val)])
        return [type(nat).__name__ in ('OrderedDict', 'dict') and 'map', out]
    if k in ('seqof', 'setof') and isinstance(nat, list):
        items = [norm(node['of'], x) for x in nat]
        if k == 'setof':
            items.sort(key=lambda i: json.dumps(i, sort_keys=True))
        return ['list', items]
    return plain(nat)


def plain(x, unordered=False):
    if x is None or x is True or x is False:
        return x
    if isinstance(x, int):
        return ['i', str(x)]
    if isinstance(x, str):
        return x
    if isinstance(x, bytes):
        return ['b', x.hex()]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted(str(i) for i in x)]
    if isinstance(x, tuple):
        return ['t', [plain(i, unordered) for i in x]]
    if isinstance(x, list):
        items = [plain(i, unordered) for i in x]
        if unordered:
            items.sort(key=lambda i: json.dumps(i, sort_keys=True))
        return ['list', items]
    if isinstance(x, dict):
        return ['map', [[k, plain(v, unordered)] for k, v in x.items()]]
    if isinstance(x, datetime.datetime):
        if x.tzinfo is None:
            return ['naive', x.isoformat()]
        return ['dt', x.astimezone(UTC).isoformat()]
    return ['obj', type(x).__name__, str(x)]


# ---------------------------------------------------------------- classes

DYN = types.ModuleType('dst_dyn')
sys.modules['dst_dyn'] = DYN
_COUNTER = [0]


def reset_classes():
    for name in list(vars(DYN)):
        if name.startswith('T'):
            delattr(DYN, name)
    _COUNTER[0] = 0


def _params(node, f=None):
    p = {}
    t = node.get('t')
    if t and t['at'] in ('field', 'legacy'):
        tags = [(CLSNAMES[c] if t['how'] == 'imp' else c, n) for c, n in t['tags']]
        if t['at'] == 'legacy':
            p['tag_type'] = 'implicit' if t['how'] == 'imp' else 'explicit'
            p['tag'] = t['tags'][0][1]
        elif t['how'] == 'imp':
            c, n = tags[0]
            p['implicit'] = n if c == 'context' else (c, n)
        else:
            if len(tags) == 1:
                c, n = tags[0]
                p['explicit'] = n if c == 2 else (c, n)
            else:
                p['explicit'] = tuple(tags)
    if f is not None:
        if f.get('opt'):
            p['optional'] = True
        if 'def' in f:
            p['default'] = to_py(f['n'], f['def'], plain_only=True)
    return p


def build(node, cache=None):
    """-> an asn1crypto class.  cache (a dict) shares classes of identical nodes"""
    core = lib.core()
    if 'cls' in node:
        return lib.cls(node['cls'])
    if node.get('bare'):
        return core.Sequence if node['k'] == 'seq' else core.Set
    if cache is None:
        cache = {}
    key = json.dumps(strip_field_tag(node), sort_keys=True)
    if key in cache:
        return cache[key]
    k = node['k']
    attrs = {}
    t = node.get('t')
    if k == 'any':
        if not (t and t['at'] == 'class'):
            return core.Any
        base = core.Any
    elif k == 'choice':
        base = core.Choice
        attrs['_alternatives'] = [
            tuple([a['name'], build(a['n'], cache)] + ([_params(a['n'])] if _params(a['n']) else []))
            for a in node['alts']]
    elif k in ('seq', 'set'):
        base = core.Sequence if k == 'seq' else core.Set
        fields = []
        for f in node['fields']:
            cls = build(f['n'], cache)
            p = _params(f['n'], f)
            fields.append((f['name'], cls, p) if p else (f['name'], cls))
        attrs['_fields'] = fields
        dep = node.get('dep')
        if dep:
            specs = dict((kk, build(n, cache)) for kk, n in dep['specs'].items())
            if dep['how'] == 'oid':
                attrs['_oid_pair'] = (dep['on'], dep['value'])
                omap = {}
                for f in node['fields']:
                    if f['name'] == dep['on']:
                        omap = f['n'].get('map', {})
                attrs['_oid_specs'] = dict((omap.get(kk, kk), s) for kk, s in specs.items())
            else:
                attrs['_spec_callbacks'] = {dep['value']: _callback(dep, node, specs)}
    elif k in ('seqof', 'setof'):
        base = core.SequenceOf if k == 'seqof' else core.SetOf
        attrs['_child_spec'] = build(node['of'], cache)
    else:
        base = getattr(core, BASE[k])
        if 'map' in node:
            if k == 'oid':
                attrs['_map'] = dict(node['map'])
            else:
                attrs['_map'] = dict((int(i), name) for i, name in node['map'].items())
    if t and t['at'] == 'class':
        if t['how'] == 'imp':
            attrs['class_'], attrs['tag'] = t['tags'][0]
        else:
            tags = [tuple(x) for x in t['tags']]
            attrs['explicit'] = tags[0] if len(tags) == 1 else tuple(tags)
    if not attrs and k not in ('choice',):
        cache[key] = base
        return base
    _COUNTER[0] += 1
    name = 'T%d' % _COUNTER[0]
    attrs['__module__'] = 'dst_dyn'
    cls = type(base)(name, (base,), attrs)
    setattr(DYN, name, cls)
    cache[key] = cls
    return cls


def _callback(dep, node, specs):
    on = dep['on']
    omap = {}
    for f in node['fields']:
        if f['name'] == on:
            omap = f['n'].get('map', {})
            inv = dict((n, kk) for kk, n in omap.items())
    default = dep.get('other')

    def cb(self):
        nat = self[on].native
        kk = str(inv.get(nat, nat))
        return specs.get(kk)
    return cb


def strip_field_tag(node):
    t = node.get('t')
    if t and t['at'] != 'class':
        node = dict(node)
        del node['t']
    return node


def to_py(node, v, rng=None, cache=None, plain_only=False):
    """What a user passes to build or assign this value"""
    k = node['k']
    if not plain_only and rng is not None and k not in ('any',) and not node.get('t') and rng.random() < 0.25:
        return instance(node, v, rng, cache)
    if k == 'any':
        if 'inner' in node:
            return instance(node['inner'], v, rng, cache)
        return instance(v[0], v[1], rng, cache)
    if k == 'null':
        return lib.core().Null()
    if k == 'choice':
        return build(node, cache)(name=v[0], value=to_py(alt(node, v[0]), v[1], rng, cache))
    if k in ('poctets', 'pobits') and 'inner' in node:
        return to_py(node['inner'], v, rng, cache, plain_only)
    if k in ('seq', 'set'):
        out = OrderedDict()
        for f in node['fields']:
            if f['name'] in v:
                out[f['name']] = to_py(resolve(node, f, v), v[f['name']], rng, cache)
        if not out:
            # an empty dict means "not set yet" to the library, so spell something out
            for f in node['fields']:
                if 'def' in f:
                    out[f['name']] = to_py(f['n'], f['def'], rng, cache)
                    break
            else:
                for f in node['fields']:
                    if f.get('opt'):
                        out[f['name']] = None
                        break
        return out
    if k in ('seqof', 'setof'):
        return [to_py(node['of'], x, rng, cache) for x in v]
    if k == 'ibits':
        return native(node, v)
    if k in ('utctime', 'gentime') and rng is not None and rng.random() < 0.3:
        t = native(node, v)
        if 1900 <= t.year <= 2050:
            return t.astimezone(datetime.timezone(datetime.timedelta(minutes=rng.choice([60, -90, 330, 840, -719]))))
        return t
    return native(node, v)


def instance(node, v, rng=None, cache=None):
    """An asn1crypto object of the value, built from native values"""
    cls = build(node, cache)
    p = _params(node)
    k = node['k']
    if node.get('bare'):
        # untyped, so there is nothing to build it from
        return cls.load(der(node, v))
    if k == 'any':
        return cls(to_py(node, v, rng, cache), **p)
    if k == 'choice':
        return cls(name=v[0], value=to_py(alt(node, v[0]), v[1], rng, cache), **p)
    if k in ('poctets', 'pobits') and 'inner' in node:
        return cls(der(node['inner'], v) if k == 'poctets' else der(node['inner'], v), **p)
    if k == 'null':
        return cls(**p)
    return cls(to_py(dict(node, t=None), v, rng, cache, plain_only=True), **p)


# ---------------------------------------------------------------- generators

SMALL = ('bool', 'int', 'octets', 'utf8', 'null', 'oid')
PRIMS = ['bool', 'int', 'int', 'enum', 'bits', 'bitsmap', 'octets', 'octets', 'null', 'oid', 'utf8', 'printable',
         'ia5', 'bmp', 'utctime', 'gentime', 'intoctets', 'poctets', 'obits', 'ibits', 'numeric', 'visible',
         'teletex', 'universal', 'general', 'pobits']
OIDS = ['1.2.3', '2.5.4.3', '1.2.840.113549.1.1.11', '2.999.1', '0.9.2342', '1.3.6.1.4.1.311', '2.23.140.1']


def gen_prim(rng, kinds=None):
    k = rng.choice(kinds or PRIMS)
    node = {'k': k}
    if k == 'enum' or (k == 'int' and rng.random() < 0.3):
        node['map'] = dict((str(i), 'n%d' % i) for i in sorted(rng.sample(range(-3, 12), rng.randint(2, 5))))
    if k == 'bitsmap':
        node['map'] = dict((str(i), 'b%d' % i) for i in sorted(rng.sample(range(0, 11), rng.randint(2, 6))))
    if k == 'oid' and rng.random() < 0.5:
        node['map'] = dict((o, 'o%d' % i) for i, o in enumerate(rng.sample(OIDS, 3)))
    return node


def outer_tags(node):
    imp, exps = tagging(node)
    if exps:
        return set([tuple(exps[-1])])
    if imp:
        return set([tuple(imp)])
    k = node['k']
    if k == 'choice':
        out = set()
        for a in node['alts']:
            out |= outer_tags(a['n'])
        return out
    if k == 'any':
        return None
    return set([(0, UNI[k])])


def gen_tagging(rng, node, used, at='field'):
    for _ in range(50):
        cls = rng.choice([2, 2, 2, 2, 2, 1, 3])
        tag = rng.choice(list(range(8)) * 3 + [30, 31, 32, 127, 128, 300])
        if (cls, tag) in used:
            continue
        exp = node['k'] in ('choice', 'any') or rng.random() < 0.4
        if exp:
            tags = [[cls, tag]]
            t = {'how': 'exp', 'tags': tags, 'at': at}
        else:
            t = {'how': 'imp', 'tags': [[cls, tag]], 'at': at}
        if at == 'field' and cls == 2 and len(t['tags']) == 1 and rng.random() < 0.12:
            t['at'] = 'legacy'
        return t
    return None


def gen_type(rng, depth, kinds=None, allow=None):
    """A random type without tagging"""
    allow = allow or ('seq', 'set', 'seqof', 'setof', 'choice')
    if depth <= 0 or rng.random() < 0.45:
        return gen_prim(rng, kinds)
    k = rng.choice([a for a in ('seq', 'seq', 'seq', 'set', 'seqof', 'setof', 'choice') if a in allow])
    return gen_struct(rng, k, depth, kinds, allow)


def gen_struct(rng, k, depth, kinds=None, allow=None):
    if k in ('seqof', 'setof'):
        of = gen_type(rng, depth - 1, kinds, allow)
        if kinds is None and rng.random() < 0.12:
            of = {'k': 'any'}
        if rng.random() < 0.15 and of['k'] != 'any':
            t = gen_tagging(rng, of, set(), 'class')
            # class-level tagging applies to freshly defined classes only
            if t and not (of['k'] == 'choice' and t['how'] == 'imp') and len(t['tags']) == 1:
                of = dict(of, t=t)
        return {'k': k, 'of': of}
    used = set()
    if k == 'choice':
        alts = []
        for i in range(rng.randint(2, 4)):
            n = gen_type(rng, depth - 1, kinds, allow)
            if n['k'] == 'any':
                continue
            ot = outer_tags(n)
            if ot & used or n['k'] == 'choice' or rng.random() < 0.5:
                t = gen_tagging(rng, n, used)
                if t is None:
                    continue
                n = dict(n, t=t)
                ot = outer_tags(n)
                if ot & used:
                    continue
            used |= ot
            alts.append({'name': 'a%d' % i, 'n': n})
        if not alts:
            alts = [{'name': 'a0', 'n': {'k': 'int'}}]
        return {'k': 'choice', 'alts': alts}
    node = {'k': k, 'fields': []}
    count = rng.randint(1, 5)
    # fields whose type depends on another field
    if k == 'seq' and rng.random() < 0.2 and depth >= 1:
        return gen_dependent(rng, depth, kinds, allow)
    for i in range(count):
        n = gen_type(rng, depth - 1, kinds, allow)
        last = i == count - 1
        if kinds is None and rng.random() < 0.3 and last and k == 'seq':
            n = {'k': 'any'}
        mode = rng.choice(['req', 'req', 'opt', 'def'])
        if n['k'] == 'any' and mode == 'def':
            mode = 'opt'
        ot = outer_tags(n)
        loose = any('opt' in g or 'def' in g for g in node['fields'])
        if n['k'] == 'any' and (mode != 'req' or loose) or (k == 'set' and n['k'] == 'choice') or ot is not None and ot & used or rng.random() < 0.35:
            t = gen_tagging(rng, n, used)
            if t is None:
                continue
            n = dict(n, t=t)
            ot = outer_tags(n)
        if ot is not None:
            if ot & used:
                continue
            used |= ot
        f = {'name': 'f%d' % i, 'n': n}
        if mode == 'opt':
            f['opt'] = True
        elif mode == 'def':
            if n['k'] in ('choice', 'poctets', 'pobits') or not simple(n):
                f['opt'] = True
            else:
                f['def'] = gen_value(rng, n, 1)
        node['fields'].append(f)
    if not node['fields']:
        node['fields'] = [{'name': 'f0', 'n': {'k': 'int'}}]
    return node


def simple(n):
    """Whether the type may be given a default"""
    if n['k'] in ('seq', 'set'):
        return all(simple(f['n']) for f in n['fields']) and 'dep' not in n
    if n['k'] in ('seqof', 'setof'):
        return simple(n['of']) and not n['of'].get('t')
    return n['k'] not in ('choice', 'any', 'poctets', 'pobits')


GENERIC_DEPTH = 2
GENERIC = SMALL + ('bits', 'utctime', 'gentime', 'printable', 'ia5', 'bmp')


def gen_generic(rng, depth):
    """A type as it is known from the encoding alone"""
    r = rng.random()
    if r < 0.7 or depth == 0:
        return {'k': rng.choice(GENERIC if r < 0.2 else SMALL)}
    fields = []
    members = [gen_generic(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    k = rng.choice(['seq', 'seq', 'set'])
    if k == 'set':
        # distinct, and in the order in which they are encoded
        members = [m for _, m in sorted(dict((UNI[m['k']], m) for m in members).items())]
    for i, m in enumerate(members):
        fields.append({'name': str(i), 'n': m})
    return {'k': k, 'bare': 1, 'fields': fields}


def gen_dependent(rng, depth, kinds, allow):
    how = rng.choice(['oid', 'cb'])
    oids = rng.sample(OIDS, 3)
    on = {'k': 'oid'}
    if rng.random() < 0.6:
        on['map'] = dict((o, 'p%d' % i) for i, o in enumerate(oids))
    specs = {}
    for o in oids[:2]:
        n = gen_type(rng, depth - 1, kinds, tuple(a for a in (allow or ('seq', 'set', 'seqof', 'setof')) if a != 'choice'))
        n.pop('t', None)
        if n['k'] in ('poctets', 'pobits', 'any'):
            n = {'k': 'int'}
        specs[o] = n
    vk = rng.choice(['any', 'poctets', 'any', 'pobits'])
    vn = {'k': vk}
    if rng.random() < 0.3:
        vn['t'] = {'how': 'exp', 'tags': [[2, 0]], 'at': 'field'}
    fields = [{'name': 'type', 'n': on}]
    if rng.random() < 0.3:
        fields.append({'name': 'flag', 'n': {'k': 'bool', 't': {'how': 'imp', 'tags': [[2, 9]], 'at': 'field'}},
                       'def': False})
    fields.append({'name': 'value', 'n': vn})
    if how == 'cb':
        # callbacks return the spec of the value itself; the declared type is Any
        fields[-1]['n'] = vn = {'k': rng.choice(['any', 'any', 'poctets', 'pobits'])}
        if rng.random() < 0.3:
            vn['t'] = {'how': 'exp', 'tags': [[2, 0]], 'at': 'field'}
    if rng.random() < 0.3:
        fields[-1]['opt'] = True
    dep = {'how': how, 'on': 'type', 'value': 'value', 'specs': specs, 'oids': oids}
    if rng.random() < 0.15:
        # the elements of a set are told apart by their tags
        vn['t'] = {'how': 'exp', 'tags': [[2, rng.choice([0, 10])]], 'at': 'field'}
        if rng.random() < 0.3:
            on['t'] = {'how': rng.choice(['imp', 'exp']), 'tags': [[2, 4]], 'at': 'field'}
        return {'k': 'set', 'fields': fields, 'dep': dep}
    return {'k': 'seq', 'fields': fields, 'dep': dep}


def gen_value(rng, node, size=2):
    k = node['k']
    if k == 'bool':
        return rng.random() < 0.5
    if k in ('int', 'enum') and 'map' in node:
        if k == 'int' and rng.random() < 0.3:
            return rng.randint(-40, 300)
        i = rng.choice(sorted(node['map']))
        return node['map'][i] if k == 'enum' else int(i)
    if k == 'int':
        return rng.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, rng.randint(-10 ** 6, 10 ** 6),
                           rng.getrandbits(rng.choice([70, 200, 1100]))])
    if k == 'intoctets':
        return rng.choice([1, 127, 128, 255, 256, rng.getrandbits(64) | 1, rng.getrandbits(260) | 1, 0])
    if k == 'bits':
        return ''.join(rng.choice('01') for _ in range(rng.choice([0, 1, 3, 7, 8, 9, 16, 17, 40])))
    if k in ('obits',):
        return ''.join(rng.choice('01') for _ in range(8 * rng.choice([0, 1, 2, 3, 20])))
    if k == 'ibits':
        # a value the type can represent faithfully: it has no leading zero octets
        n = rng.choice([1, 2, 3, 20])
        return '01' + ''.join(rng.choice('01') for _ in range(8 * n - 2))
    if k == 'bitsmap':
        names = sorted(node['map'].values())
        return sorted(rng.sample(names, rng.randint(0, len(names))))
    if k in ('octets',):
        return bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 5, 20, 126, 130]))).hex()
    if k in ('poctets', 'pobits'):
        if 'inner' in node:
            return gen_value(rng, node['inner'], size)
        return rng.choice(['0201', 'ffffffff', '00', '3f', '0c05ff']) + '%02x' % rng.getrandbits(8)
    if k == 'null':
        return None
    if k == 'oid':
        if 'map' in node and rng.random() < 0.6:
            return rng.choice(sorted(node['map']))
        return rng.choice(OIDS)
    if k == 'numeric':
        return ''.join(rng.choice('0123456789 ') for _ in range(rng.randint(0, 6)))
    if k in STR:
        n = rng.choice([0, 1, 3, 8, 40])
        if k in ('utf8', 'bmp', 'universal'):
            chars = 'abcXYZ 09\u00e9\u03a9\u4e2d'
        elif k in ('visible', 'general'):
            chars = 'abcXYZ 09'
        else:
            chars = 'abcXYZ 09'
        return ''.join(rng.choice(chars) for _ in range(n))
    if k == 'utctime':
        return '%04d-%02d-%02dT%02d:%02d:%02d' % (rng.choice([1950, 1999, 2000, 2026, 2049]), rng.randint(1, 12),
                                                  rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                                                  rng.choice([0, rng.randint(0, 59), rng.randint(0, 59)]))
    if k == 'gentime':
        t = '%04d-%02d-%02dT%02d:%02d:%02d' % (rng.choice([1, 1900, 1999, 2049, 2050, 9999]), rng.randint(1, 12),
                                               rng.randint(1, 28), rng.randint(0, 23),
                                               rng.choice([0, 30, rng.randint(0, 59)]),
                                               rng.choice([0, 15, rng.randint(0, 59)]))
        if rng.random() < 0.3:
            t += '.%06d' % rng.choice([1, 20, 1000, 50000, 500000, 123456, 999999, 120000])
        return t
    if k == 'any':
        if 'inner' in node:
            return gen_value(rng, node['inner'], size)
        n = gen_generic(rng, GENERIC_DEPTH)
        return [n, gen_value(rng, n)]
    if k == 'choice':
        a = rng.choice(node['alts'])
        return [a['name'], gen_value(rng, a['n'], size)]
    if k in ('seq', 'set'):
        v = {}
        for f in node['fields']:
            if f.get('opt') and rng.random() < 0.4:
                continue
            if 'def' in f:
                if rng.random() < 0.5:
                    continue
                x = gen_value(rng, f['n'], size)
                if not is_default(f, x):
                    v[f['name']] = x
                continue
            fn = f['n']
            dep = node.get('dep')
            if dep and dep['value'] == f['name']:
                fn = resolve(node, f, v)
            if dep and dep['on'] == f['name']:
                v[f['name']] = rng.choice(dep['oids'])
                continue
            v[f['name']] = gen_value(rng, fn, size)
        return v
    if k in ('seqof', 'setof'):
        return [gen_value(rng, node['of'], size - 1) for _ in range(rng.randint(0, 3 if size > 0 else 1))]
    raise AssertionError(k)


def gen_root(rng, depth=None, kinds=None, allow=None, struct=True):
    """A random type with a random value"""
    depth = depth if depth is not None else rng.choice([1, 2, 2, 3])
    if struct:
        k = rng.choice([a for a in ('seq', 'seq', 'seq', 'set', 'seqof', 'setof', 'choice')
                        if allow is None or a in allow])
        node = gen_struct(rng, k, depth, kinds, allow)
    else:
        node = gen_type(rng, depth, kinds, allow)
    if rng.random() < 0.12 and node['k'] != 'any':
        t = gen_tagging(rng, node, set(), 'class')
        if t and not (node['k'] == 'choice' and t['how'] == 'imp') and len(t['tags']) == 1:
            node = dict(node, t=t)
    return node, gen_value(rng, node)


def kinds_in(node, out=None):
    out = set() if out is None else out
    out.add(node['k'])
    for f in node.get('fields', []):
        kinds_in(f['n'], out)
    for a in node.get('alts', []):
        kinds_in(a['n'], out)
    if 'of' in node:
        kinds_in(node['of'], out)
    for n in (node.get('dep') or {}).get('specs', {}).values():
        kinds_in(n, out)
    return out
