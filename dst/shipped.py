"""
Type definitions of the classes the library ships, read from their documented
declarations (_fields, _alternatives, _child_spec, _map, _oid_pair/_oid_specs).
"""
import inspect

from . import lib, schema

SPECIAL = {
    'URI': ('ia5', ['http://example.com/a?b=c', 'https://example.org/', 'ldap://ds.example.com/cn=x',
                    'http://user@www.example.com:8080/A%2fb/c?x=1&y#Z', 'http://[2001:db8::1]/x', 'urn:a:B']),
    'EmailAddress': ('ia5', ['user@example.com', 'a.b@example.org', 'Joe@Example.COM', 'root']),
    'DNSName': ('ia5', ['example.com', '.example.org', 'www.example.com', 'WWW.Example.com', '*.Example.ORG']),
    'IPAddress': ('octets', ['7f000001', '0a000000ffff0000', '20010db8000000000000000000000001']),
}
MODS = ['algos', 'keys', 'x509', 'crl', 'ocsp', 'csr', 'cms', 'tsp', 'pkcs12', 'pdf']


IPS = {'7f000001': '127.0.0.1', '0a000000ffff0000': '10.0.0.0/16',
       '20010db8000000000000000000000001': '2001:db8::1'}
# definitions the library itself can not use, or whose native form is not that of their structure
NOT_MODELLED = ('EDIPartyName', 'ORAddress', 'AnyAlgorithmIdentifier', 'ECPrivateKey')
# algorithm identifiers whose parameters have to be Null for some algorithms (RFC 4055)
FORCE_NULL = ('DigestAlgorithm', 'SignedDigestAlgorithm', 'EncryptionAlgorithm', 'KeyEncryptionAlgorithm')
NULL_OIDS = ['1.2.840.113549.1.1.1', '1.2.840.113549.1.1.11', '1.2.840.113549.1.1.12', '1.2.840.113549.1.1.13',
             '1.2.840.113549.1.1.14', '1.3.14.3.2.26', '2.16.840.1.101.3.4.2.4', '2.16.840.1.101.3.4.2.1',
             '2.16.840.1.101.3.4.2.2', '2.16.840.1.101.3.4.2.3']
NATIVES = {'StatusGood': 'good', 'StatusUnknown': 'unknown'}


class Unsupported(Exception):
    pass


def classes():
    core = lib.core()
    out = []
    for m in MODS:
        mod = lib.mod(m)
        for name in sorted(vars(mod)):
            c = getattr(mod, name)
            if inspect.isclass(c) and issubclass(c, core.Asn1Value) and c.__module__ == mod.__name__:
                out.append((m + '.' + name, c))
    return out


def base_kind(cls):
    core = lib.core()
    order = ['choice', 'seqof', 'setof', 'set', 'seq', 'any', 'enum', 'bool', 'int', 'bits', 'obits', 'ibits',
             'intoctets', 'pobits', 'poctets', 'octets', 'null', 'oid', 'utctime', 'gentime'] + sorted(schema.STR)
    names = {'choice': 'Choice', 'seqof': 'SequenceOf', 'setof': 'SetOf', 'set': 'Set', 'seq': 'Sequence', 'any': 'Any'}
    names.update(schema.BASE)
    for k in order:
        if k == 'setof' or k == 'seqof':
            base = getattr(core, names[k])
            if issubclass(cls, base) and (k == 'setof' or not issubclass(cls, core.SetOf)):
                return k
            continue
        if issubclass(cls, getattr(core, names[k])):
            return k
    raise Unsupported(cls.__name__)


def from_class(cls, params=None, depth=0, stack=()):
    core = lib.core()
    if depth > 7 or stack.count(cls) > 1:
        raise Unsupported('depth')
    if cls.__name__ in NOT_MODELLED:
        raise Unsupported(cls.__name__)
    stack = stack + (cls,)
    params = params or {}
    k = base_kind(cls)
    node = {'k': k, 'cls': cls.__module__.split('.')[-1] + '.' + cls.__name__}
    # tagging
    t = None
    if 'explicit' in params:
        e = params['explicit']
        e = (2, e) if isinstance(e, int) else e
        t = {'how': 'exp', 'tags': [[_cls(e[0]), e[1]]], 'at': 'field'}
    elif 'implicit' in params:
        e = params['implicit']
        e = (2, e) if isinstance(e, int) else e
        t = {'how': 'imp', 'tags': [[_cls(e[0]), e[1]]], 'at': 'field'}
    elif 'tag_type' in params:
        t = {'how': 'imp' if params['tag_type'] == 'implicit' else 'exp', 'tags': [[2, params['tag']]], 'at': 'field'}
    if t:
        node['t'] = t
    if cls.explicit:
        if t:
            raise Unsupported('two levels of tagging')
        e = cls.explicit
        e = e if isinstance(e[0], int) else e[0]
        node['t'] = {'how': 'exp', 'tags': [[e[0], e[1]]], 'at': 'class'}
    elif k not in ('any', 'choice'):
        ucls = 0 if cls.class_ is None else cls.class_
        if (ucls, cls.tag) != (0, schema.UNI[k]):
            if t:
                raise Unsupported('two levels of tagging')
            node['t'] = {'how': 'imp', 'tags': [[ucls, cls.tag]], 'at': 'class'}
    elif k == 'choice' and (cls.class_ is not None and cls.class_ != 0 or cls.tag is not None):
        raise Unsupported('tagged choice')
    if cls.__name__ in SPECIAL:
        node['k'], node['samples'] = SPECIAL[cls.__name__]
        return node
    if cls.__name__ in NATIVES:
        node['nat'] = NATIVES[cls.__name__]
    if k == 'any':
        return node
    if k in ('int', 'enum') and getattr(cls, '_map', None):
        node['map'] = dict((str(i), n) for i, n in cls._map.items())
    if k == 'bits' and getattr(cls, '_map', None):
        node['k'] = 'bitsmap'
        node['map'] = dict((str(i), n) for i, n in cls._map.items())
    if k == 'oid' and getattr(cls, '_map', None):
        node['map'] = dict(cls._map)
    if k == 'choice':
        node['alts'] = []
        for a in cls._alternatives:
            try:
                node['alts'].append({'name': a[0], 'n': from_class(a[1], a[2] if len(a) > 2 else None, depth + 1, stack)})
            except Unsupported:
                pass
        if not node['alts']:
            raise Unsupported('no alternative')
    if k in ('seqof', 'setof'):
        if cls._child_spec is None:
            raise Unsupported('untyped')
        node['of'] = from_class(cls._child_spec, None, depth + 1, stack)
    if k in ('seq', 'set'):
        if not cls._fields:
            raise Unsupported('untyped')
        node['fields'] = []
        callbacks = dict(cls._spec_callbacks or {})
        for fdef in cls._fields:
            p = dict(fdef[2]) if len(fdef) > 2 and fdef[2] else {}
            f = {'name': fdef[0]}
            if p.get('optional') or 'default' in p:
                f['opt'] = True
            if 'default' in p:
                f['hasdef'] = True
            if fdef[0] in callbacks and cls.__name__ not in FORCE_NULL:
                if not f.get('opt'):
                    raise Unsupported('callback')
                f['skip'] = True
            try:
                f['n'] = from_class(fdef[1], p, depth + 1, stack)
            except Unsupported:
                if not f.get('opt'):
                    raise
                f['skip'] = True
                f['n'] = {'k': 'null'}
            node['fields'].append(f)
        if cls.__name__ in FORCE_NULL or cls._oid_pair and cls._oid_specs:
            on, value = cls._oid_pair or ('algorithm', 'parameters')
            specs = {}
            omap = {}
            for f in node['fields']:
                if f['name'] == on:
                    omap = f['n'].get('map', {})
            inv = dict((n, o) for o, n in omap.items())
            force = []
            if cls.__name__ in FORCE_NULL:
                force = NULL_OIDS
                specs.update((o, {'k': 'null'}) for o in force)
            for name, spec in (cls._oid_specs or {}).items():
                dotted = inv.get(name, name)
                if not dotted[0].isdigit():
                    continue
                specs.pop(dotted, None)
                try:
                    n = from_class(spec, None, depth + 1, stack)
                    specs[dotted] = n
                except Unsupported:
                    pass
            node['dep'] = {'how': 'oid', 'on': on, 'value': value, 'specs': specs, 'oids': sorted(specs) or ['1.2.3'],
                           'force': sorted(o for o in force if specs.get(o) == {'k': 'null'})}
    return node


def _cls(c):
    return schema.CLSNAMES.index(c) if isinstance(c, str) else c


def gen(rng, node, size=2):
    """Random value of a shipped class; defaulted fields are left out or spelled with another value"""
    if 'samples' in node:
        return rng.choice(node['samples'])
    k = node['k']
    if k in ('seq', 'set'):
        v = {}
        dep = node.get('dep')
        for f in node['fields']:
            if f.get('skip') or f.get('hasdef'):
                continue
            if dep and dep['value'] == f['name'] and v.get(dep['on']) in dep.get('force', ()):
                v[f['name']] = None
                continue
            if f.get('opt') and rng.random() < (0.4 if size > 0 else 0.8):
                continue
            fn = f['n']
            if dep and dep['on'] == f['name']:
                v[f['name']] = rng.choice(dep['oids'])
                if fn['k'] == 'int':
                    v[f['name']] = int(v[f['name']])
                continue
            if dep and dep['value'] == f['name']:
                fn = schema.resolve(node, f, v)
            v[f['name']] = gen(rng, fn, size)
        return v
    if k in ('seqof', 'setof'):
        return [gen(rng, node['of'], size - 1) for _ in range(rng.randint(1, 2 if size > 0 else 1))]
    if k == 'choice':
        a = rng.choice(node['alts'])
        return [a['name'], gen(rng, a['n'], size)]
    if k in ('poctets', 'pobits') and 'inner' in node:
        return gen(rng, node['inner'], size)
    if k == 'any' and 'inner' in node:
        return gen(rng, node['inner'], size)
    return schema.gen_value(rng, node, size)
