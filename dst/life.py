"""
A process set up in a chosen environment, serving simulated lives of an application.
Every life is a fork of it in which the library was not yet imported; a life imports,
reloads, registers and uses in a given order and then performs a fixed workload.
Run as: python life.py CONFIG; one JSON request and answer per line.
"""
import os
import sys
import time

CLOCK = {'now': None, 'real': {}}


def sim_now():
    CLOCK['now'] += 0.000001
    return CLOCK['now']


def patch_clock(start):
    """Puts the clock behind a seam: the interpreter's own datetime is used, over a patched time module"""
    sys.modules['_datetime'] = None
    real = CLOCK['real']
    for n in ('time', 'time_ns', 'gmtime', 'localtime', 'ctime', 'asctime', 'strftime', 'clock_gettime',
              'clock_gettime_ns'):
        real[n] = getattr(time, n)
    CLOCK['now'] = start
    time.time = sim_now
    time.time_ns = lambda: int(sim_now() * 1000000000)
    time.gmtime = lambda t=None: real['gmtime'](sim_now() if t is None else t)
    time.localtime = lambda t=None: real['localtime'](sim_now() if t is None else t)
    time.ctime = lambda t=None: real['ctime'](sim_now() if t is None else t)
    time.asctime = lambda t=None: real['asctime'](time.localtime() if t is None else t)
    time.strftime = lambda f, t=None: real['strftime'](f, time.localtime() if t is None else t)
    time.clock_gettime = lambda c: sim_now() if c == time.CLOCK_REALTIME else real['clock_gettime'](c)
    time.clock_gettime_ns = lambda c: time.time_ns() if c == time.CLOCK_REALTIME else real['clock_gettime_ns'](c)


def keep_code(prefix):
    """Compiles each source once per process rather than once per life"""
    import importlib._bootstrap_external as be
    kept = {}
    real = be.SourceLoader.get_code

    def get_code(self, fullname):
        if not self.path.startswith(prefix):
            return real(self, fullname)
        if self.path not in kept:
            kept[self.path] = real(self, fullname)
        return kept[self.path]
    be.SourceLoader.get_code = get_code
    for name in sorted(os.listdir(prefix)):
        if name.endswith('.py'):
            loader = be.SourceFileLoader('asn1crypto.' + name[:-3], os.path.join(prefix, name))
            loader.get_code(loader.name)


# every module a program can import, in the order the reference imports them
MODULES = ['version', 'pem', 'util', 'parser', 'core', 'algos', 'keys', 'x509', 'crl', 'csr', 'ocsp', 'cms', 'pdf',
           'pkcs12', 'tsp']


def imp(name):
    import importlib
    from dst import lib
    if name in lib.MODULES:
        return lib.mod(name)
    return importlib.import_module('asn1crypto.' + name if name else 'asn1crypto')


def live(req, life):
    if CLOCK['now'] is not None:
        CLOCK['now'] = float(life.get('clock', CLOCK['now']))
    if life.get('tz'):
        os.environ['TZ'] = life['tz']
        time.tzset()
    from dst import lib
    sys.path.insert(0, lib.REPO)
    applied = set()
    for step in life['steps']:
        kind = step[0]
        if kind == 'import':
            imp(step[1])
        elif kind == 'use':
            imp('core')
            perform(req['items'][step[1]], {})
        elif kind == 'register':
            imp('core')
            register(req['regs'][step[1]])
            applied.add(step[1])
        elif kind == 'reload':
            import importlib
            order = imp('').load_order()
            for n in order:
                if n in sys.modules:
                    importlib.reload(sys.modules[n])
            # what the application had registered went with the old classes
            for i in sorted(applied):
                register(req['regs'][i])
        elif kind == 'clock':
            if CLOCK['now'] is not None:
                CLOCK['now'] = float(step[1])
        elif kind == 'tz':
            os.environ['TZ'] = step[1]
            time.tzset()
        elif kind == 'locale':
            import locale
            locale.setlocale(locale.LC_ALL, step[1])
    for n in MODULES:
        imp(n)
    for i in range(len(req['regs'])):
        if i not in applied:
            register(req['regs'][i])
    from dst import common
    common._PROPS.clear()
    out = {}
    for i in life['order']:
        got = perform(req['items'][i], {})
        out[str(i)] = got if i in life.get('full', ()) else common.digest(got)
    return out


# ------------------------------------------------------------ registrations

def klass(path):
    imp(path.split('.')[0])
    from dst import lib
    return lib.cls(path)


def register(r):
    if r['kind'] == 'curve':
        klass('keys.NamedCurve').register(r['name'], r['oid'], r['size'])
    else:
        key = int(r['oid']) if r['kind'] == 'value' else r['oid']
        klass(r['id'])._map[key] = r['name']
        if r['kind'] == 'spec':
            spec = klass(r['spec'])
            for s in r['seq']:
                klass(s)._oid_specs[r['name']] = spec


def pair(cls):
    """The field that names a type, and the field of that type"""
    if cls._oid_pair:
        return cls._oid_pair
    b = sorted(cls._spec_callbacks)[0]
    return [f[0] for f in cls._fields if f[0] != b][0], b


# ------------------------------------------------------------ the workload

def perform(item, cache):
    from dst import common, lib, schema, subject
    out = common.outcome
    kind = item[0]
    if kind == 'value':
        cls = klass(item[1])
        data = bytes.fromhex(item[2])
        try:
            v = cls.load(data)
        except common.REFUSED:
            return 'refused'
        res = []
        for path, x in common.nodes(v, item[3]):
            for op in common.ops_for(x):
                if op in ('native', 'dump', 'len', 'name', 'bits', 'int', 'fieldspec') or op[0] == '.':
                    res.append([path, op, common.read(v, path, op)])
        res.append(out(lambda: v.dump(force=True)))
        res.append(out(lambda: cls(cls.load(data).native).dump()))
        res.append(out(lambda: cls.load(data) == cls.load(data)))
        res.append(out(lambda: cls.load(data).copy().dump(True)))
        return res
    if kind == 'schema':
        cls = schema.build(item[1], cache)
        obj = schema.instance(item[1], item[2], None, cache)
        data = bytes.fromhex(item[3])
        return [out(obj.dump), out(lambda: obj.native), out(lambda: cls.load(data).native),
                out(lambda: cls.load(data).dump(True))]
    if kind == 'oid':
        cls = klass(item[1])
        res = []
        for d in item[2]:
            res.append([d, out(lambda: cls.map(d)), out(lambda: cls(d).native), out(lambda: cls(d).dump())])
        for n in item[3]:
            res.append([n, out(lambda: cls.unmap(n)), out(lambda: cls(n).dotted), out(lambda: cls(n).dump())])
        return res
    if kind == 'open':
        cls = klass(item[1])
        core = imp('core')
        a, b = pair(cls)
        ident = [f for f in cls._fields if f[0] == a][0][1]

        def spec(n):
            v = cls({a: n})
            return v.spec(b).__name__

        def stored(n):
            rest = bytes.fromhex(item[3])
            v = cls()
            v[a] = n
            body = core.Any.load(ident(n).dump()).dump() + rest
            w = cls.load(bytes([0x30, len(body)]) + body)
            return [type(w[b]).__name__, w.native, w.dump(force=True)]
        return [[n, out(lambda: spec(n)), out(lambda: stored(n))] for n in item[2]]
    if kind == 'map':
        cls = klass(item[1])
        res = [[k, out(lambda: cls(k).native), out(lambda: cls(k).dump())] for k in item[2]]
        return res + [[n, out(lambda: cls(n).dump()), out(lambda: cls(n).native)] for n in item[3]]
    if kind == 'pem':
        pem = imp('pem')
        data = bytes.fromhex(item[2])
        text = pem.armor(item[1], data, dict(item[3]) or None)
        return [out(lambda: text), out(lambda: pem.unarmor(text)), out(lambda: pem.detect(text)),
                out(lambda: list(pem.unarmor(b'x\n' + text * 2, multiple=True)))]
    if kind == 'time':
        core = imp('core')
        cls = getattr(core, item[1])
        if item[2] == 'load':
            def do():
                data = item[3].encode()
                v = cls.load(bytes([cls.tag, len(data)]) + data)
                return [v.native, v.dump(), v.dump(force=True), str(v)]
            return out(do)
        import datetime

        def do():
            y, mo, d, h, mi, s, us, off = item[3]
            tz = None if off is None else datetime.timezone(datetime.timedelta(minutes=off))
            v = cls(datetime.datetime(y, mo, d, h, mi, s, us, tz))
            w = cls.load(v.dump())
            return [v.native, v.dump(), w.native, w.dump(force=True), str(v)]
        return out(do)
    if kind == 'year0':
        util = imp('util')

        def do():
            import datetime
            mo, d, h, mi, s, us, off = item[1]
            tz = datetime.timezone(datetime.timedelta(minutes=off))
            x = util.extended_datetime(0, mo, d, h, mi, s, us, tz)
            y = datetime.datetime(2000, mo, d, h, mi, s, us, tz)
            v = imp('core').GeneralizedTime(x)
            return [x, x.isoformat(), x.timestamp() if hasattr(x, 'timestamp') else None, x < y, x == y, v.dump(),
                    v.native, x.strftime('%Y-%m-%d %H:%M:%S'), x.date().isoformat(), (y - x).total_seconds()
                    if hasattr(x, '__rsub__') else None]
        return out(do)
    if kind == 'name':
        from collections import OrderedDict
        x509 = imp('x509')

        def do():
            a = x509.Name.build(OrderedDict(item[1]), use_printable=item[3])
            b = x509.Name.build(dict(item[2]))
            return [a.dump(), a.native, a.hashable, a.human_friendly, a.sha256, a == b, b.human_friendly, b.dump(),
                    b.hashable]
        return out(do)
    if kind == 'iri':
        x509 = imp('x509')

        def do():
            v = x509.URI(item[1])
            w = x509.GeneralName(name='uniform_resource_identifier', value=item[1])
            return [v.dump(), v.native, w.native, w.dump(), x509.URI.load(v.dump()).native]
        return out(do)
    if kind == 'reg':
        return reg(item[1], out)
    raise RuntimeError(kind)


def reg(r, out):
    if r['kind'] == 'curve':
        keys = imp('keys')
        point = '04' + '11' * (2 * r['size'])

        def key():
            k = keys.ECPrivateKey({'version': 1, 'private_key': 5, 'parameters': ('named', r['name'])})
            info = keys.PrivateKeyInfo.wrap(k, 'ec')
            return [k.dump(), k.native, info.dump(), info.curve, info.bit_size]

        def params():
            p = keys.ECDomainParameters(name='named', value=r['name'])
            q = keys.ECDomainParameters.load(p.dump())
            return [p.dump(), p.key_size, q.key_size, q.native, q.chosen.dotted]

        def public():
            i = keys.PublicKeyInfo({'algorithm': {'algorithm': 'ec', 'parameters': ('named', r['name'])},
                                    'public_key': keys.ECPointBitString(bytes.fromhex(point))})
            j = keys.PublicKeyInfo.load(i.dump())
            return [i.dump(), j.curve, j.native, j.bit_size]
        return [out(lambda: keys.NamedCurve.unmap(r['name'])), out(lambda: keys.NamedCurve.map(r['oid'])), out(params),
                out(key), out(public), out(lambda: keys.NamedCurve(r['oid']).native)]
    cls = klass(r['id'])
    key = int(r['oid']) if r['kind'] == 'value' else r['oid']
    res = [out(lambda: cls(r['name']).dump()), out(lambda: cls.load(cls(key).dump()).native), out(lambda: cls(key).native)]
    if r['kind'] != 'value':
        res += [out(lambda: cls.map(r['oid'])), out(lambda: cls.unmap(r['name'])), out(lambda: cls(r['name']).dotted)]
    if r['kind'] == 'spec':
        for s in r['seq'] + r.get('also', []):
            seq = klass(s)

            def build():
                nat = r['native']
                if 'Octet' in r['spec']:
                    nat = [bytes.fromhex(x) for x in nat] if isinstance(nat, list) else bytes.fromhex(nat)
                v = seq(dict([(seq._oid_pair[0], r['name'])] + [(seq._oid_pair[1], nat)]))
                w = seq.load(v.dump())
                x = seq.load(v.dump())
                x[seq._oid_pair[0]] = r['name']
                return [v.dump(), v.native, w.native, w.dump(force=True), w, x.native, x.dump()]
            res.append(out(build))
    return res


def serve():
    import gc
    import json
    config = json.loads(sys.argv[1])
    if config.get('clock') is not None:
        patch_clock(config['clock'])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(here, 'dst')]
    from dst import fork, lib, common, schema, subject, sched   # noqa: none of these imports the library
    import base64, decimal, encodings.idna, ipaddress, socket, stringprep, unicodedata, urllib.parse, locale  # noqa
    if any(n.startswith('asn1crypto') for n in sys.modules):
        raise RuntimeError('the library is imported already')
    keep_code(lib.PKG_DIR)
    gc.freeze()
    real_out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        out = []
        for life in req['lives']:
            try:
                out.append(fork.call(lambda: live(req, life)))
            except fork.ChildDied as e:
                out.append({'died': str(e)})
        real_out.write(json.dumps(out) + '\n')
        real_out.flush()


if __name__ == '__main__':
    serve()
