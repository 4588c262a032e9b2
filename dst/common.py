"""
What "reading" a value means: all public reads, discovered by introspection, with
answers in a canonical comparable form.
"""
import copy
import datetime
import hashlib
import inspect
import io
import json
import pickle
import re
import sys
import _thread

from . import lib


# ------------------------------------------------------------ captured output

class ThreadStdout(io.TextIOBase):
    """Per-thread capture of what debug() prints"""

    def __init__(self, real):
        self.real = real
        self.bufs = {}

    def write(self, s):
        buf = self.bufs.get(_thread.get_ident())
        if buf is not None:
            buf.append(s)
            return len(s)
        return self.real.write(s)

    def flush(self):
        self.real.flush()


def install_stdout():
    if not isinstance(sys.stdout, ThreadStdout):
        sys.stdout = ThreadStdout(sys.stdout)


def captured(fn):
    install_stdout()
    me = _thread.get_ident()
    old = sys.stdout.bufs.get(me)
    buf = sys.stdout.bufs[me] = []
    try:
        fn()
    finally:
        if old is None:
            del sys.stdout.bufs[me]
        else:
            sys.stdout.bufs[me] = old
    return ''.join(buf)


# ------------------------------------------------------------ canonical answers

def short(b):
    if len(b) > 64:
        return hashlib.blake2b(b, digest_size=12).hexdigest() + '/%d' % len(b)
    return b.hex()


def canon(x, depth=0):
    if x is None or x is True or x is False:
        return x
    if isinstance(x, int):
        if x.bit_length() > 400:
            return ['i', short(b'%x' % x)]
        return ['i', str(x)]
    if isinstance(x, str):
        if len(x) > 200:
            return ['s', short(x.encode('utf-8', 'surrogatepass'))]
        return ['s', x]
    if isinstance(x, (bytes, bytearray)):
        return ['b', short(bytes(x))]
    if isinstance(x, (lib.core().Asn1Value, lib.core().Concat)):
        # named by what it is, not by how it is stored
        return ['A', type(x).__name__, canon(x.dump(), depth + 1)]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted(json.dumps(canon(i, depth + 1)) for i in x)]
    if isinstance(x, tuple):
        return ['t', [canon(i, depth + 1) for i in x]]
    if isinstance(x, list):
        return ['l', [canon(i, depth + 1) for i in x]]
    if isinstance(x, dict):
        return ['d', [[canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()]]
    if isinstance(x, datetime.datetime):
        return ['dt', x.isoformat()]
    if inspect.isclass(x):
        return ['class', x.__name__]
    if isinstance(x, (datetime.date, datetime.time, datetime.timedelta)):
        return ['dt', str(x)]
    return ['o', type(x).__name__, str(x) if type(x).__name__.startswith('extended') else '']


def digest(c):
    return hashlib.blake2b(json.dumps(c, sort_keys=True).encode(), digest_size=12).hexdigest()


REFUSED = (ValueError, TypeError)


def outcome(fn):
    """The canonical answer of a read, or how it was refused"""
    try:
        return canon(fn())
    except REFUSED:
        return ['refused']
    except Exception as e:
        return ['raised', type(e).__name__]


# ------------------------------------------------------------ walking a value

SKIP_PROPS = set(['contents', 'parsed', 'native', 'children', 'chosen'])


def props_of(cls):
    got = _PROPS.get(cls)
    if got is None:
        got = sorted(n for n in dir(cls) if not n.startswith('_') and n not in SKIP_PROPS and
                     isinstance(inspect.getattr_static(cls, n, None), property))
        _PROPS[cls] = got
    return got


_PROPS = {}


def is_container(v):
    c = lib.core()
    return isinstance(v, (c.Sequence, c.SequenceOf, c.Concat))


def native_of(v):
    if isinstance(v, lib.core().Concat):
        return [x.native for x in v]
    return v.native


def step(v, s):
    if s == '#chosen':
        return v.chosen
    if s == '#parsed':
        return v.parsed
    return v[s]


def at(root, path):
    for s in path:
        root = step(root, s)
    return root


def nodes(root, limit=150, maxdepth=12):
    """All (path, value) reachable from a value, breadth first"""
    c = lib.core()
    out = []
    queue = [((), root)]
    while queue and len(out) < limit:
        path, v = queue.pop(0)
        out.append((list(path), v))
        if len(path) >= maxdepth:
            continue
        kids = []
        try:
            if isinstance(v, c.Choice):
                kids = [('#chosen', v.chosen)]
            elif isinstance(v, c.Sequence):
                if v._fields:
                    kids = []
                    for name in v:
                        try:
                            kids.append((name, v[name]))
                        except Exception:
                            pass
                else:
                    for i in range(len(v)):
                        try:
                            kids.append((i, v[i]))
                        except Exception:
                            pass
            elif isinstance(v, c.Concat):
                # what was missing from the data is as good as an object nothing was ever assigned to
                kids = [(i, v[i]) for i in range(len(v)) if v[i].contents is not None]
            elif isinstance(v, c.SequenceOf):
                for i in range(len(v)):
                    try:
                        kids.append((i, v[i]))
                    except Exception:
                        pass
            elif isinstance(v, c.Any):
                kids = [('#parsed', v.parsed)]
            elif isinstance(v, c.ParsableOctetString):
                if determined(v):
                    kids = [('#parsed', v.parsed)]
        except Exception:
            kids = []
        for s, k in kids:
            if isinstance(k, c.Asn1Value) and not isinstance(k, c.Void):
                queue.append((path + (s,), k))
    return out


def determined(v):
    """Whether an octet string's content has a declared type, so parsing it is only a read"""
    try:
        return not isinstance(v.native, bytes)
    except Exception:
        return False


def guesses(root, path, op=None):
    """Whether a read would interpret octets that no declared type says how to interpret, which counts as an edit"""
    c = lib.core()
    try:
        for s in list(path) + (['#parsed'] if op == 'parsed' else []):
            if s == '#parsed' and isinstance(root, c.ParsableOctetString) and not determined(root):
                return True
            root = step(root, s)
    except Exception:
        return False
    return False


DOMAINS = ('example.com', '127.0.0.1', 'www.example.com', 'a.example.com', 'foo.EXAMPLE.com', '*.example.com', 'b.org', 'x.b.org',
           '10.0.0.1', '::1', 'fe80::1:2', 'a.b', '')
METHODS = ('to_coords', 'to_p1363')
CASTS = (('OctetString', 'IntegerOctetString', 'ParsableOctetString'),
         ('BitString', 'OctetBitString', 'IntegerBitString', 'ParsableOctetBitString'))


def ops_for(v):
    """All read operations that apply to a value"""
    c = lib.core()
    if isinstance(v, c.Concat):
        # compared by identity, and without a native form of its own
        return ['native', 'dump', 'repr', 'str', 'debug', 'copy', 'deepcopy', 'pickle', 'contents', 'len', 'iter', 'items', 'bytes']
    ops = ['native', 'dump', 'repr', 'str', 'debug', 'copy', 'deepcopy', 'pickle', 'eq', 'untag', 'retag']
    if isinstance(v, c.Choice):
        ops += ['name', 'chosen']
    elif isinstance(v, c.Any):
        ops += ['parsed']
        for x in ('pickle', 'contents'):
            if x in ops:
                ops.remove(x)
    else:
        ops += ['contents']
    if is_container(v):
        ops += ['len', 'iter', 'items', 'items', 'native']
    if isinstance(v, c.SequenceOf):
        ops += ['contains', 'spec']
    if isinstance(v, c.Integer):
        ops += ['int']
    if isinstance(v, c.Boolean):
        ops += ['bool']
    if isinstance(v, c.BitString):
        ops += ['bits']
    if isinstance(v, (c.OctetString, c.ParsableOctetString, c.OctetBitString)):
        ops += ['bytes']
    if isinstance(v, c.ParsableOctetString) and determined(v):
        ops += ['parsed']
    if isinstance(v, (c.Sequence,)) and v._fields:
        ops += ['fieldspec']
    ops += ['.' + p for p in props_of(type(v))]
    if hasattr(type(v), 'is_valid_domain_ip'):
        ops += ['domain:' + d for d in DOMAINS]
    for m in METHODS:
        if hasattr(type(v), m):
            ops.append(m + '()')
    if isinstance(v, c.Castable):
        # between the types of an octet string, or of a bit string, which differ in what the native value is
        ops += ['cast:' + n for n in (CASTS[0] if v.tag == 4 or isinstance(v, (c.OctetString, c.ParsableOctetString)) else CASTS[1])]
    return ops


def read(root, path, op, other=None):
    """Performs a read and gives its canonical answer"""
    def do():
        v = at(root, path)
        if op == 'native':
            return native_of(v)
        if op == 'dump':
            return v.dump()
        if op == 'repr':
            return scrub(repr(v))
        if op == 'str':
            return scrub(str(v))
        if op == 'debug':
            return scrub_debug(captured(v.debug))
        if op == 'contents':
            return v.contents
        if op == 'copy':
            return v.copy()
        if op == 'deepcopy':
            return copy.deepcopy(v)
        if op == 'pickle':
            return pickle.loads(pickle.dumps(v, 2))
        if op == 'untag':
            return v.untag()
        if op == 'retag':
            return v.retag({'explicit': 7})
        if op == 'eq':
            w = at(other(), path) if other is not None else v
            return [bool(v == w), bool(w == v), bool(v != w)]
        if op == 'len':
            return len(v)
        if op == 'iter':
            return list(v)
        if op == 'items':
            c = lib.core()
            if isinstance(v, c.Sequence):
                return [v[i] for i in (list(v) if v._fields else range(len(v)))]
            return [v[i] for i in range(len(v))]
        if op == 'contains':
            w = at(other(), path) if other is not None else v
            return [x in v for x in list(w)[:4]]
        if op == 'spec':
            return v.spec()
        if op == 'fieldspec':
            return [v.spec(name) for name in v]
        if op == 'name':
            return v.name
        if op == 'chosen':
            return v.chosen
        if op == 'parsed':
            return v.parsed
        if op == 'int':
            return int(v)
        if op == 'bool':
            return bool(v)
        if op == 'bits':
            out = [v[i] for i in range(12)]
            for name in sorted((v._map or {}).values(), key=str)[:12]:
                if isinstance(name, str) and not name.isdigit():
                    out.append(v[name])
            return out
        if op == 'bytes':
            b = bytes(v)
            # what has no byte form of its own gives its printed form
            return scrub(b.decode('latin-1')) if b.startswith(b'<') else b
        if op.endswith('()'):
            return getattr(v, op[:-2])()
        if op.startswith('cast:'):
            return v.cast(getattr(lib.core(), op[5:]))
        if op.startswith('domain:'):
            return v.is_valid_domain_ip(op[7:])
        if op.startswith('.'):
            return getattr(v, op[1:])
        raise AssertionError(op)
    if op in COPIES:
        # a copy need not keep a BER spelling of its headers
        return outcome(lambda: forced(do()))
    return outcome(do)


COPIES = ('copy', 'deepcopy', 'pickle', 'untag', 'retag')


def forced(v):
    return [type(v).__name__, native_of(v), v.dump(force=True)]


# object addresses
_ADDR = re.compile(r'Object #\d+|<(\S+) \d+ ')


def scrub(s):
    return _ADDR.sub(lambda m: 'Object' if m.group(1) is None else '<' + m.group(1) + ' ', s)


def scrub_debug(s):
    """The header of a value that was not loaded from bytes only shows once it was encoded"""
    return '\n'.join(l for l in (scrub(x).strip() for x in s.split('\n')) if l and not l.startswith('Header:'))


def scribble(root, r, limit=60):
    """Changes everything inside a value in place, as the owner of a copy may; what is refused is skipped"""
    from . import lib
    c = lib.core()
    done = 0
    try:
        found = nodes(root, limit)
    except REFUSED:
        return 0
    if r.random() < 0.4:
        # what native returned belongs to this side as well
        for path, v in found:
            try:
                done += spoil(v.native)
            except Exception:
                continue
    for path, v in reversed(found):
        try:
            if isinstance(v, c.Primitive):
                for new in scribbled(c, v):
                    try:
                        v.set(new)
                    except Exception:
                        continue
                    done += 1
                    break
                if isinstance(v, c.BitString) and r.random() < 0.5:
                    v[0] = not v[0]
            elif isinstance(v, c.SequenceOf):
                if len(v) and r.random() < 0.5:
                    del v[r.randrange(len(v))]
                elif len(v):
                    v.append(v[0].copy())
                done += 1
            elif isinstance(v, c.Sequence) and r.random() < 0.3:
                name = r.choice(list(v))
                del v[name]
                done += 1
        except Exception:
            continue
    return done


def spoil(nat):
    """Changes the lists, dicts and sets of a native value"""
    if isinstance(nat, dict):
        for x in nat.values():
            spoil(x)
        nat['spoiled'] = 1
    elif isinstance(nat, list):
        for x in nat:
            spoil(x)
        nat.append('spoiled')
    elif isinstance(nat, set):
        nat.add('spoiled')
    else:
        return 0
    return 1


def scribbled(c, v):
    try:
        nat = v.native
    except Exception:
        nat = None
    if isinstance(nat, bool):
        yield not nat
    if isinstance(nat, (int, str, bytes)) and not isinstance(nat, bool):
        yield nat + (1 if isinstance(nat, int) else 'x' if isinstance(nat, str) else b'x')
    if isinstance(v, c.BitString):
        yield (1, 0, 1)
    if isinstance(v, c.ObjectIdentifier):
        yield '1.2.3.4.5.6'
    for new in (7, 1, 'x', 'a@b.example', '1.1.1.1', '300101000000Z', '20300101000000Z', b'scribble', True):
        if new != nat:
            yield new
