"""
Histories of edits on modelled values: the executable model of what each edit means,
the same edits on real objects, and the comparison of the two.
"""
import copy
import random

from . import common, lib, schema, shipped
from .runner import Violation

JUNK_KINDS = ['none', 'obj', 'int', 'neg', 'huge', 'float', 'str', 'unicode', 'latin', 'bytes', 'badbytes', 'list', 'badlist',
              'dict', 'baddict', 'tuple', 'set', 'bool', 'other', 'naive', 'old', 'void', 'deep', 'noname', 'unset']


# ------------------------------------------------------------------ the model

def deref(n):
    while n['k'] == 'any' and 'inner' in n:
        t = n.get('t')
        n = n['inner']
        if t:
            n = dict(n, t=t)
    return n


def gen_value(rng, node, size=2):
    """Sets-of in the order a DER encoding has them, so that loading keeps the order"""
    if 'cls' in node or 'samples' in node:
        return sorted_sets(node, shipped.gen(rng, node, size))
    return sorted_sets(node, schema.gen_value(rng, node, size))


def children(node, v):
    """(step, child node, child value, present) of a container"""
    k = node['k']
    if k in ('seq', 'set'):
        for f in node['fields']:
            if f.get('skip'):
                continue
            n = deref(schema.resolve(node, f, v))
            if f['name'] in v:
                yield f['name'], n, v[f['name']], True
            elif 'def' in f:
                yield f['name'], n, f['def'], False
    elif k in ('seqof', 'setof'):
        for i, x in enumerate(v):
            yield i, node['of'], x, True
    elif k == 'choice':
        yield '#chosen', schema.alt(node, v[0]), v[1], True


def walk(node, v, path=(), limit=80):
    out = [(list(path), node, v)]
    todo = [(tuple(path), node, v)]
    while todo and len(out) < limit:
        p, n, x = todo.pop(0)
        for s, cn, cv, present in children(n, x):
            item = (p + (s,), cn, cv)
            todo.append(item)
            out.append((list(item[0]), cn, cv))
    return out


def descend(node, v, path):
    """The node and value at a path; absent defaults on the way are spelled out"""
    for s in path:
        k = node['k']
        if k in ('seq', 'set'):
            f = field(node, s)
            n = deref(schema.resolve(node, f, v))
            if s not in v:
                v[s] = copy.deepcopy(f['def'])
            node, v = n, v[s]
        elif k in ('seqof', 'setof'):
            node, v = node['of'], v[s]
        else:
            node, v = schema.alt(node, v[0]), v[1]
    return node, v


def passes_set(node, v, path):
    """Whether a path passes through, or ends at, a set-of"""
    for i in range(len(path) + 1):
        n, x = descend(node, copy.deepcopy(v), path[:i])
        if deref(n)['k'] == 'setof':
            return True
    return False


def field(node, name):
    for f in node['fields']:
        if f['name'] == name:
            return f
    raise KeyError(name)


def apply_model(node, v, op):
    kind = op[0]
    if kind in ('set', 'idx', 'append', 'del', 'none', 'deli'):
        n, x = descend(node, v, op[1])
        if kind == 'set':
            x[op[2]] = copy.deepcopy(op[3])
        elif kind == 'idx':
            x[op[2]] = copy.deepcopy(op[3])
        elif kind == 'append':
            x.append(copy.deepcopy(op[2]))
        elif kind in ('del', 'none'):
            x.pop(op[2], None)
        elif kind == 'deli':
            del x[op[2]]


def sorted_sets(node, v):
    """The value with all sets-of in the order a DER encoding has them, and defaults left out"""
    node = deref(node)
    k = node['k']
    if k in ('seq', 'set'):
        return dict((f['name'], sorted_sets(schema.resolve(node, f, v), v[f['name']]))
                    for f in node['fields'] if f['name'] in v and not schema.is_default(f, v[f['name']]))
    if k in ('seqof', 'setof'):
        out = [sorted_sets(node['of'], x) for x in v]
        if k == 'setof':
            out.sort(key=lambda x: schema.der(node['of'], x))
        return out
    if k == 'choice':
        return [v[0], sorted_sets(schema.alt(node, v[0]), v[1])]
    return v


def match(node, v, nat):
    """Whether a native value is the one the model has"""
    node = deref(node)
    k = node['k']
    if k == 'any':
        return match(v[0], v[1], nat)
    if k in ('poctets', 'pobits') and 'inner' in node:
        return match(node['inner'], v, nat)
    if k == 'choice' and node.get('cls') == 'x509.Name':
        return match_name(schema.alt(node, v[0]), v[1], nat)
    if k == 'choice':
        return match(schema.alt(node, v[0]), v[1], nat)
    if k in ('seq', 'set'):
        if not hasattr(nat, 'items') or list(nat) != [f['name'] for f in node['fields']]:
            return False
        for f in node['fields']:
            got = nat[f['name']]
            n = schema.resolve(node, f, v)
            if f['name'] in v:
                if not match(n, v[f['name']], got):
                    return False
            elif 'def' in f:
                if not match(n, f['def'], got):
                    return False
            elif f.get('hasdef'):
                continue
            elif got is not None:
                return False
        return True
    if k in ('seqof', 'setof'):
        if not isinstance(nat, list) or len(nat) != len(v):
            return False
        if k == 'seqof':
            return all(match(node['of'], a, b) for a, b in zip(v, nat))
        left = list(nat)
        for a in v:
            for i, b in enumerate(left):
                if match(node['of'], a, b):
                    del left[i]
                    break
            else:
                return False
        return True
    return schema.plain(schema.native(node, v)) == schema.plain(nat)


def match_name(node, v, nat):
    """The native form of a Name maps types to values, a list when a type is repeated"""
    out = {}
    pair = node['of']['of']
    on, vf = pair['fields']
    for rdn in v:
        # the members of a relative name are a set
        for x in sorted(rdn, key=lambda x: schema.der(pair, x)):
            key = on['n'].get('map', {}).get(x['type'], x['type'])
            out.setdefault(key, []).append((deref(schema.resolve(pair, vf, x)), x['value']))
    if not hasattr(nat, 'items') or set(nat) != set(out):
        return False
    for key, items in out.items():
        got = nat[key] if len(items) > 1 else [nat[key]]
        left = list(got)
        for n, x in items:
            for i, g in enumerate(left):
                if match(n, x, g):
                    del left[i]
                    break
            else:
                return False
        if left:
            return False
    return True


# ------------------------------------------------------------------ real values

def value_for(node, v, how, seed, cache, element=False):
    """What the user assigns: how is 'py', 'mix', 'inst' or 'loaded'"""
    r = random.Random(seed)
    node = deref(node)
    k = node['k']
    t = node.get('t')
    untagged = schema.strip_field_tag(node)
    if how == 'inst' and k not in ('null',):
        return schema.instance(untagged if r.random() < 0.7 else node, v, r, cache)
    if how == 'loaded' and k != 'any' and 'inner' not in node:
        return schema.build(node, cache).load(schema.der(untagged, v))
    if how == 'read' and k != 'any' and 'inner' not in node:
        x = schema.build(node, cache).load(schema.der(untagged, v))
        x.native
        return x
    if k == 'choice' and not element:
        py = schema.to_py(schema.alt(node, v[0]), v[1], r if how == 'mix' else None, cache)
        form = r.choice(['obj', 'tuple', 'dict'])
        if form == 'tuple':
            return (v[0], py)
        if form == 'dict':
            return {v[0]: py}
    return schema.to_py(untagged, v, r if how == 'mix' else None, cache)


HOWS = ['py', 'py', 'mix', 'mix', 'inst', 'loaded', 'read']


def start(case, cache):
    """The object a history starts from"""
    node, v = case['node'], case['v']
    how = case['start']
    cls = schema.build(node, cache)
    if how == 'load':
        return cls.load(schema.der(node, v))
    if how == 'native':
        x = cls.load(schema.der(node, v))
        x.native
        return x
    if how == 'copy':
        return cls.load(schema.der(node, v)).copy()
    return schema.instance(schema.strip_field_tag(node), v, random.Random(case.get('rs', 0)), cache)


def apply_obj(obj, node, v, op, cache):
    """Performs an edit on the real object; v is the model before the edit"""
    kind = op[0]
    if kind in ('set', 'idx', 'append', 'del', 'none', 'deli'):
        n, x = descend(node, copy.deepcopy(v), op[1])
        target = common.at(obj, op[1])
        if kind == 'set':
            f = field(n, op[2])
            ctx = dict(x)
            value = value_for(schema.resolve(n, f, ctx), op[3], op[4], op[5], cache)
            if op[5] % 7 == 0:
                target[[g['name'] for g in n['fields']].index(op[2])] = value
            else:
                target[op[2]] = value
        elif kind == 'idx':
            target[op[2]] = value_for(n['of'], op[3], op[4], op[5], cache, True)
        elif kind == 'append':
            target.append(value_for(n['of'], op[2], op[3], op[4], cache, True))
        elif kind == 'del':
            del target[op[2]]
        elif kind == 'none':
            target[op[2]] = None
        elif kind == 'deli':
            del target[op[2]]
    elif kind == 'read':
        common.read(obj, op[1], op[2], None)
    elif kind == 'force':
        obj.dump(force=True)
    else:
        raise AssertionError(kind)


# ------------------------------------------------------------------ generating

READS = ['native', 'native', 'dump', 'dump', 'len', 'iter', 'items', 'repr', 'debug', 'copy', 'pickle', 'contents', 'untag', 'eq']


def gen_edit(rng, node, v):
    """A valid edit of the current model value, or None"""
    spots = [(p, n, x) for p, n, x in walk(node, v) if n['k'] in ('seq', 'set', 'seqof', 'setof')]
    rng.shuffle(spots)
    if rng.random() < 0.5:
        spots.sort(key=lambda s: -len(s[0]) + rng.random() * 2)
    for p, n, x in spots:
        seed = rng.randrange(1 << 16)
        how = rng.choice(HOWS)
        if n['k'] in ('seqof', 'setof'):
            kind = rng.choice(['idx', 'append', 'append', 'deli']) if x else 'append'
            if kind == 'append':
                return ['append', p, gen_value(rng, n['of'], 1), how, seed]
            i = rng.randrange(len(x))
            if kind == 'idx':
                return ['idx', p, i, gen_value(rng, n['of'], 1), how, seed]
            return ['deli', p, i]
        dep = n.get('dep')
        fields = [f for f in n['fields'] if not f.get('skip') and not f.get('hasdef') and not (dep and dep['on'] == f['name'])]
        if not fields:
            continue
        f = rng.choice(fields)
        if f.get('opt') or 'def' in f:
            r = rng.random()
            if r < 0.25:
                return ['del', p, f['name']]
            if r < 0.35 and deref(f['n'])['k'] != 'null':
                return ['none', p, f['name']]
        fn = schema.resolve(n, f, x)
        if 'def' in f and rng.random() < 0.25:
            val = sorted_sets(fn, f['def'])
        else:
            val = gen_value(rng, deref(fn), 1)
        return ['set', p, f['name'], val, how, seed]
    return None


def gen_read(rng, node, v):
    p, n, x = rng.choice(walk(node, v))
    op = rng.choice(READS)
    if op in ('len', 'iter', 'items') and n['k'] not in ('seq', 'set', 'seqof', 'setof'):
        op = 'native'
    return ['read', p, op]


def gen_case(rng, shipped_nodes=None, shipped_prob=0.3):
    if shipped_nodes and rng.random() < shipped_prob:
        path, node = rng.choice(shipped_nodes)
        v = shipped.gen(rng, node)
    else:
        while True:
            node, v = schema.gen_root(rng)
            if node['k'] != 'any':
                break
    v = sorted_sets(node, v)
    return {'node': node, 'v': v, 'start': rng.choice(['load', 'load', 'native', 'build', 'build', 'copy']),
            'rs': rng.randrange(1 << 16)}


# ------------------------------------------------------------------ checking

def check(obj, node, v, what, deep=None):
    """The object must be exactly what the model says, in bytes, native form and elements"""
    want = schema.der(node, v)
    order = deep.choice([0, 1]) if deep else 0
    for n in range(2):
        if n == order:
            got = obj.dump()
            if got != want:
                raise Violation(what, 'dump is %s, the model encodes to %s' % (got.hex()[:1500], want.hex()[:1500]), what)
        else:
            nat = obj.native
            if not match(node, v, nat):
                raise Violation(what, 'native is %r, the model has %s' % (nat, str(v)[:1500]), what)
    if deep is None:
        return
    spots = walk(node, v)
    for p, n, x in [spots[0]] + [deep.choice(spots) for _ in range(3)]:
        check_at(obj, p, n, x, what)


def check_at(obj, p, n, x, what):
    o = common.at(obj, p)
    n = deref(n)
    k = n['k']
    if k in ('seqof', 'setof'):
        if len(o) != len(x):
            raise Violation(what, 'len of %s is %d, the model has %d' % (p, len(o), len(x)), what)
        if len(list(o)) != len(x):
            raise Violation(what, 'iterating %s gives %d elements, the model has %d' % (p, len(list(o)), len(x)), what)
    elif k in ('seq', 'set'):
        if len(o) != len(n['fields']) or list(o) != [f['name'] for f in n['fields']]:
            raise Violation(what, 'fields of %s are %s' % (p, list(o)), what)
    elif k == 'choice':
        if o.name != x[0]:
            raise Violation(what, 'alternative at %s is %s, the model has %s' % (p, o.name, x[0]), what)
    if k not in ('any',) and not match(n, x, o.native):
        raise Violation(what, 'native of %s is %r, the model has %s' % (p, o.native, str(x)[:600]), what)
    if p and isinstance(p[-1], str) and p[-1] != '#chosen' or k == 'any':
        pass
    want = schema.der(n, x)
    got = o.dump()
    if got != want:
        raise Violation(what, 'dump of %s is %s, the model encodes to %s' % (p, got.hex()[:800], want.hex()[:800]), what)
