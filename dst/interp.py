"""
Histories over values of no determined type (opaque octet strings, Any), whose type is declared
by parse(), with interruptions.  The model is only which declaration is in force.
"""
from . import common, lib, sched, subject
from .runner import Violation

HOLDERS = ['core.ParsableOctetString', 'core.ParsableOctetBitString', 'core.Any']
OTHER = ['core.Integer', 'core.Sequence', 'core.OctetString', 'core.SetOf']
PLAIN = ['native', 'native', 'dump', 'repr', 'bytes', 'debug', 'copy', 'contents']


def gen(rng):
    s = subject.gen(rng, damage=0.15, max_len=rng.choice([60, 400, 800]), schema_prob=0.3)
    h = rng.choice(HOLDERS)
    specs = [None, None, rng.choice(OTHER)]
    if 'cls' in s and not issubclass(lib.cls(s['cls']), lib.core().Concat):
        specs.append(s['cls'])
        specs.append(s['cls'])
        specs.append(s['cls'] + '|0')
    events = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.4:
            events.append(['parse', rng.choice(specs), None])
        elif r < 0.65:
            events.append(['parsed', None, None])
        else:
            events.append([rng.choice(PLAIN), None, None])
    data = bytes.fromhex(s['hex'])
    if rng.random() < 0.3:
        # wrapped in an explicit tag, which only a declaration that has it can read
        data = b'\xa0' + outer_bytes(data)[1:]
        specs += [x for x in specs if x and x.endswith('|0')]
    return {'holder': h, 'hex': data.hex(), 'split': rng.random() < 0.2, 'nested': rng.random() < 0.4, 'events': events}


def loader(d):
    c = lib.core()
    cls = lib.cls(d['holder'])
    inner = bytes.fromhex(d['hex'])
    if cls is c.Any:
        data = inner
    else:
        data = cls(inner).dump()
        if d['split'] and len(inner) > 1:
            bit = issubclass(cls, c.ParsableOctetBitString)
            prim = c.OctetBitString if bit else c.OctetString
            mid = len(inner) // 2
            body = prim(inner[:mid]).dump() + prim(inner[mid:]).dump()
            data = bytes([data[0] | 0x20, 0x80]) + body + b'\0\0'
    if not d['nested'] and cls is not c.Any:
        return lambda: cls.load(data)
    key = ('interp', d['holder'])
    if key not in _TYPES:
        _TYPES[key] = type('InterpOuter', (c.Sequence,), {'_fields': [('n', c.Integer), ('v', cls)]})
    outer = _TYPES[key]
    body = b'\x02\x01\x05' + data
    data2 = outer_bytes(body)

    def load():
        root = outer.load(data2)
        keep.append(root)
        return root['v']
    keep = []
    return load


_TYPES = {}


def outer_bytes(body):
    n = len(body)
    if n < 128:
        head = bytes([n])
    else:
        raw = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        head = bytes([0x80 | len(raw)]) + raw
    return b'\x30' + head + body


def declare(v, spec):
    if not spec:
        return v.parse()
    name, _, tag = spec.partition('|')
    return v.parse(lib.cls(name), {'explicit': int(tag)}) if tag else v.parse(lib.cls(name))


def act(v, op, arg):
    if op == 'parse':
        return common.outcome(lambda: declare(v, arg))
    return common.read(v, [], op)


def answer(load, state, op, arg):
    """The answer on a fresh value of which one type was declared (or none: state is False)"""
    v = load()
    if state is not False:
        declare(v, state)
    return act(v, op, arg)


def after(load, state, op, arg):
    """The declaration in force after an uninterrupted operation"""
    if op not in ('parse', 'parsed'):
        return state
    if op == 'parsed' and state is not False:
        return state
    spec = arg if op == 'parse' else None
    try:
        declare(load(), spec)
    except common.REFUSED:
        return state
    return spec


def copies(d, op):
    """Whether an operation copies the value, which may be refused once the damage inside has been met"""
    return op in common.COPIES or (op == 'dump' and d['split'])


def place(rng, d):
    """Chooses the instructions at which events are interrupted"""
    load = loader(d)
    for op, arg, _ in d['events']:
        # types get their first use before anything is counted
        try:
            act(load(), op, arg)
        except common.REFUSED:
            return False
    ok = False
    for k, e in enumerate(d['events']):
        if rng.random() < 0.6 or (k == len(d['events']) - 1 and not ok):
            v = load()
            for op, arg, fault in d['events'][:k]:
                sched.run_counted(lambda: act(v, op, arg), fault)
            _, _, n, _, hot = sched.run_counted(lambda: act(v, e[0], e[1]), record_hot=True)
            if n:
                at = sched.pick_hot(rng, hot) + rng.choice([0, 0, 1]) if hot and rng.random() < 0.6 else rng.randint(1, n)
                e[2] = [at, rng.choice(['KeyboardInterrupt', 'MemoryError', 'RecursionError'])]
                ok = True
    return ok


def run(d, stats, what='an interrupted parse left a trace'):
    """Without faults this is a plain history of declarations and reads"""
    load = loader(d)
    try:
        v = load()
        for op, arg, fault in d['events']:
            act(load(), op, arg)
    except common.REFUSED:
        return
    states = [False]
    where = []
    for n, (op, arg, fault) in enumerate(d['events'] + [['dump', None, None], ['native', None, None], ['parsed', None, None],
                                                        ['native', None, None], ['dump', None, None]]):
        if fault:
            result, error, steps, fired, _ = sched.run_counted(lambda: act(v, op, arg), fault)
        else:
            result, error, steps, fired = act(v, op, arg), None, 1, []
        stats.add('steps', steps)
        nxt = []
        good = []
        for st in states:
            want = answer(load, st, op, arg)
            if error is None and (result == want or (result == ['refused'] and copies(d, op) and
                                                     answer(load, st, 'native', None) == ['refused'])):
                good.append(st)
                nxt.append(after(load, st, op, arg))
            if fired:
                nxt += [st, after(load, st, op, arg)]
        if fired:
            stats.add('fault:' + fired[0][0])
            stats.seen('interrupted instructions', fired[0][1:])
            where.append((n, op, fired[0][1], fired[0][2]))
        if fired and (error is not None or result == ['raised', fired[0][0]]):
            pass
        elif error is not None:
            raise Violation(what, '%d: %s %s: %r (interruptions: %s)' % (n, op, arg, error, where))
        elif not good:
            raise Violation(what, '%d: %s %s gives %s, an undisturbed value with declared type in %s gives %s '
                            '(interruptions: %s)' % (n, op, arg, str(result)[:300], states,
                                                     str([answer(load, st, op, arg) for st in states])[:600], where))
        states = []
        for st in nxt:
            if st not in states:
                states.append(st)
    if where or not any(e[2] for e in d['events']):
        stats.seen('case', (d['hex'], d['holder'], d['events']))


def shrink(d):
    for r in subject.shrink_list(d['events']):
        if r:
            yield dict(d, events=r)
    for k, e in enumerate(d['events']):
        if e[2]:
            yield dict(d, events=d['events'][:k] + [[e[0], e[1], None]] + d['events'][k + 1:])
    for key in ('split', 'nested'):
        if d[key]:
            yield dict(d, **{key: False})
