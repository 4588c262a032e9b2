"""
C14: tasks and threads that enter, nest, overlap, abandon and leave strict teletex scopes.
"""
import gc
import itertools

from .. import common, lib, sched
from ..runner import Violation

N = {'quick': 10000, 'thorough': 600000}
RULE = ('a case is 1-3 names with teletex values and 1-3 programs of nested and overlapping scopes, reads of the names, '
        'raised and caught exceptions and asynchronous exceptions in the middle of a read, run as cooperative tasks that '
        'are stepped, closed, dropped or thrown into in a seeded order, or as preempted threads; non-trivial when a name '
        'is read both inside and outside of scopes or two scopes are open at once; distinct by (names, programs, schedule)')
STEP = 'scope and read events'
STUB = 'the scheduler of tasks and threads, and the moment of asynchronous exceptions'
ASSUMPTIONS = ['a reader outside of any scope of its own, while another task has one open, may see either decoding',
               'a value that was decoded once keeps its text']
WHAT = 'teletex decoding does not follow the scopes'
# byte -> (teletex, cp1252), from ITU-T T.61 and the Windows code page
BYTES = {0x41: ('A', 'A'), 0x62: ('b', 'b'), 0xe0: ('\u2126', '\xe0'), 0xe1: ('\xc6', '\xe1'), 0xe2: ('\xd0', '\xe2'),
         0xe8: ('\u0141', '\xe8'), 0xe9: ('\xd8', '\xe9'), 0xea: ('\u0152', '\xea'), 0xed: ('\u0166', '\xed'),
         0xb4: ('\xd7', '\xb4'), 0xd1: (None, '\xd1'), 0x7e: (None, '~'), 0xff: (None, '\xff'), 0x81: ('\x81', None)}
TYPES = ['common_name', 'organization_name', 'locality_name']
OIDS = {'common_name': '0603550403', 'organization_name': '060355040a', 'locality_name': '0603550407'}
STRICT, LENIENT, UNREAD = 0, 1, None
FAULTS = ['KeyboardInterrupt', 'MemoryError']


def setup():
    lib.load_all()
    common.install_stdout()
    sched.install()
    for x in (0xe0,):
        # the table above states what the codecs in use say
        t = bytes([x]).decode('teletex')
        BYTES[x] = (t, BYTES[x][1])


class Stop(Exception):
    pass


# ------------------------------------------------------------ generation

def gen(rng, tier, i):
    values = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kids = []
        for t in rng.sample(TYPES, rng.choice([1, 1, 2, 3])):
            pool = [0x41, 0x62, 0xe0, 0xe1, 0xe2, 0xe8, 0xe9, 0xea, 0xed, 0xb4]
            if rng.random() < 0.25:
                pool = pool + [0xd1, 0x7e, 0xff]
            elif rng.random() < 0.15:
                pool = pool + [0x81]
            kids.append([t, bytes(rng.choice(pool) for _ in range(rng.choice([1, 2, 4]))).hex(),
                         'segments' if rng.random() < 0.15 else 'plain' if rng.random() < 0.95 else 'utf8'])
        values.append(kids)
    threads = rng.random() < 0.3
    n = rng.choice([2, 2, 3]) if threads else rng.choice([1, 1, 2, 2, 3])
    progs = [gen_block(rng, values, 0, threads) for _ in range(n)]
    case = {'values': values, 'progs': progs, 'mode': 'threads' if threads else 'tasks', 'schedule': []}
    if threads:
        lengths, hots = [], []
        for p in progs:
            # once before, so that types are set up
            Task(Context(case), 0, p).drain()
            ctx = Context(case)
            _, _, steps, _, hot = sched.run_counted(lambda: Task(ctx, 0, p).drain(), record_hot=True)
            lengths.append(steps)
            hots.append(hot)
        case['schedule'] = sched.gen_plan(rng, lengths, hots, rng.choice([1, 2, 3, 5, 8]))
    else:
        for _ in range(rng.choice([2, 6, 12, 24])):
            r = rng.random()
            case['schedule'].append([rng.randrange(n), 'step' if r < 0.85 else rng.choice(['close', 'drop', 'throw'])])
    return case


def gen_block(rng, values, depth, threads):
    out = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.4 or depth > 3 and r < 0.7:
            v = rng.randrange(len(values))
            s = ['read', v, rng.randrange(len(values[v])), rng.choice(['native', 'str', 'pair', 'prep', 'whole', 'whole',
                                                                      'hashable', 'human', 'copy', 'fresh', 'fresh', 'dump'])]
            if not threads and rng.random() < 0.06:
                s.append([rng.randint(1, 120), rng.choice(FAULTS)])
            out.append(s)
        elif r < 0.55:
            out.append(['yield'])
        elif r < 0.8 and depth <= 3:
            out.append(['scope', gen_block(rng, values, depth + 1, threads)])
        elif r < 0.85:
            out.append(['push'])
        elif r < 0.9:
            out.append(['pop', rng.randrange(4)])
        elif r < 0.92:
            out.append(['create'])
        elif r < 0.96:
            out.append(['try', gen_block(rng, values, depth + 1, threads)])
        elif depth:
            out.append(['raise'])
    return out


def encode(kids):
    rdns = b''
    for t, hx, form in kids:
        data = bytes.fromhex(hx)
        if form == 'plain':
            val = b'\x14' + bytes([len(data)]) + data
        elif form == 'utf8':
            val = b''.join(BYTES[b][1].encode() if BYTES[b][1] else b'?' for b in data)
            val = b'\x0c' + bytes([len(val)]) + val
        else:
            val = b'\x34\x80' + b''.join(b'\x14\x01' + bytes([b]) for b in data) + b'\x00\x00'
        pair = bytes.fromhex(OIDS[t]) + val
        pair = b'\x30' + bytes([len(pair)]) + pair
        rdns += b'\x31' + bytes([len(pair)]) + pair
    return b'\x30' + bytes([len(rdns)]) + rdns


def texts(kid):
    t, hx, form = kid
    if form == 'utf8':
        s = ''.join(BYTES[b][1] or '?' for b in bytes.fromhex(hx))
        return [s, s]
    out = []
    for i in (STRICT, LENIENT):
        chars = [BYTES[b][i] for b in bytes.fromhex(hx)]
        out.append(None if None in chars else ''.join(chars))
    return out


# ------------------------------------------------------------ execution

class Context(object):
    """The shared world of the tasks, and a record of everything that happened"""

    def __init__(self, case):
        self.case = case
        self.x509 = lib.mod('x509')
        self.clock = 0
        self.scopes = []
        self.reads = []
        self.shared = [self.load(i) for i in range(len(case['values']))]

    def load(self, i):
        return self.x509.Name.load(encode(self.case['values'][i]))

    def tick(self):
        self.clock += 1
        return self.clock


class Task(object):
    def __init__(self, ctx, tid, prog, private=False):
        self.ctx = ctx
        self.tid = tid
        self.own = 0
        self.pushed = []
        self.names = [ctx.load(i) for i in range(len(ctx.case['values']))] if private else ctx.shared
        self.private = private
        self.prog = prog
        self.gen = None

    def start(self):
        self.gen = self.top()
        return self

    def drain(self):
        try:
            for _ in self.top():
                pass
        except Stop:
            pass

    def top(self):
        try:
            for x in self.exec(self.prog):
                yield x
        finally:
            while self.pushed:
                self.pop(0)

    def pop(self, i):
        cm, sc = self.pushed.pop(i)
        self.own -= 1
        try:
            cm.__exit__(None, None, None)
        finally:
            sc[1] = self.ctx.tick()

    def exec(self, stmts):
        ctx = self.ctx
        for s in stmts:
            kind = s[0]
            if kind == 'read':
                self.read(s)
            elif kind == 'yield':
                yield
            elif kind == 'scope':
                sc = [ctx.tick(), None]
                ctx.scopes.append(sc)
                try:
                    with ctx.x509.strict_teletex():
                        self.own += 1
                        try:
                            for x in self.exec(s[1]):
                                yield x
                        finally:
                            self.own -= 1
                finally:
                    sc[1] = ctx.tick()
            elif kind == 'push':
                sc = [ctx.tick(), None]
                ctx.scopes.append(sc)
                cm = ctx.x509.strict_teletex()
                cm.__enter__()
                self.own += 1
                self.pushed.append((cm, sc))
            elif kind == 'pop':
                if self.pushed:
                    self.pop(s[1] % len(self.pushed))
            elif kind == 'create':
                ctx.x509.strict_teletex()
            elif kind == 'raise':
                raise Stop()
            elif kind == 'try':
                try:
                    for x in self.exec(s[1]):
                        yield x
                except (Stop, KeyboardInterrupt, MemoryError):
                    pass

    def read(self, s):
        ctx = self.ctx
        v, k, api = s[1:4]
        rec = {'value': v, 'kid': k, 'api': api, 'tid': self.tid, 'own': self.own, 'from': ctx.tick(), 'program': s}
        name = ctx.load(v) if api == 'fresh' else self.names[v]
        err = None
        if len(s) > 4:
            rec['got'], err, _, fired, _ = sched.run_counted(lambda: common.outcome(lambda: perform(name, k, api)), s[4])
            if fired and (err is not None or rec['got'] and rec['got'][0] == 'raised'):
                rec['got'] = 'interrupted'
                err = err or MemoryError()
        else:
            rec['got'] = common.outcome(lambda: perform(name, k, api))
        rec['to'] = ctx.tick()
        ctx.reads.append(rec)
        if err is not None:
            if not isinstance(err, (KeyboardInterrupt, MemoryError)):
                raise err
            raise err


def perform(name, k, api):
    if api == 'dump':
        return name.dump()
    if api in ('whole', 'fresh'):
        return name.native
    if api == 'hashable':
        return name.hashable
    if api == 'human':
        return name.human_friendly
    if api == 'copy':
        return name.copy().native
    pair = name.chosen[k][0]
    if api == 'native':
        return pair['value'].native
    if api == 'str':
        return str(pair['value'].chosen)
    if api == 'pair':
        return pair.native
    return pair.prepped_value


# ------------------------------------------------------------ judgement

_ORACLE = {}


def expected(kids, texts_, k, api):
    """The answer when the values are known to be these texts"""
    key = (tuple((t[0], x) for t, x in zip(kids, texts_)), k, api)
    if key not in _ORACLE:
        if len(_ORACLE) > 50000:
            _ORACLE.clear()
        if api in ('native', 'str'):
            got = common.canon(texts_[k])
        elif api == 'pair':
            got = ['d', [[['s', 'type'], ['s', kids[k][0]]], [['s', 'value'], common.canon(texts_[k])]]]
        elif api in ('whole', 'fresh', 'copy'):
            got = ['d', [[['s', t[0]], common.canon(x)] for t, x in zip(kids, texts_)]]
        else:
            # what a name with those texts in UTF-8 says
            x509 = lib.mod('x509')
            rdns = b''
            for t, x in zip(kids, texts_):
                val = x.encode()
                pair = bytes.fromhex(OIDS[t[0]]) + b'\x0c' + bytes([len(val)]) + val
                pair = b'\x30' + bytes([len(pair)]) + pair
                rdns += b'\x31' + bytes([len(pair)]) + pair
            name = x509.Name.load(b'\x30' + bytes([len(rdns)]) + rdns)
            got = common.outcome(lambda: perform(name, k, api))
        _ORACLE[key] = got
    return _ORACLE[key]


def allowed(ctx, rec):
    if rec['own'] > 0:
        return [STRICT]
    for a, b in ctx.scopes:
        if a < rec['to'] and (b is None or b > rec['from']):
            return [STRICT, LENIENT]
    return [LENIENT]


def judge(ctx, rec, state):
    kids = ctx.case['values'][rec['value']]
    modes = allowed(ctx, rec)
    if rec['api'] == 'dump':
        if rec['got'] not in ('interrupted', common.canon(encode(kids))):
            raise Violation(WHAT, 'dump changed: %s' % rec)
        return
    whole = rec['api'] in ('whole', 'fresh', 'copy', 'hashable', 'human')
    which = range(len(kids)) if whole else [rec['kid']]
    tx = [texts(x) for x in kids]
    options = []
    for j in which:
        st = set([UNREAD]) if rec['api'] == 'fresh' else state[j]
        opts = set()
        for p in st:
            opts.update(modes if p is UNREAD else [p])
        options.append(sorted(opts))
    if rec['got'] == 'interrupted':
        for j, o in zip(which, options):
            if rec['api'] not in ('fresh', 'copy'):
                state[j] = state[j] | set(o)
        return
    hits = []
    for combo in itertools.product(*options):
        got = dict(zip(which, combo))
        vals = [tx[j][got[j]] if j in got else 'x' for j in range(len(kids))]
        want = ['refused'] if None in vals else expected(kids, vals, rec['kid'], rec['api'])
        if rec['got'] == want:
            hits.append(combo)
    if not hits:
        raise Violation(WHAT, 'task %d, with %d scopes of its own open, read %s of value %s (%s): got %s; allowed '
                        'decodings %s' % (rec['tid'], rec['own'], rec['api'], kids, rec['program'], str(rec['got'])[:300],
                                          [['strict', 'lenient'][m] for m in modes]))
    if rec['api'] in ('fresh', 'copy'):
        return
    for n, j in enumerate(which):
        if rec['got'] == ['refused']:
            state[j] = state[j] | set(options[n])
        else:
            state[j] = set(h[n] for h in hits)


def run(case, stats):
    ctx = Context(case)
    threads = case['mode'] == 'threads'
    if threads:
        tasks = [Task(ctx, i, p, private=True) for i, p in enumerate(case['progs'])]
        sim = sched.Sim([t.drain for t in tasks], case['schedule']).run()
        stats.add('fault:preemption', len(sim.trail))
        for x in sim.trail:
            stats.seen('preempted instructions', x[1:])
        for t in sim.threads:
            if t.error is not None:
                raise Violation('a thread using scopes fails', '%r, preemptions %s' % (t.error, sim.trail))
    else:
        tasks = [Task(ctx, i, p).start() for i, p in enumerate(case['progs'])]

        def act(t, what):
            if t.gen is None:
                return
            try:
                if what == 'step':
                    next(t.gen)
                    return
                stats.add('fault:task ' + what)
                if what == 'close':
                    t.gen.close()
                elif what == 'throw':
                    t.gen.throw(Stop())
                    return
                t.gen = None
            except (StopIteration, Stop, KeyboardInterrupt, MemoryError):
                t.gen = None
        for n, what in case['schedule']:
            act(tasks[n], what)
        for t in tasks:
            for _ in range(200):
                act(t, 'step')
            t.gen = None
    states = {}
    ctx.reads.sort(key=lambda r: r['to'])
    inside = set()
    stats.add('steps', ctx.clock)
    for rec in ctx.reads:
        if rec['got'] == 'interrupted':
            stats.add('fault:' + rec['program'][4][1])
        key = (rec['tid'] if threads else 0, rec['value'])
        if key not in states:
            states[key] = [set([UNREAD]) for _ in case['values'][rec['value']]]
        inside.add(rec['own'] > 0)
        judge(ctx, rec, states[key])
    overlap = any(a is not b and a[0] < b[0] and (a[1] is None or a[1] > b[0]) for a in ctx.scopes for b in ctx.scopes)
    if overlap:
        stats.add('probe:scopes open at the same time')
    if len(inside) == 2 or overlap:
        stats.seen('case', case)
    stats.seen('histories of scopes and reads', [ctx.scopes, [(r['from'], r['to'], r['api']) for r in ctx.reads]])
    # every scope has been left by now
    for sc in ctx.scopes:
        if sc[1] is None:
            gc.collect()
            break
    audit = Context(case)
    t = Task(audit, 99, [['read', i, k, api] for i in range(len(case['values'])) for k in [0]
                         for api in ('fresh', 'native')])
    t.drain()
    for rec in audit.reads:
        judge(audit, rec, [set([UNREAD]) for _ in case['values'][rec['value']]])


def shrink(case):
    for i in range(len(case['progs'])):
        if len(case['progs']) > 1 and case['mode'] == 'tasks':
            yield dict(case, progs=case['progs'][:i] + case['progs'][i + 1:],
                       schedule=[[n - (n > i), w] for n, w in case['schedule'] if n != i])
        for b in smaller(case['progs'][i]):
            yield dict(case, progs=case['progs'][:i] + [b] + case['progs'][i + 1:])
    from .. import subject
    for s in subject.shrink_list(case['schedule']):
        yield dict(case, schedule=s)


def smaller(block):
    for i, s in enumerate(block):
        yield block[:i] + block[i + 1:]
        if s[0] in ('scope', 'try'):
            yield block[:i] + s[1] + block[i + 1:]
            for b in smaller(s[1]):
                yield block[:i] + [[s[0], b]] + block[i + 1:]
        if s[0] == 'read' and len(s) > 4:
            yield block[:i] + [s[:4]] + block[i + 1:]
