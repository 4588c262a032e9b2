"""
Runs one property's simulation: seeded cases over worker processes, shrinking,
replay files, known findings and evidence.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECK = os.path.join(VERIF, 'check.py')
CASE_ALARM = 60
WALL = {'quick': 55, 'thorough': 700}


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """what: a stable class of failure; detail: for people"""

    def __init__(self, what, detail='', signature=None):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail
        self.signature = signature or what


class Stats(object):
    def __init__(self):
        self.counts = {}
        self.distinct = {}
        self.samples = []

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, kind, key):
        h = int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=6).digest(), 'big')
        self.distinct.setdefault(kind, set()).add(h)

    def sample(self, case):
        if len(self.samples) < 3:
            s = json.dumps(case)
            if len(s) < 3000:
                self.samples.append(case)


def rng_for(seed, prop, i):
    return random.Random('%s/%s/%s' % (seed, prop, i))


def load_prop(prop):
    return importlib.import_module('dst.props.' + prop.lower())


def from_library(e):
    """Whether an exception came out of the library's own code"""
    from . import lib
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    # frames of the standard library called by the library count as the library's
    tb = e.__traceback__
    hit = False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(lib.PKG_DIR):
            hit = True
        elif tb.tb_frame.f_code.co_filename.startswith(VERIF):
            hit = False
        tb = tb.tb_next
    return hit and last is not None


def guarded(fn):
    """Runs fn; turns library exceptions, overruns and Violations into a dict"""
    def on_alarm(sig, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_ALARM)
    try:
        fn()
        return None
    except Violation as v:
        return {'what': v.what, 'detail': v.detail, 'signature': v.signature}
    except CaseTimeout:
        return {'what': 'an operation did not finish', 'detail': 'no end within %ds' % CASE_ALARM,
                'signature': 'stuck'}
    except Exception as e:
        if from_library(e):
            text = traceback.format_exc()
            return {'what': 'unexpected %s on valid use' % type(e).__name__, 'detail': text[-1800:],
                    'signature': 'unexpected ' + type(e).__name__}
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def worker(args):
    mod = load_prop(args.prop)
    stats = Stats()
    k, n = [int(x) for x in args.worker.split('/')]
    total = mod.N[args.tier]
    end = time.time() + args.deadline
    mod.SEED = args.seed
    mod.setup()
    violation = None
    ran = 0
    done = True
    indices = [int(x) for x in args.cases.split(',')] if args.cases else range(k, total, n)
    past = []
    log = open(args.log, 'w') if args.log else None
    for i in indices:
        if time.time() > end:
            done = False
            break
        case = [None]
        if log:
            stats = Stats()

        def one():
            case[0] = mod.gen(rng_for(args.seed, args.prop, i), args.tier, i)
            if case[0] is None:
                return
            mod.run(case[0], stats)
        bad = guarded(one)
        if case[0] is not None:
            ran += 1
            stats.sample(case[0])
        if log:
            # what the case was, and every count and state its run produced (the first use of a type costs more work)
            run = [case[0], sorted(stats.counts.items()), sorted((a, sorted(b)) for a, b in stats.distinct.items()
                                                                if a != 'work per byte')]
            log.write('%d %s\n' % (i, ' '.join(hashlib.blake2b(json.dumps(x, sort_keys=True, default=repr).encode(),
                                                               digest_size=8).hexdigest() for x in run)))
        if bad:
            if known(args.prop, bad):
                stats.add('known_finding')
                stats.counts.setdefault('known', 0)
                continue
            violation = {'index': i, 'case': case[0], 'violation': bad, 'before': past}
            break
        past.append(i)
    if log:
        log.close()
    with open(args.out, 'w') as f:
        json.dump({'ran': ran, 'done': done, 'violation': violation, 'counts': stats.counts,
                   'distinct': dict((a, sorted(b)) for a, b in stats.distinct.items()),
                   'samples': stats.samples}, f)


def known_list():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def known(prop, bad):
    for k in known_list():
        if k.get('status') == 'known' and k['property'] == prop and k['signature'] == bad['signature']:
            return k
    return None


def run_case(mod, case):
    return guarded(lambda: mod.run(case, Stats()))


def shrink_main(args):
    """Reads a violation file, writes a smaller one of the same class"""
    mod = load_prop(args.prop)
    mod.setup()
    with open(args.shrink) as f:
        found = json.load(f)
    case, what = found['case'], found['violation']['signature']
    end = time.time() + args.deadline
    tried = 0
    bad = run_case(mod, case)
    if bad is None or bad['signature'] != what:
        json.dump(found, open(args.out, 'w'))
        return
    improved = True
    while improved and time.time() < end:
        improved = False
        for cand in mod.shrink(case):
            if time.time() > end:
                break
            tried += 1
            try:
                b = run_case(mod, cand)
            except Exception:
                continue
            if b is not None and b['signature'] == what:
                case, bad = cand, b
                improved = True
                break
    found['case'] = case
    found['violation'] = bad
    found['shrink_runs'] = tried
    json.dump(found, open(args.out, 'w'))


def replay_main(args):
    mod = load_prop(args.prop)
    with open(args.replay) as f:
        rep = json.load(f)
    mod.SEED = rep['seed']
    mod.setup()
    for i in rep.get('before', []):
        case = mod.gen(rng_for(rep['seed'], args.prop, i), rep['tier'], i)
        if case is not None:
            guarded(lambda: mod.run(case, Stats()))
    bad = run_case(mod, rep['case']) if rep['case'] is not None else guarded(
        lambda: mod.gen(rng_for(rep['seed'], args.prop, rep['index']), rep['tier'], rep['index']))
    if bad:
        print('REPLAYED property=%s %s' % (args.prop, bad['what']))
        print(bad['detail'])
        print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
        return 1
    print('replay did not violate %s' % args.prop)
    return 0


def sub(args, *extra):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = os.environ.get('DST_HASHSEED', '0')
    return [sys.executable, '-B', CHECK, args.prop, '--tier', args.tier, '--seed', str(args.seed)] + list(extra), env


def main(argv=None):
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--worker')
    p.add_argument('--workers', type=int, default=8)
    p.add_argument('--out')
    p.add_argument('--log')
    p.add_argument('--cases')
    p.add_argument('--shrink')
    p.add_argument('--replay')
    p.add_argument('--deadline', type=float, default=0)
    args = p.parse_args(argv)
    args.prop = args.prop.upper()
    if os.environ.get('PYTHONHASHSEED') is None or sys.flags.dont_write_bytecode == 0:
        env = dict(os.environ)
        env.setdefault('PYTHONHASHSEED', '0')
        os.execve(sys.executable, [sys.executable, '-B', CHECK] + sys.argv[1:], env)
    # never trust bytecode files that may lie beside the sources
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'dst-no-pycache-%d' % os.getpid())
    if args.worker:
        worker(args)
        return 0
    if args.shrink:
        shrink_main(args)
        return 0
    if args.replay:
        return replay_main(args)
    return parent(args)


def parent(args):
    t0 = time.time()
    mod = load_prop(args.prop)
    wall = args.deadline or getattr(mod, 'WALL', WALL)[args.tier]
    tmp = tempfile.mkdtemp(prefix='dst-%s-' % args.prop)
    try:
        return parent_in(args, mod, wall, tmp, t0)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def parent_in(args, mod, wall, tmp, t0):
    procs = []
    for k in range(args.workers):
        out = os.path.join(tmp, 'w%d.json' % k)
        cmd, env = sub(args, '--worker', '%d/%d' % (k, args.workers), '--out', out, '--deadline', str(wall))
        err = open(os.path.join(tmp, 'e%d.txt' % k), 'w')
        procs.append((k, subprocess.Popen(cmd, env=env, stdout=err, stderr=err, cwd=VERIF,
                                          start_new_session=True), out, err))
    hard = time.time() + wall + CASE_ALARM + 60
    results = {}
    failed = []
    stop = False
    waiting = list(procs)
    while waiting and not stop:
        time.sleep(0.05)
        for item in list(waiting):
            k, pr, out, err = item
            rc = pr.poll()
            if rc is None:
                continue
            waiting.remove(item)
            err.close()
            if rc == 0 and os.path.exists(out):
                with open(out) as f:
                    results[k] = json.load(f)
                if results[k]['violation']:
                    stop = True
            else:
                with open(err.name) as f:
                    failed.append((k, rc, f.read()[-3000:]))
        if time.time() > hard:
            failed.append((-1, 'timeout', 'workers did not finish in time'))
            break
    for k, pr, out, err in waiting:
        if pr.poll() is None:
            try:
                os.killpg(pr.pid, signal.SIGKILL)
            except OSError:
                pass
            pr.wait()
        err.close()
        if os.path.exists(out):
            try:
                with open(out) as f:
                    results.setdefault(k, json.load(f))
            except ValueError:
                pass
    search_wall = time.time() - t0
    found = [(r['violation']['index'], r['violation']) for r in results.values() if r['violation']]
    code = 0
    report = None
    if found:
        found.sort(key=lambda x: x[0])
        report = handle_violation(args, mod, tmp, found[0][1])
        code = 1
    elif failed:
        code = 2
    write_evidence(args, mod, results, search_wall, time.time() - t0, 1 if found else 0)
    for k in known_list():
        if k['property'] == args.prop and k.get('status') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (args.prop, k['what']))
    if code == 2:
        for f in failed:
            sys.stderr.write('worker %s ended with %s\n%s\n' % f)
    if report:
        print(report)
    total = sum(r['ran'] for r in results.values())
    print('%s: %d simulated runs in %.1fs, %s' % (args.prop, total, search_wall,
                                                  'violated' if code == 1 else 'error' if code else 'held'))
    return code


def handle_violation(args, mod, tmp, v):
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s-seed%d-case%d.json' % (args.prop, args.seed, v['index']))
    base = {'property': args.prop, 'seed': args.seed, 'tier': args.tier, 'index': v['index']}
    src = os.path.join(tmp, 'found.json')
    dst = os.path.join(tmp, 'shrunk.json')
    json.dump(v, open(src, 'w'))
    shrunk = v
    if v['case'] is not None:
        cmd, env = sub(args, '--shrink', src, '--out', dst, '--deadline', '60')
        try:
            subprocess.run(cmd, env=env, cwd=VERIF, timeout=200, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
            if os.path.exists(dst):
                shrunk = json.load(open(dst))
        except (subprocess.TimeoutExpired, ValueError):
            pass
    tries = [dict(base, case=shrunk['case'], violation=shrunk['violation'], before=[])]
    if shrunk['case'] != v['case']:
        tries.append(dict(base, case=v['case'], violation=v['violation'], before=[]))
    if v['before']:
        tries.append(dict(base, case=v['case'], violation=v['violation'], before=v['before']))
    confirmed = None
    for t in tries:
        json.dump(t, open(path, 'w'), indent=1)
        cmd, env = sub(args, '--replay', path)
        try:
            r = subprocess.run(cmd, env=env, cwd=VERIF, timeout=240, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 1:
            confirmed = t
            break
    final = confirmed or tries[0]
    final['confirmed_in_fresh_process'] = confirmed is not None
    json.dump(final, open(path, 'w'), indent=1)
    out = ['property %s is violated: %s' % (args.prop, final['violation']['what']),
           str(final['violation']['detail'])[:2500],
           'VIOLATION property=%s replay=%s' % (args.prop, path)]
    return '\n'.join(out)


def write_evidence(args, mod, results, search_wall, wall, violations):
    counts = {}
    distinct = {}
    samples = []
    ran = 0
    for k in sorted(results):
        r = results[k]
        ran += r['ran']
        for a, b in r['counts'].items():
            counts[a] = counts.get(a, 0) + b
        for a, b in r['distinct'].items():
            distinct.setdefault(a, set()).update(b)
        samples += r['samples'][:1]
    faults = dict((a[6:], b) for a, b in sorted(counts.items()) if a.startswith('fault:'))
    probes = dict((a[6:], b) for a, b in sorted(counts.items()) if a.startswith('probe:'))
    cov = {
        'evaluations': counts.get('simulated runs', ran),
        'distinct_nontrivial': len(distinct.get('case', ())),
        'rule': mod.RULE,
        'samples': samples[:3],
        'simulated_runs_per_hour': int(counts.get('simulated runs', ran) / search_wall * 3600) if search_wall else 0,
        'seeds_per_hour': int(ran / search_wall * 3600) if search_wall else 0,
        'simulated_time': '%d simulated steps (%s)' % (counts.get('steps', 0), getattr(mod, 'STEP', 'operations')),
        'faults_injected': faults,
        'probes_hit': probes,
        'distinct_by_measure': dict((a, len(b)) for a, b in sorted(distinct.items())),
        'counters': dict((a, b) for a, b in sorted(counts.items()) if not a.startswith(('fault:', 'probe:'))),
        'real_components': getattr(mod, 'REAL', 'all of asn1crypto as imported from the working tree'),
        'simulated_components': getattr(mod, 'STUB', ''),
        'workers': args.workers,
        'complete': all(r['done'] for r in results.values()) and len(results) == args.workers,
    }
    ev = {'property': args.prop, 'tier': args.tier, 'seed': args.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2),
          'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', args.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
