#!/usr/bin/env python3
"""
Determinism of the simulator: tools/selftest.py [CASES] [Cxx...]

Runs the first CASES cases of each check three times (one worker; one worker with another hash seed; three workers)
and compares the logs of what every case was and what came of it.  Nothing is written outside a scratch directory.
"""
import glob
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(prop, cases, workers, hashseed, d):
    out = {}
    for w in range(workers):
        log = os.path.join(d, 'log%d' % w)
        env = dict(os.environ, PYTHONHASHSEED=hashseed, DST_HASHSEED=hashseed)
        p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'check.py'), prop, '--seed', '1', '--tier', 'quick',
                            '--cases', ','.join(str(i) for i in range(w, cases, workers)), '--worker', '%d/%d' % (w, workers), '--workers', str(workers),
                            '--deadline', '600', '--out', os.path.join(d, 'out%d' % w), '--log', log], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, cwd=HERE)
        if p.returncode:
            sys.exit('%s: %s' % (prop, p.stdout.decode()[-500:]))
        with open(log) as f:
            for line in f:
                out[int(line.split()[0])] = line
    return out


def main():
    cases = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    props = sys.argv[2:] or ['C%02d' % n for n in range(1, 16)]
    bad = 0
    for prop in props:
        with tempfile.TemporaryDirectory() as d:
            a, b, c = one(prop, cases, 1, '0', d), one(prop, cases, 1, '77', d), one(prop, cases, 3, '0', d)
        diff = [i for i in sorted(a) if not a[i] == b.get(i) == c.get(i)]
        print('%s: %d cases, %d differ %s' % (prop, len(a), len(diff), diff[:5]), flush=True)
        bad += bool(diff) or len(a) != len(b) or len(a) != len(c)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
