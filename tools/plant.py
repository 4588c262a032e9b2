#!/usr/bin/env python3
"""Confirm planted bugs: tools/plant.py [--no-check] ID...

For each seeded/ID: apply patch.diff to a scratch copy of /repo, build it
there, run the stable tests, run demo.sh against both trees, and run the quick
check of the property against the patched copy.  Nothing in /repo is touched.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'TIMEOUT'


def tests(tree):
    work = tempfile.mkdtemp(prefix='planttest')
    try:
        xml = os.path.join(work, 'junit.xml')
        env = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'TZ': 'UTC',
               'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1', 'PYTHONPYCACHEPREFIX': os.path.join(work, 'pc')}
        rc, out = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W', 'error',
                      '--rootdir=' + tree, '--continue-on-collection-errors', 'tests'], tree, env)
        return out.strip().split('\n')[-1]
    finally:
        shutil.rmtree(work)


def changed_lines_original(tree_git, patch):
    """Every line the patch removes must come from the base commit."""
    rc, base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], tree_git)
    base = base.split()[-1]
    bad, good = [], 0
    fn, ln = None, 0
    for line in open(patch):
        if line.startswith('--- a/'):
            fn = line[6:].strip()
            rc, bl = sh(['git', 'blame', '-s', '-l', '--', fn], tree_git)
            owner = [l.split()[0].startswith('^') or l.split()[0] == base for l in bl.split('\n') if l]
        elif line.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', line).group(1)) - 1
        elif fn and line.startswith('-') and not line.startswith('---'):
            if owner[ln]:
                good += 1
            else:
                bad.append((fn, ln + 1))
            ln += 1
        elif fn and line.startswith(' '):
            ln += 1
    return good, bad


def main():
    args = sys.argv[1:]
    check = '--no-check' not in args
    ids = [a for a in args if not a.startswith('-')]
    for id_ in ids:
        d = os.path.join(SEEDED, id_)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        prop = meta['property']
        work = tempfile.mkdtemp(prefix='plant')
        tree = os.path.join(work, 'repo')
        try:
            good, bad = changed_lines_original('/repo', os.path.join(d, 'patch.diff'))
            shutil.copytree('/repo', tree, symlinks=True)
            rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], tree)
            if rc:
                print(id_, 'DOES NOT APPLY', out)
                continue
            t = tests(tree)
            rc0, out0 = sh(['bash', os.path.join(d, 'demo.sh')], '/repo', timeout=300)
            rc1, out1 = sh(['bash', os.path.join(d, 'demo.sh')], tree, timeout=300)
            problems = []
            if good == 0:
                problems.append('no original line changed')
            if bad:
                problems.append('changes fix lines %s' % bad)
            if 'failed' in t or 'error' in t:
                problems.append('tests: ' + t)
            if rc0:
                problems.append('demo fails on clean: ' + out0[-300:])
            if not rc1:
                problems.append('demo passes on patched')
            res = ''
            if check:
                t0 = time.time()
                rc, out = sh(['python3', '-B', os.path.join(HERE, 'check.py'), prop, '--tier', 'quick'], HERE,
                             {'ASN1_REPO': tree, 'VERIF_SEED': '1'})
                vio = [l for l in out.split('\n') if l.startswith('VIOLATION')]
                res = 'CAUGHT' if rc == 1 and vio else 'MISSED rc=%s' % rc
                if rc not in (0, 1):
                    res += out[-400:]
                res += ' %.0fs' % (time.time() - t0)
            print('%-28s %s %s %s' % (id_, prop, res, '; '.join(problems) or 'ok'), flush=True)
        finally:
            shutil.rmtree(work)


main()
