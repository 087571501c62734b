#!/usr/bin/env python3
"""Confirm a planted change: usage plant.py ID...  (folder seeded/ID with edit.py-made patch.diff)

For every ID: a scratch copy of /repo under /tmp, patch applied with git apply, the existing tests
run in it (must give the baseline passes), demo.sh run in it (must fail) and in an unpatched copy
(must pass).  With --check the registered check of the property is run against the patched copy
(VERIF_REPO) and must report a VIOLATION.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=cwd)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)

def one(pid, tests=True, check=True, demo=True):
    folder = os.path.join(SEED, pid)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='plant-')
    bad = []
    try:
        clean, work = os.path.join(tmp, 'a', 'repo'), os.path.join(tmp, 'b', 'repo')
        for d in (clean, work):
            shutil.copytree('/repo', d, symlinks=True)
        r = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], work)
        if r.returncode:
            return ['patch does not apply: ' + r.stderr]
        if demo:
            lay = os.path.join(tmp, 'demo')
            shutil.copytree(folder, lay, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
            r = sh(['bash', os.path.join(lay, 'demo.sh')], clean, timeout=300)
            if r.returncode:
                bad.append('demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-600:])
            r = sh(['bash', os.path.join(lay, 'demo.sh')], work, timeout=300)
            if not r.returncode:
                bad.append('demo passes with the patch')
            else:
                print('   demo:', (r.stdout + r.stderr).strip().splitlines()[-1:])
        if tests:
            r = sh(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider'], work)
            if ' 73 passed' not in r.stdout.replace('73 passed', ' 73 passed') or 'failed' in r.stdout:
                bad.append('tests: ' + r.stdout[-400:])
        if check:
            r = sh([sys.executable, 'check.py', meta['property'], 'quick'], HERE,
                   {'VERIF_REPO': work, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'PYTHONPATH': '',
                    'VERIF_EVIDENCE': os.path.join(tmp, 'ev')})
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + meta['property'])]
            print('   check: rc', r.returncode, *(v[:1] or ['NOT CAUGHT', r.stdout[-300:], r.stderr[-300:]]))
            if r.returncode == 1:
                for l in r.stdout.splitlines()[:6]:
                    print('        ', l[:260])
    finally:
        shutil.rmtree(tmp)
    return bad

if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(SEED))
    rc = 0
    for pid in args:
        print(pid, flush=True)
        bad = one(pid, '--no-tests' not in sys.argv, '--no-check' not in sys.argv, '--no-demo' not in sys.argv)
        for b in bad:
            rc = 1
            print('   BAD', b)
    sys.exit(rc)
