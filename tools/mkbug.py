#!/usr/bin/env python3
"""mkbug.py ID SPEC.py : make seeded/ID from a spec file with PROPERTY, FILE, EDITS [(old, new)], NEEDS, BREAKS, DEMO"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def make(pid, ns):
    tmp = tempfile.mkdtemp(prefix='mk-')
    try:
        work = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', work, symlinks=True)
        for file, old, new in ns['EDITS']:
            p = os.path.join(work, file)
            src = open(p, newline='').read()
            if '\r\n' in src:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert src.count(old) == 1, (file, src.count(old), old)
            open(p, 'w', newline='').write(src.replace(old, new))
        d = subprocess.run(['git', 'diff'], cwd=work, capture_output=True).stdout
    finally:
        shutil.rmtree(tmp)
    folder = os.path.join(HERE, 'seeded', pid)
    os.makedirs(folder, exist_ok=True)
    open(os.path.join(folder, 'patch.diff'), 'wb').write(d)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
    open(os.path.join(folder, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
    shutil.copy(os.path.join(HERE, 'tools/demo/sif.py'), folder)
    open(os.path.join(folder, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# ' + ns['BREAKS'].split('\n')[0] + '\nhere=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n')

if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for pid, spec in ns['BUGS'].items():
        if len(sys.argv) < 3 or pid in sys.argv[2:]:
            make(pid, spec)
            print('made', pid)
