"""Builds seeded/<id>/ from an edit and a demonstration, and tries the checks against it (development only, no check uses it).

    plant(id, prop, [(file, old, new), ...], demo, needs, breaks)
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/pypyvenv/bin/python'
STABLE = [s.split('.')[-1] for s in json.load(open('/opt/vp/BASELINE.json'))['stable']]
SH = '''#!/bin/bash
# run with cwd = repository
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec /opt/pypyvenv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
WT = '/tmp/plant_wt'


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **env))


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', dst])


def plant(id, prop, edits, demo, needs, breaks, wt=WT):
    d = os.path.join(HERE, 'seeded', id)
    copy(wt)
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', wt).stdout
        assert diff
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.strip() + '\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('timeout 300 bash %s/demo.sh' % d, '/repo')
        b = sh('timeout 300 bash %s/demo.sh' % d, wt)
        t = sh('PYTHONPATH=%s %s -m pytest -q -p no:cacheprovider --timeout=300 --randomly-seed=4 --randomly-dont-reorganize '
               '--continue-on-collection-errors structrans/crystallography/test/test_hnf.py structrans/crystallography/test/test_lattice.py' % (wt, PY), wt)
        ok = a.returncode == 0 and b.returncode != 0 and ' failed' not in t.stdout and '7 passed' in t.stdout
        print(id, 'OK' if ok else 'BAD demo %d %d\n%s\n%s\n%s' % (a.returncode, b.returncode, a.stderr[-600:], b.stderr[-600:], t.stdout[-600:] if '7 passed' not in t.stdout else ''))
        if not ok:
            shutil.rmtree(d)
        sys.stdout.flush()
        return ok
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def check(id, props=None, tier='quick'):
    """runs the property's check (or all given) against the planted bug"""
    d = os.path.join(HERE, 'seeded', id)
    wt = '/tmp/check_' + id
    copy(wt)
    try:
        assert sh('git apply %s/patch.diff' % d, wt).returncode == 0
        for p in props or [json.load(open(os.path.join(d, 'meta.json')))['property']]:
            r = sh('timeout 900 python3-vt run.py %s --tier %s' % (p, tier), HERE, VERIF_REPO=wt)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  ')]
            print(id, p, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED ' + r.stdout[-700:] + r.stderr[-500:], (v or [''])[0][:150])
            sys.stdout.flush()
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    for i in ids:
        check(i)
