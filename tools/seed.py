#!/usr/bin/env python3
"""Development helper: make and confirm a planted bug.
usage: seed.py ID PROPERTY FILE <<spec  (spec: python dict with edits, demo, needs, breaks)"""
import json, os, shutil, subprocess, sys, tempfile
PY = '/opt/venv-pypy/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
DEMO = '''#!/bin/bash
cd "${REPO_DIR:-$PWD}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv-pypy/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def confirm(sid, prop, edits, demo, needs, breaks, check=True):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        r = w + '/repo'
        shutil.copytree('/repo', r, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        patch = subprocess.run(['git', '-C', r, 'diff'], capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(patch)
        open(d + '/demo.py', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        ok = True
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', env=ENV, capture_output=True, text=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, env=ENV, capture_output=True, text=True)
        if a.returncode != 0:
            ok = False
            print(sid, 'demo fails on clean tree', a.stdout[-500:], a.stderr[-1500:])
        if b.returncode == 0:
            ok = False
            print(sid, 'demo passes with the patch')
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--disable-warnings'], cwd=r, env=ENV, capture_output=True, text=True)
        if t.returncode != 0:
            ok = False
            print(sid, 'tests fail:', t.stdout[-600:])
        e = dict(ENV, VERIF_REPO=r, VERIF_EVIDENCE=w + '/ev')
        c = subprocess.run(['python3', '/verif/check.py', prop], env=e, capture_output=True, text=True, cwd='/verif')
        print(sid, prop, 'VALID' if ok else 'INVALID', 'CAUGHT' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode)
        for l in c.stdout.splitlines()[:3] if c.returncode == 1 else c.stdout.splitlines()[-6:]:
            print('    ', l[:220])
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    # each file: python source defining SEEDS = [dict(...)]
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns['SEEDS']:
        if not want or s['sid'] in want:
            try:
                confirm(**s)
            except AssertionError as e:
                print(s['sid'], 'EDIT DOES NOT APPLY', str(e)[:200])
