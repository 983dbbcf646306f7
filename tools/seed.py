"""Plant and confirm a bug in a scratch copy of /repo (development tool).

usage: seed.py SPEC.py   where SPEC.py defines
  ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO (python)
Writes seeded/<ID>/ after confirming that the demo passes on the unchanged
tree, fails with the patch, and that the stable tests pass with the patch.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# Runs in the root of the repository; uses the code found there.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def main(spec):
    s = runpy.run_path(spec)
    out = os.path.join(VERIF, 'seeded', s['ID'])
    tmp = '/tmp/seedwt'
    shutil.rmtree(tmp+'/repo', ignore_errors=True)
    os.makedirs(tmp, exist_ok=True)
    if any('kernel' in e[0] or 'transform' in e[0] for e in s['EDITS']):
        shutil.rmtree(tmp+'/numba', ignore_errors=True)
    wt = os.path.join(tmp, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', wt], check=True)
        run(['git', 'checkout', '--', '.'], wt)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(s['DEMO'].strip()+'\n')
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'],
                       'what_it_breaks': s['BREAKS']}, f, indent=1)
        r = run(['bash', os.path.join(out, 'demo.sh')], wt)
        if r.returncode:
            print(s['ID'], 'DEMO FAILS ON CLEAN', r.stdout, r.stderr)
            shutil.rmtree(out)
            return 1
        for fn, old, new in s['EDITS']:
            p = os.path.join(wt, fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['ID'], 'EDIT NOT UNIQUE', fn, t.count(old), old)
                shutil.rmtree(out)
                return 1
            open(p, 'w').write(t.replace(old, new))
        d = run(['git', 'diff'], wt).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        r = run(['bash', os.path.join(out, 'demo.sh')], wt)
        if r.returncode == 0:
            print(s['ID'], 'DEMO PASSES WITH PATCH', r.stdout)
            shutil.rmtree(out)
            return 1
        print(s['ID'], 'demo says:', (r.stdout+r.stderr).strip()[-200:])
        r = run([PY, '-m', 'pytest', '-q', '--mpl', '-p', 'no:cacheprovider',
                 '--timeout=300', '-n', '6', '--dist', 'loadfile',
                 '--deselect', 'tests/test_cli.py::test_import_time',
                 '--junitxml', tmp+'/o.xml', 'tests'], wt,
                env=dict(os.environ, PYTHONPATH=wt, HOME='/root',
                         PATH='/opt/venv/bin:'+os.environ['PATH'],
                         PYTHONHASHSEED='0', MPLBACKEND='Agg',
                         OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                         NUMBA_NUM_THREADS='1', MPLCONFIGDIR=tmp+'/mpl',
                         NUMBA_CACHE_DIR=tmp+'/numba',
                         PYTHONPYCACHEPREFIX=tmp+'/pyc'))
        import xml.etree.ElementTree as ET
        ok = set()
        for tc in ET.parse(tmp+'/o.xml').getroot().iter('testcase'):
            if not [c for c in tc if c.tag in ('failure', 'error', 'skipped')]:
                ok.add(tc.get('classname')+'::'+tc.get('name'))
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = sorted(x for x in st-ok if 'import_time' not in x)
        if miss:
            print(s['ID'], 'TESTS FAIL', miss[:5])
            shutil.rmtree(out)
            return 1
        print(s['ID'], 'OK')
        return 0
    finally:
        shutil.rmtree(wt)


sys.exit(max(main(a) for a in sys.argv[1:]))
