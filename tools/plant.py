"""Writes one planted bug to /verif/seeded/<id> and tries it out.

    python3 tools/plant.py defs.py [ID ...]

defs.py defines BUGS: list of dict(id, prop, file, edits=[(old, new), ...], demo,
needs, breaks).  For each: a scratch copy of /repo is made, the edits are
applied, the stable tests and the demo are run on both versions, and the
check(s) of the property are run against the patched /repo (undone at once)."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEED = os.path.join(VERIF, 'seeded')
STUBS = os.path.join(VERIF, 'env')

DEMO_SH = '''#!/bin/bash
# run in /repo: 0 if the behaviour is right, 1 otherwise
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONPATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$here/demo.py"
'''
HEAD_STUBS = '''import os
import sys
import warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), os.path.join(HERE, 'stubs'), HERE,
                os.path.join(HERE, 'mc')]
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')


def fail(msg):
    print('WRONG:', msg)
    sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    defs = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for b in defs['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(SEED, b['id'])
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        files = {}
        # edits on the working tree of /repo, undone below
        assert not sh(['git', '-C', '/repo', 'status', '--porcelain']).stdout.strip()
        try:
            for e in b['edits']:
                fn, old, new = (b['file'],) + tuple(e) if len(e) == 2 else e
                p = os.path.join('/repo', fn)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh(['git', '-C', '/repo', 'diff']).stdout
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        demo = b['demo']
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD_STUBS + demo.lstrip('\n'))
        stubs = os.path.join(d, 'stubs')
        need = b.get('stubs', ['ngmix', 'sxdes', 'meds'])
        for n in need:
            shutil.copytree(os.path.join(STUBS, n), os.path.join(stubs, n),
                            ignore=shutil.ignore_patterns('__pycache__'))
        for f in b.get('mods', ['obsmodel.py']):
            os.makedirs(os.path.join(d, 'mc'), exist_ok=True)
            open(os.path.join(d, 'mc', '__init__.py'), 'w').close()
            shutil.copy(os.path.join(VERIF, 'mc', f), os.path.join(d, 'mc'))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        clean = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
        try:
            r = sh(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
            assert r.returncode == 0, r.stdout
            bad = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo')
            sh(['bash', '/opt/vp/test.sh', '/tmp/plant_out.json'])
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            res = json.load(open('/tmp/plant_out.json'))
            missing = base - set(res['passed'])
            caught = []
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
            for c in [b['prop']] + b.get('also', []):
                v = sh([os.path.join(VERIF, 'run.sh'), c, 'quick'], env=env)
                ok = v.returncode == 1 and ('VIOLATION property=%s' % c) in v.stdout
                caught.append('%s=%s' % (c, 'CAUGHT' if ok else 'missed(rc %d)' % v.returncode))
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        print(b['id'], b['prop'], 'clean rc', clean.returncode, 'patched rc', bad.returncode,
              'tests', 'ok' if not missing else 'BROKEN %s' % missing, *caught, flush=True)
        if clean.returncode != 0:
            print('   CLEAN OUTPUT', clean.stdout[-1500:])
        if bad.returncode != 1:
            print('   PATCHED OUTPUT', bad.stdout[-1500:])
        else:
            print('   ', bad.stdout.strip().splitlines()[-1][:150])


main()
