"""Keeps planted bugs: python3 tools/plant.py SPECFILE...
A spec file defines SPECS, a list of dicts: id, property, edits [(file, old, new), ...], demo (python source), needs, breaks.
A bug is written to seeded/<id> only after the tests pass with it, and its demonstration fails with it and passes without it."""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONPATH='.', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1')
DEMO = '#!/bin/bash\nPYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=600, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def plant(s):
    out = os.path.join(ROOT, 'seeded', s['id'])
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        work = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', work, symlinks=True)
        for f, old, new in s['edits']:
            p = os.path.join(work, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], f'REJECTED: {t.count(old)} places match in {f}: {old[:50]!r}'
            open(p, 'w').write(t.replace(old, new))
        d = os.path.join(tmp, 'demo')
        os.mkdir(d)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        a = sh(['bash', d + '/demo.sh'], '/repo', 300)
        if a.returncode:
            return s['id'], 'REJECTED: demo fails on the unchanged tree: ' + (a.stdout + a.stderr)[-500:]
        b = sh(['bash', d + '/demo.sh'], work, 300)
        if not b.returncode:
            return s['id'], 'REJECTED: demo passes with the bug'
        r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], work)
        if r.returncode:
            return s['id'], 'REJECTED: tests fail: ' + '\n'.join(r.stdout.splitlines()[-4:])
        diff = sh(['git', 'diff'], work).stdout
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(d, f), out)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        env = dict(os.environ, VERIF_REPO=work, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=tmp)
        c = sh(['python3-vt', '-m', 'sa.run', s['property']], ROOT, 900, env)
        verdict = 'caught' if c.returncode == 1 else f'MISSED ({c.returncode}) ' + c.stdout.splitlines()[0] if c.stdout else 'MISSED ' + c.stderr[-300:]
        return s['id'], f'kept, {verdict}; demo: {(b.stdout + b.stderr).strip().splitlines()[-1][:100] if (b.stdout + b.stderr).strip() else ""}'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    specs = [s for f in sys.argv[1:] for s in runpy.run_path(f)['SPECS']]
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for name, r in ex.map(plant, specs):
            print(name, r, flush=True)
