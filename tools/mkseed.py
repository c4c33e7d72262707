"""Development tool: makes /verif/seeded/<id>/ from tools/seeds.py and confirms each in a scratch copy.

usage: python tools/mkseed.py [ID ...]      builds the patch from a scratch git worktree, runs the stable tests there and the demo with and without the patch
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds import SEEDS, PRELUDE
PY = '/opt/venv/bin/python'
BASE = 'b35240e'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable_pass']) if 'stable_pass' in json.load(open('/opt/vp/BASELINE.json')) else None


def make(s):
    sid = s['id']
    d = tempfile.mkdtemp(prefix='seed')
    out = os.path.join(HERE, 'seeded', sid)
    try:
        r = sh(f'git -C /repo archive HEAD | tar -x -C {d} && cd {d} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x')
        for f, a, b in s['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(a) < 1:
                return f'{sid}: TEXT NOT FOUND {a!r}'
            n = s.get('occ', 0)
            k = -1
            for _ in range(n + 1):
                k = t.index(a, k + 1)
            open(p, 'w').write(t[:k] + b + t[k + len(a):])
        patch = sh(f'cd {d} && git diff').stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.py', 'w').write(PRELUDE + s['demo'])
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\ncd "$(dirname "$0")" && H=$(pwd) && cd "$OLDPWD" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)" exec /opt/venv/bin/python "$H/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=d)
        bad = sh(f'cd {d} && bash {out}/demo.sh', env=env)
        t = sh(f'cd {d} && {PY} -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 --continue-on-collection-errors kinisi/tests 2>&1 | tail -15', env=env)
        sh(f'cd {d} && git checkout -q -- .')
        good = sh(f'cd {d} && bash {out}/demo.sh', env=env)
        tail = [l for l in t.stdout.strip().split('\n') if l.startswith('FAILED') or 'passed' in l]
        ok = good.returncode == 0 and bad.returncode != 0
        return f'{sid}: demo good={good.returncode} bad={bad.returncode} {"OK" if ok else "WRONG " + good.stdout[-300:] + good.stderr[-400:]} | {bad.stdout.strip()[-160:]} {"" if bad.stdout.strip() else bad.stderr.strip()[-200:]} | tests {tail}'
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    want = set(sys.argv[1:])
    todo = [s for s in SEEDS if not want or s['id'] in want]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(make, todo):
            print(r, flush=True)
