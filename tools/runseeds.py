"""Development tool: runs the verifier and the battery of the property of each planted bug on a scratch copy with its patch.

usage: python tools/runseeds.py [ID ...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    p = json.load(open(f'{HERE}/seeded/{sid}/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='seedrun')
    try:
        shutil.copytree('/repo/kinisi', d + '/kinisi', ignore=shutil.ignore_patterns('__pycache__', 'tests'))
        r = subprocess.run(['git', 'apply', f'{HERE}/seeded/{sid}/patch.diff'], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return f'{sid}: patch does not apply {r.stderr[:200]}'
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'kv.verify', '-q', '--repo', d, p], cwd=HERE, capture_output=True, text=True, timeout=900)
        lines = r.stdout.strip().split('\n')
        ref = sorted({' '.join(x.split()[1:3])[:90] for x in lines if x.startswith('refuted')})
        unk = sorted({x[:160] for x in lines if x.startswith(('unknown', 'unsupported'))})
        subprocess.run(['/opt/venv/bin/python', HERE + '/run.py', '_battery', p, 'quick', '1', d + '/out.json'], cwd='/tmp', env=dict(os.environ, PYTHONPATH=d), capture_output=True, timeout=600)
        b = json.load(open(d + '/out.json'))
        return f"{sid}: verifier {('REFUTED ' + str(ref[:2])) if ref else ('undecided ' + str(unk[:2]) if unk else 'PROVED')} battery {sorted({x['test'] for x in b['fails']}) or 'quiet'}"
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    want = sys.argv[1:] or sorted(os.path.basename(x) for x in glob.glob(HERE + '/seeded/*'))
    with ThreadPoolExecutor(5) as ex:
        for r in ex.map(one, want):
            print(r, flush=True)
