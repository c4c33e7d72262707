"""Development tool: runs the verifier (not the battery) on textual mutants of /repo and prints what each obligation says.

usage: python tools/mutate.py [--battery] [--file=tools/plants.txt] [-j7] [PROP ...]        (with --battery: the concrete battery as well; mutants listed in tools/mutants.txt: PROP | file | old | new)
"""
import os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    bat = '--battery' in sys.argv
    want = set(x for x in sys.argv[1:] if not x.startswith('-'))
    src = next((x[7:] for x in sys.argv if x.startswith('--file=')), os.path.join(HERE, 'tools/mutants.txt'))
    workers = next((int(x[2:]) for x in sys.argv if x.startswith('-j')), 7)
    muts = []
    for k, l in enumerate(open(src)):
        l = l.rstrip('\n')
        if not l.strip() or l.startswith('#'):
            continue
        p, f, a, b = [x.strip('\n') for x in l.split(' | ')]
        if not want or p in want:
            muts.append((k + 1, p, f, a.replace('\\n', '\n'), b.replace('\\n', '\n')))

    def one(m):
        k, p, f, a, b = m
        d = tempfile.mkdtemp(prefix='mut')
        try:
            shutil.copytree('/repo/kinisi', d + '/kinisi', ignore=shutil.ignore_patterns('tests', '__pycache__'))
            path = f'{d}/kinisi/{f}'
            s = open(path).read()
            if a not in s:
                return f'{k} {p} {f}: TEXT NOT FOUND {a!r}'
            open(path, 'w').write(s.replace(a, b, 1))
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'kv.verify', '-q', '--repo', d, p], cwd=HERE, capture_output=True, text=True, timeout=600)
            lines = r.stdout.strip().split('\n')
            ref = sorted({x.split()[1] for x in lines if x.startswith('refuted')})
            unk = sorted({x.split()[1] + ': ' + x[:260] for x in lines if x.startswith(('unknown', 'unsupported'))})
            out = f'line {k} {p} {f}: {a[:60]!r} -> {b[:60]!r}: '
            out += f'REFUTED {ref[:3]}' if ref else ('undecided ' + str(unk[:2]) if unk else 'NOT DETECTED ' + r.stderr[-300:])
            if bat:
                env = dict(os.environ, PYTHONPATH=d)
                subprocess.run(['/opt/venv/bin/python', HERE + '/run.py', '_battery', p, 'quick', '1', d + '/out.json'], cwd='/tmp', env=env, capture_output=True, timeout=400)
                try:
                    j = json.load(open(d + '/out.json'))
                    out += f"   BATTERY {sorted({x['test'] for x in j['fails']})} {j['stats'].get('internal')}"
                except Exception as ex:        # noqa
                    out += f'   BATTERY {ex}'
            return out
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(one, muts):
            print(r, flush=True)


if __name__ == '__main__':
    main()
