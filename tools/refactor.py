"""Development tool: behaviour-preserving rewrites of /repo on which every check has to stay quiet.

Each file in tools/refactors starts with lines '# props: C01 ...' and '# file: parser.py'; the functions (or classes' methods,
named Class.method by '# at: Class.method' comment lines) that follow replace the ones in the repository; '# add: Class' or
'# add:' adds a new method or function.  usage: python tools/refactor.py [--no-battery] [NAME ...]"""
import ast, os, re, shutil, subprocess, sys, tempfile, json, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def find(tree, qual):
    body = tree.body
    node = None
    for part in qual.split('.'):
        node = next(n for n in body if getattr(n, 'name', None) == part)
        body = node.body
    return node


def apply(spec, root):
    text = open(spec).read()
    props = re.search(r'# props: (.*)', text).group(1).split()
    chunks = re.split(r'^(# (?:file|at|add|sub|ren):.*)$', text, flags=re.M)[1:]
    path = None
    for head, body in zip(chunks[::2], chunks[1::2]):
        kind, arg = re.match(r'# (\w+):\s*(.*)', head).groups()
        if kind == 'file':
            path = f'{root}/kinisi/{arg}'
            continue
        src = open(path).read()
        lines = src.split('\n')
        tree = ast.parse(src)
        if kind == 'ren':
            old, new = arg.split()
            src = re.sub(r'(?<!\w)' + old + r'(?!\w)', new, src)
        elif kind == 'sub':
            a, b = body.strip('\n').split('\n=>\n')
            assert a in src, (spec, a)
            src = src.replace(a, b)
        elif kind == 'at':
            n = find(tree, arg)
            start = min([n.lineno] + [d.lineno for d in n.decorator_list])
            pad = ' ' * (4 * arg.count('.'))
            new = [(pad + l if l.strip() else '') for l in body.strip('\n').split('\n')]
            src = '\n'.join(lines[:start - 1] + new + lines[n.end_lineno:])
        else:
            if arg:
                n = find(tree, arg)
                at = n.end_lineno
            else:
                at = len(lines)
            pad = '    ' if arg else ''
            new = [''] + ([''] if not arg else []) + [(pad + l if l.strip() else '') for l in body.strip('\n').split('\n')] + ['']
            src = '\n'.join(lines[:at] + new + lines[at:])
        open(path, 'w').write(src)
    return props


def main():
    bat = '--no-battery' not in sys.argv
    want = [x for x in sys.argv[1:] if not x.startswith('-')]
    jobs = []
    roots = []
    for spec in sorted(glob.glob(HERE + '/tools/refactors/*.txt')):
        name = os.path.basename(spec)[:-4]
        if want and name not in want:
            continue
        d = tempfile.mkdtemp(prefix='refac')
        roots.append(d)
        shutil.copytree('/repo/kinisi', d + '/kinisi', ignore=shutil.ignore_patterns('__pycache__'))
        props = apply(spec, d)
        subprocess.run(['/opt/venv/bin/python', '-m', 'compileall', '-q', d + '/kinisi'], check=True)
        if '--tests' in sys.argv:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider', d + '/kinisi/tests'], cwd=d, env=dict(os.environ, PYTHONPATH=d), capture_output=True, text=True)
            print(name, r.stdout.strip().split('\n')[-1], flush=True)
        jobs += [(name, d, p) for p in props]

    def one(j):
        name, d, p = j
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'kv.verify', '-q', '--repo', d, p], cwd=HERE, capture_output=True, text=True, timeout=900)
        lines = r.stdout.strip().split('\n')
        ref = [x[:700] for x in lines if x.startswith('refuted')]
        unk = sorted({x[:230] for x in lines if x.startswith(('unknown', 'unsupported'))})
        out = f'{name} {p}: ' + (f'*** REFUTED {len(ref)} {ref[:2]}' if ref else (f'undecided {len(unk)} ' + str(unk[:2]) if unk else 'proved ' + (lines[-1][:40] if lines else r.stderr[-300:])))
        if bat:
            o = f'{d}/out{p}.json'
            subprocess.run(['/opt/venv/bin/python', HERE + '/run.py', '_battery', p, 'quick', '1', o], cwd='/tmp', env=dict(os.environ, PYTHONPATH=d), capture_output=True, timeout=600)
            try:
                b = json.load(open(o))
                if b['fails'] or b['stats'].get('internal'):
                    out += f"   *** BATTERY {[(x['test'], x['message'][:200]) for x in b['fails']][:2]} {b['stats'].get('internal')[:2]}"
            except Exception as ex:        # noqa
                out += f'   *** BATTERY {ex}'
        return out
    try:
        with ThreadPoolExecutor(7) as ex:
            for r in ex.map(one, jobs):
                print(r, flush=True)
    finally:
        for d in roots:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
