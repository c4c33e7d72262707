"""Runs the deductive verifier and the concrete replay battery on one property and reports.

Exit codes: 0 the property held on everything explored, 1 with a VIOLATION line.  Nothing else.
"""
import argparse, ast, json, os, re, signal, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PKG = os.path.join(REPO, 'kinisi')
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
PY = '/opt/venv/bin/python'
LIMIT = {'quick': dict(verify=420, battery=240, hard=330), 'thorough': dict(verify=900, battery=1500, hard=1900)}


def mine():
    """Integer and float constants of the current source: sizes at which behaviour may change."""
    ints = set()
    for f in sorted(os.listdir(PKG)):
        if f.endswith('.py'):
            try:
                tree = ast.parse(open(os.path.join(PKG, f)).read())
            except (SyntaxError, OSError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                    v = n.value
                    if v == int(v) and 0 < v < 10**6:
                        ints.add(int(v))
    return sorted(ints)


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) test=(\S+) match=(.*?) :: (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(dict(test=m.group(2), match=m.group(3), what=m.group(4)))
    return out


# ------------------------------------------------------------------------------------------------------------------
# workers (each in its own process, so that a hang or crash of the code under test cannot take the check down)
# ------------------------------------------------------------------------------------------------------------------
def worker_battery(prop, tier, seed, out, hints):
    from kv.battery import common
    import kv.battery.parser_tests, kv.battery.diffusion_tests, kv.battery.analyzer_tests       # noqa
    ctx = common.Ctx(seed, tier, mine())
    fails, stats = common.run_battery(prop, ctx, LIMIT[tier]['battery'], hints=hints, progress=out)
    with open(out, 'w') as f:
        json.dump({'fails': fails, 'stats': stats}, f, default=str)


def worker_verify(prop, tier, out):
    try:
        from kv import verify
    except ImportError:
        rep = {'obligations': [], 'functions': [], 'trusted': [], 'notes': ['no verifier module'], 'status': 'none'}
    else:
        rep = verify.verify(prop, tier, LIMIT[tier]['verify'])
    with open(out, 'w') as f:
        json.dump(rep, f, default=str)


def spawn(args, log):
    return subprocess.Popen([PY, os.path.join(HERE, 'run.py')] + args, stdout=log, stderr=subprocess.STDOUT, cwd='/tmp', start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


# ------------------------------------------------------------------------------------------------------------------
def check(prop, tier, seed):
    import tempfile, shutil
    t0 = time.time()
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, 'replays')):
        if f.startswith(prop + '-'):
            os.remove(os.path.join(EVID, 'replays', f))
    scratch = tempfile.mkdtemp(prefix=f'kvrun_{prop}_')
    notes = []
    try:
        vout, bout = os.path.join(scratch, 'v.json'), os.path.join(scratch, 'b.json')
        logs = {k: open(os.path.join(scratch, k + '.log'), 'w+') for k in ('v', 'b')}
        pv = spawn(['_verify', prop, tier, vout], logs['v'])
        pb = spawn(['_battery', prop, tier, str(seed), bout], logs['b'])
        # how far the machine itself agrees with CPython (bounded, never part of the verdict)
        cout = os.path.join(scratch, 'c.json')
        pc = spawn(['_conform', str(seed), cout], logs['b']) if tier == 'thorough' else None
        lim = LIMIT[tier]
        for p, t, nm in ((pb, lim['hard'], 'battery'), (pv, lim['verify'] + 60, 'verifier')):
            try:
                p.wait(timeout=max(1, t - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                stop(p)
                notes.append(f'{nm} stopped at its time limit of {t} s')
        if pc is not None:
            try:
                pc.wait(timeout=max(1, lim['hard'] - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                stop(pc)
        rep, bat, conf = load(vout), load(bout), load(cout)
        if rep is None:
            logs['v'].seek(0)
            notes.append('verifier gave no report: ' + logs['v'].read()[-600:])
            rep = {'obligations': [], 'functions': [], 'trusted': [], 'notes': [], 'status': 'crashed'}
        if bat is None or 'stats' not in bat:
            logs['b'].seek(0)
            notes.append('battery gave no report: ' + logs['b'].read()[-600:])
            cur = (bat or {}).get('current')
            bat = {'fails': [], 'stats': {'evaluations': 0, 'distinct': 0, 'per_test': {}, 'samples': [], 'truncated': [], 'internal': []}, 'current': cur}
        for l in logs.values():
            l.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    obs = rep['obligations']
    refuted = [o for o in obs if o['status'] == 'refuted']
    undecided = [o for o in obs if o['status'] in ('unknown', 'unsupported')]
    discharged = [o for o in obs if o['status'] == 'discharged']
    fails = bat['fails']
    kn = known(prop)
    listed, fresh = [], []
    for f in fails:
        hit = next((k for k in kn if k['test'] == f['test'] and re.search(k['match'], f['message'])), None)
        (listed if hit else fresh).append(f)
        if hit:
            print(f'KNOWN-FINDING: property={prop} {hit["what"]}')
    code, lines = 0, []
    if fresh:
        path = os.path.join(EVID, 'replays', f'{prop}-1.json')
        f = fresh[0]
        json.dump({'property': prop, 'kind': 'failing-input', 'test': f['test'], 'params': f['params'], 'message': f['message'],
                   'failed_obligations': refuted + undecided, 'how': f'{PY} {HERE}/run.py replay {path}'}, open(path, 'w'), indent=1, default=str)
        print(f'{prop}: {f["test"]}: {f["message"]}')
        lines.append(f'VIOLATION property={prop} replay={path}')
        code = 1
    elif refuted:
        path = os.path.join(EVID, 'replays', f'{prop}-1.json')
        json.dump({'property': prop, 'kind': 'obligation', 'failed_obligations': refuted, 'undecided': undecided}, open(path, 'w'), indent=1, default=str)
        for o in refuted[:5]:
            print(f'{prop}: obligation {o["id"]} refuted: {str(o.get("detail", ""))[:400]}')
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        code = 1
    st = bat['stats']
    from kv import catalogue
    entry = catalogue.ENTRY[prop]
    level = entry['level']
    cov = {
        'obligations': len(obs), 'discharged': len(discharged), 'refuted': len(refuted), 'undecided': len(undecided),
        'checker_cmd': f'{PY} {HERE}/run.py {prop} --tier {tier}',
        'trusted_base': sorted(set(rep.get('trusted', []))) + entry.get('trusted', []),
        'functions_under_contract': rep.get('functions', []),
        'backends': rep.get('backends', {}), 'solver_s': rep.get('solver_s', 0.0),
        'obligation_list': [{k: o[k] for k in ('id', 'status', 'backend', 'time') if k in o} for o in obs],
        'undecided_list': [{'id': o['id'], 'why': str(o.get('detail', ''))[:300]} for o in undecided],
        'bounded_part': {'rule': 'concrete runs of the real code against an independent oracle; generators in kv/battery, seeded by VERIF_SEED, sizes include the constants of the source',
                         'evaluations': st['evaluations'], 'distinct_nontrivial': st['distinct'], 'per_test': st['per_test'], 'truncated': st['truncated'],
                         'internal_errors': st.get('internal', []), 'samples': st['samples']},
        'explanation': entry.get('note', ''),
        'evaluations': st['evaluations'], 'distinct_nontrivial': st['distinct'], 'samples': st['samples'],
        'rule': 'parameter dictionaries of the generators in kv/battery; every one is a complete input of the real code and distinct ones are counted',
        'notes': notes + rep.get('notes', []),
    }
    if conf is not None:
        cov['machine_against_cpython'] = conf
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': rep.get('assumptions', []) + entry.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': code}
    tmp = os.path.join(EVID, f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f'{prop}.json'))
    print(f'{prop} [{tier}] obligations {len(obs)}: {len(discharged)} discharged, {len(refuted)} refuted, {len(undecided)} undecided (bounded stand-in); '
          f'concrete runs {st["evaluations"]}; {ev["wall_s"]} s')
    for n in notes:
        print('note:', n)
    for l in lines:
        print(l)
    return code


def replay(path):
    from kv.battery import common
    import kv.battery.parser_tests, kv.battery.diffusion_tests, kv.battery.analyzer_tests       # noqa
    r = json.load(open(path))
    if r.get('kind') != 'failing-input':
        print('no failing input in this file; failed obligations:')
        for o in r['failed_obligations']:
            print(json.dumps(o, indent=1))
        return 1
    f = common.TESTS[r['property']][r['test']][0]
    msg = common.call_test(f, r['params'])
    print('held' if msg is None else 'FAILS: ' + msg)
    return 0 if msg is None else 1


def setup():
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3, numpy, kinisi        # noqa
    print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'kinisi', kinisi.__file__)
    return 0


def main(argv):
    if argv and argv[0] == '_battery':
        worker_battery(argv[1], argv[2], int(argv[3]), argv[4], None)
        return 0
    if argv and argv[0] == '_verify':
        worker_verify(argv[1], argv[2], argv[3])
        return 0
    if argv and argv[0] == '_conform':
        from kv import conform
        r = conform.conform(seed=int(argv[1]))
        json.dump({'rule': 'snippets and functions of the package executed by the machine, evaluated on drawn inputs and compared with CPython; outside: the machine declines',
                   'agrees': sorted(k for k, x in r.items() if x[0] == 'agrees'), 'outside': sorted(k for k, x in r.items() if x[0] in ('outside', 'undetermined', 'error')),
                   'differs': {k: x[1] for k, x in r.items() if x[0] == 'differs'}, 'samples': sum(x[2] for x in r.values())}, open(argv[2], 'w'))
        return 0
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    if argv and argv[0] == 'setup':
        return setup()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in LIMIT else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return check(a.prop, tier, seed)
