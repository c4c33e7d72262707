"""C01-C08: the trajectory side."""
import itertools, math
import numpy as np
from .common import register, also, Fail, require, close, same, raises, rng_of, quiet


# ----------------------------------------------------------------------------------------------------------------
# synthetic trajectories
# ----------------------------------------------------------------------------------------------------------------
def cell(kind, rng, frames):
    """frames x 3 x 3 row-vector cells."""
    base = np.diag(rng.uniform(6, 12, 3))
    if kind == 'cubic':
        base = np.eye(3) * 8.0
    elif kind == 'tri' or kind == 'npt_tri':
        base = base + np.tril(rng.uniform(-2, 2, (3, 3)), -1)
    elif kind == 'full' or kind == 'npt_full':
        base = base + rng.uniform(-1.5, 1.5, (3, 3)) * (1 - np.eye(3))
    out = np.repeat(base[None], frames, axis=0)
    if kind.startswith('npt'):
        out = out * (1 + 0.05 * rng.standard_normal((frames, 1, 1)))
        if kind != 'npt_ortho':
            out = out + 0.1 * rng.standard_normal((frames, 3, 3)) * (out != 0)
    return out


def frac_walk(rng, frames, atoms, mode='wrapped', step=0.3):
    x = rng.uniform(0, 1, (1, atoms, 3)) + np.cumsum(rng.uniform(-step, step, (frames, atoms, 3)), axis=0)
    if mode == 'wrapped':
        return x % 1.0
    if mode == 'random':
        return rng.uniform(0, 1, (frames, atoms, 3))
    if mode == 'outside':
        return x % 1.0 + rng.integers(-3, 4, x.shape)
    return x


def oracle_unwrap(frac, cells):
    """atoms x (frames-1) x 3 by plain loops."""
    T, n, _ = frac.shape
    cart = np.zeros((T, n, 3))
    for t in range(T):
        cart[t] = frac[t] @ cells[t]
    out = np.zeros((n, T - 1, 3))
    tot = np.zeros((n, 3))
    margin = 1.0
    for t in range(1, T):
        d = cart[t] - cart[t - 1]
        f = np.linalg.solve(cells[t].T, d.T).T
        g = f + 0.5
        margin = min(margin, float(np.min(np.abs(g - np.round(g)))) if g.size else 1.0)
        tot = tot + (f - np.floor(g)) @ cells[t]
        out[:, t - 1] = tot
    return out, margin


def as_list(frac, form='list'):
    if form == 'list':
        return [frac[t][:, None, :].copy() for t in range(len(frac))]
    return frac[:, :, None, :].copy()


KINDS = ['cubic', 'ortho', 'tri', 'full', 'npt_ortho', 'npt_tri', 'npt_full']
MODES = ['wrapped', 'random', 'outside', 'unwrapped']


def gen_unwrap(ctx):
    for kind in KINDS:
        for mode in MODES:
            for (n, T) in [(3, 6), (1, 2), (1, 9), (7, 3)]:
                yield dict(seed=ctx.seeds(1)[0], atoms=n, frames=T, cell=kind, mode=mode, form=ctx.pick(['list', 'array']))
    for v in ctx.size_ints(2, 21000):
        yield dict(seed=1, atoms=v, frames=3, cell='tri', mode='random', form='list')
        yield dict(seed=2, atoms=2, frames=v, cell='npt_tri', mode='random', form='list')
    for s in ctx.seeds(ctx.n(150, 4000)):
        r = np.random.default_rng(s)
        yield dict(seed=s, atoms=int(r.integers(1, 40)), frames=int(r.integers(2, 120)), cell=KINDS[r.integers(0, len(KINDS))],
                   mode=MODES[r.integers(0, 4)], form=['list', 'array'][r.integers(0, 2)], step=float(r.choice([0.01, 0.2, 0.45])))
    yield dict(seed=5, atoms=300, frames=50, cell='ortho', mode='random', form='list')
    yield dict(seed=6, atoms=20, frames=1500, cell='npt_ortho', mode='random', form='list')


def _unwrap_data(p):
    for k in range(20):
        rng = rng_of(p, k)
        cells = cell(p['cell'], rng, p['frames'])
        frac = frac_walk(rng, p['frames'], p['atoms'], p['mode'], p.get('step', 0.3))
        want, margin = oracle_unwrap(frac, cells)
        if margin > 1e-9:
            return rng, cells, frac, want
    raise RuntimeError('no generic data')


@register('C01', gen_unwrap)
def unwrap_matches_oracle(p):
    from kinisi.parser import Parser
    rng, cells, frac, want = _unwrap_data(p)
    latt = [c.copy() for c in cells] if p['form'] == 'list' else cells.copy()
    got = Parser.get_disp(as_list(frac, p['form']), latt, progress=bool(p['seed'] % 2))
    close(got, want, 'displacements', rtol=1e-7, atol=1e-8)


def gen_rewrap(ctx):
    for kind in KINDS[:4]:
        for s in ctx.seeds(ctx.n(8, 200)):
            r = np.random.default_rng(s)
            yield dict(seed=s, atoms=int(r.integers(1, 12)), frames=int(r.integers(2, 20)), cell=kind, mode=MODES[r.integers(0, 4)], form='list')


@register('C01', gen_rewrap)
def rewrap_invariance(p):
    from kinisi.parser import Parser
    rng, cells, frac, want = _unwrap_data(p)
    moved = frac + rng.integers(-4, 5, frac.shape)
    if oracle_unwrap(moved, cells)[1] < 1e-7:
        return
    a = Parser.get_disp(as_list(frac), [c.copy() for c in cells], progress=False)
    b = Parser.get_disp(as_list(moved), [c.copy() for c in cells], progress=False)
    close(b, a, 'displacements after re-wrapping', rtol=1e-7, atol=1e-7)
    # only one atom moved: every other row untouched
    one = frac.copy()
    k = int(rng.integers(0, p['atoms']))
    one[:, k] += rng.uniform(-1, 1, one[:, k].shape)
    c = Parser.get_disp(as_list(one), [c.copy() for c in cells], progress=False)
    keep = [i for i in range(p['atoms']) if i != k]
    close(c[keep], a[keep], 'rows of the untouched atoms', rtol=1e-9, atol=1e-10)


def gen_ties(ctx):
    for s in ctx.seeds(ctx.n(20, 200)):
        yield dict(seed=s, atoms=5, frames=6)


@register('C01', gen_ties)
def half_cell_steps(p):
    """Exactly representable multiples of 1/8 in power-of-two cells: components must land in [-1/2, 1/2)."""
    from kinisi.parser import Parser
    rng = rng_of(p)
    cells = np.repeat(np.diag(rng.choice([1., 2., 4., 8.], 3))[None], p['frames'], axis=0)
    frac = rng.integers(-16, 16, (p['frames'], p['atoms'], 3)) / 8.0
    want, _ = oracle_unwrap(frac, cells)
    got = Parser.get_disp(as_list(frac), [c.copy() for c in cells], progress=False)
    close(got, want, 'displacements at half-cell steps', atol=1e-10)


# ----------------------------------------------------------------------------------------------------------------
# C02
# ----------------------------------------------------------------------------------------------------------------
def gen_drift(ctx):
    for n in (1, 2, 3, 8):
        for N in (1, 2, 7):
            for k in sorted({0, 1, 2, n - 1, n}):
                if 0 <= k <= n:
                    for kind in ('list', 'array', 'tuple'):
                        yield dict(seed=ctx.seeds(1)[0], atoms=n, steps=N, nfw=k, kind=kind)
    for v in ctx.size_ints(2, 21000):
        yield dict(seed=v, atoms=v + 2, steps=3, nfw=v, kind='list')
        yield dict(seed=v, atoms=3, steps=v, nfw=2, kind='list')
        yield dict(seed=v, atoms=v, steps=2, nfw=1, kind='list')
    for s in ctx.seeds(ctx.n(200, 4000)):
        r = np.random.default_rng(s)
        n = int(r.integers(1, 60))
        yield dict(seed=s, atoms=n, steps=int(r.integers(1, 80)), nfw=int(r.integers(0, n + 1)), kind=['list', 'array'][r.integers(0, 2)])


def _sel(rng, n, k, kind):
    sel = [int(i) for i in rng.permutation(n)[:k]]
    if kind == 'array':
        return np.array(sel, dtype=int)
    if kind == 'tuple':
        return sorted(sel)
    return sel


@register('C02', gen_drift)
def drift_is_framework_mean(p):
    from kinisi.parser import Parser
    rng = rng_of(p)
    disp = rng.normal(0, 3, (p['atoms'], p['steps'], 3))
    fw = _sel(rng, p['atoms'], p['nfw'], p['kind'])
    before = disp.copy()
    got = Parser.correct_drift(fw, disp)
    mean = np.zeros((p['steps'], 3))
    for i in fw:
        mean = mean + before[i]
    if len(fw):
        mean = mean / len(fw)
    close(got, before - mean[None], 'drift corrected displacements', atol=1e-9)
    if len(fw):
        close(np.mean(np.asarray(got)[list(fw)], axis=0), np.zeros((p['steps'], 3)), 'framework mean', atol=1e-9)
        shift = rng.normal(0, 50, (1, p['steps'], 3))
        close(Parser.correct_drift(fw, before + shift), np.asarray(got), 'after a rigid translation', rtol=1e-6, atol=1e-8)


def gen_drift_parser(ctx):
    for s in ctx.seeds(ctx.n(40, 600)):
        r = np.random.default_rng(s)
        n = int(r.integers(2, 10))
        yield dict(seed=s, atoms=n, steps=int(r.integers(4, 30)), nfw=int(r.integers(0, n)), sampling=['multi-origin', 'single-origin'][int(r.integers(0, 2))])


@register('C02', gen_drift_parser)
def parser_uses_corrected(p):
    from kinisi.parser import Parser
    rng = rng_of(p)
    disp = np.cumsum(rng.normal(0, 1, (p['atoms'], p['steps'], 3)), axis=1)
    perm = [int(i) for i in rng.permutation(p['atoms'])]
    fw, mob = perm[:p['nfw']], perm[p['nfw']:]
    if rng.integers(0, 4) == 0:                # overlapping selections
        mob = perm
    mean = disp[fw].mean(axis=0)[None] if fw else 0.0
    want = disp - mean
    kw = dict(indices=mob, drift_indices=fw, time_step=0.5, step_skip=2, sampling=p['sampling'], progress=False)
    u = Parser(disp=disp.copy(), **kw)
    close(u.dc, want, 'analysed displacements', atol=1e-9)
    for k, m in enumerate(u.time_intervals[:len(u.disp_3d)]):
        close(u.disp_3d[k][:, 0], want[mob][:, m - 1], f'displacements over interval {m}', atol=1e-8)
    if fw:
        v = Parser(disp=disp + np.cumsum(rng.normal(0, 5, (1, p['steps'], 3)), axis=1), **kw)
        require(len(v.disp_3d) == len(u.disp_3d), 'number of intervals changed by a rigid translation')
        for a, b in zip(u.disp_3d, v.disp_3d):
            close(b, a, 'windows after a rigid translation', rtol=1e-6, atol=1e-7)


# ----------------------------------------------------------------------------------------------------------------
# C03
# ----------------------------------------------------------------------------------------------------------------
def whole(x):
    """Whole steps in a ratio; a ratio within rounding error of an integer counts as that integer."""
    r = round(x)
    if abs(x - r) < 1e-6:
        return int(r)
    return int(math.floor(x))


def gen_grid(ctx):
    ts = [1.0, 0.001, 0.005, 0.1, 0.02, 2.5, 1e-3 * 3]
    for spacing in ('linear', 'logarithmic'):
        for ts_ in ts:
            for skip in (1, 2, 50):
                for N in (2, 5, 20, 101):
                    yield dict(time_step=ts_, step_skip=skip, N=N, kmin=None, kmax=None, n_steps=100, spacing=spacing)
                    for n_steps in (1, 2, 3, 7):
                        yield dict(time_step=ts_, step_skip=skip, N=N, kmin=None, kmax=None, n_steps=n_steps, spacing=spacing)
    for s in ctx.seeds(ctx.n(1500, 30000)):
        r = np.random.default_rng(s)
        N = int(r.integers(2, 260))
        kmin = None if r.integers(0, 3) == 0 else (int(r.integers(0, N)) + float(r.choice([0, 0, 0, 0.25, 0.5, 0.9])))
        if kmin is not None and kmin >= N:
            kmin = N - 1
        kmax = None if r.integers(0, 3) == 0 else int(r.integers(max(1, int(kmin or 1)), N + 1)) + float(r.choice([0, 0, 0, 0.3, 0.5, 0.7, 0.95]))
        if kmax is not None:
            kmax = min(kmax, N)
        yield dict(time_step=float(r.choice(ts + [round(float(r.uniform(0.001, 2)), 4)])), step_skip=int(r.choice([1, 1, 2, 3, 7, 10, 50, 100, 1000])), N=N,
                   kmin=kmin, kmax=kmax, n_steps=int(r.choice([1, 2, 3, 4, 5, 10, 50, 100, 100, 200, N, N + 1])), spacing=['linear', 'logarithmic'][r.integers(0, 2)])
    for v in ctx.size_ints(2, 21000):
        yield dict(time_step=0.1, step_skip=1, N=v, kmin=None, kmax=None, n_steps=100, spacing='linear')
        yield dict(time_step=0.1, step_skip=1, N=v + 5, kmin=float(min(v, v + 4)), kmax=None, n_steps=100, spacing='linear')
        yield dict(time_step=0.1, step_skip=v, N=30, kmin=3.0, kmax=20.0, n_steps=6, spacing='logarithmic')
        yield dict(time_step=0.1, step_skip=1, N=3000, kmin=1.0, kmax=None, n_steps=v, spacing='logarithmic')


@register('C03', gen_grid)
def interval_grid(p):
    from kinisi.parser import Parser
    N, dt = p['N'], p['step_skip'] * p['time_step']
    disp = np.zeros((2, N, 3))
    kw = {}
    if p['kmin'] is not None:
        kw['min_dt'] = p['kmin'] * dt
    if p['kmax'] is not None:
        kw['max_dt'] = p['kmax'] * dt
    lo_raw = 1 if p['kmin'] is None else whole(kw['min_dt'] / dt)
    hi = N if p['kmax'] is None else whole(kw['max_dt'] / dt)
    args = dict(indices=[0, 1], drift_indices=[], time_step=p['time_step'], step_skip=p['step_skip'], n_steps=p['n_steps'],
                spacing=p['spacing'], progress=False, memory_limit=1e9)
    if lo_raw >= N:
        raises(ValueError, lambda: Parser(disp=disp, **args, **kw), 'minimum not shorter than the trajectory')
        return
    lo = max(1, lo_raw)
    if hi < lo:
        return
    u = Parser(disp=disp, **args, **kw)
    ti = np.asarray(u.time_intervals)
    require(ti.ndim == 1 and ti.dtype.kind in 'iu', f'intervals are not a vector of whole steps: {ti!r}')
    require(len(ti) >= 1, 'no interval')
    require(np.all(np.diff(ti) > 0), f'intervals not strictly increasing: {ti}')
    require(len(ti) <= p['n_steps'], f'{len(ti)} intervals, {p["n_steps"]} requested')
    require(ti[0] == lo, f'first interval {ti[0]}, expected {lo}')
    if p['n_steps'] >= 2:
        require(ti[-1] == hi, f'last interval {ti[-1]}, expected {hi}')
    n = min(p['n_steps'], N - lo_raw + 1)
    # every ideal value, rounded down, must be there and nothing else
    for eps_set in (None,):
        allowed, needed = set(), []
        for k in range(n):
            fr = 0.0 if n == 1 else k / (n - 1)
            ideal = lo + (hi - lo) * fr if p['spacing'] == 'linear' else lo * (hi / lo)**fr
            tol = 1e-6
            opts = {int(math.floor(ideal)), int(math.floor(ideal + tol)), int(math.floor(ideal - tol))}
            if k == 0:
                opts = {lo}
            elif k == n - 1 and n > 1:
                opts = {hi}
            allowed |= opts
            needed.append(opts)
        got = set(int(x) for x in ti)
        require(got <= allowed, f'intervals {sorted(got - allowed)} are not on the requested grid')
        for opts in needed:
            require(got & opts, f'grid value(s) {sorted(opts)} missing from the intervals')
    require(len(u.delta_t) == len(ti), 'one time per interval')
    close(u.delta_t, ti * dt, 'reported times', rtol=1e-12)


def gen_grid_bad(ctx):
    for sp in ('lin', '', 'log', 'Linear', 'geometric', 'linear '):
        yield dict(spacing=sp, N=10)
    for N in (2, 3, 10, 47):
        for extra in (0, 1, 5):
            for ts, sk in ((0.1, 1), (0.005, 1), (1.0, 3), (0.001, 100)):
                yield dict(N=N, extra=extra, time_step=ts, step_skip=sk)


@register('C03', gen_grid_bad)
def interval_grid_errors(p):
    from kinisi.parser import Parser
    disp = np.zeros((2, p['N'], 3))
    if 'spacing' in p:
        raises(ValueError, lambda: Parser(disp=disp, indices=[0], drift_indices=[], time_step=1., step_skip=1, spacing=p['spacing'], progress=False),
               f'unknown spacing {p["spacing"]!r}')
    else:
        dt = p['time_step'] * p['step_skip']
        raises(ValueError, lambda: Parser(disp=disp, indices=[0], drift_indices=[], time_step=p['time_step'], step_skip=p['step_skip'],
                                          min_dt=(p['N'] + p['extra']) * dt, progress=False), 'minimum not shorter than the trajectory')


# ----------------------------------------------------------------------------------------------------------------
# C04, C05
# ----------------------------------------------------------------------------------------------------------------
def gen_windows(ctx):
    for sampling in ('multi-origin', 'single-origin'):
        for n_sel in (1, 2, 5):
            for N in (2, 3, 8, 25):
                for extra in (0, 2):
                    yield dict(seed=ctx.seeds(1)[0], atoms=n_sel + extra, n_sel=n_sel, N=N, n_steps=100, kmin=None, kmax=None, spacing='linear', sampling=sampling)
    for s in ctx.seeds(ctx.n(400, 8000)):
        r = np.random.default_rng(s)
        n = int(r.integers(1, 9))
        N = int(r.integers(2, 90))
        kmin = None if r.integers(0, 2) else int(r.integers(0, N))
        kmax = None if r.integers(0, 2) else int(r.integers(max(1, kmin or 1), N + 1))
        yield dict(seed=s, atoms=n, n_sel=int(r.integers(1, n + 1)), N=N, n_steps=int(r.choice([2, 3, 5, 10, 30, 100])), kmin=kmin, kmax=kmax,
                   spacing=['linear', 'logarithmic'][r.integers(0, 2)], sampling=['multi-origin', 'multi-origin', 'single-origin'][r.integers(0, 3)])
    for n, N in ((40, 400), (150, 60), (3, 2500)):
        yield dict(seed=n, atoms=n + 3, n_sel=n, N=N, n_steps=6, kmin=None, kmax=None, spacing='linear', sampling='multi-origin')
    for v in ctx.size_ints(2, 21000):
        yield dict(seed=v, atoms=2, n_sel=2, N=v, n_steps=8, kmin=None, kmax=None, spacing='linear', sampling='multi-origin')
        yield dict(seed=v, atoms=v, n_sel=v, N=5, n_steps=8, kmin=None, kmax=None, spacing='linear', sampling='multi-origin')
        yield dict(seed=v, atoms=2, n_sel=2, N=v, n_steps=8, kmin=None, kmax=None, spacing='linear', sampling='single-origin')
        yield dict(seed=v, atoms=2, n_sel=2, N=2 * v + 3, n_steps=3, kmin=v, kmax=2 * v, spacing='linear', sampling='multi-origin')


@register('C04', gen_windows)
def windows(p):
    from kinisi.parser import Parser
    rng = rng_of(p)
    N = p['N']
    disp = np.cumsum(rng.normal(0, 1, (p['atoms'], N, 3)), axis=1)
    sel = [int(i) for i in rng.permutation(p['atoms'])[:p['n_sel']]]
    if p['seed'] % 7 == 0:
        sel = [int(i) for i in rng.integers(0, p['atoms'], p['n_sel'])]          # an atom given twice counts twice
    if p['seed'] % 3 == 0:
        sel = np.array(sel)
    kw = {}
    ts, sk = 0.25, 3
    if p['kmin'] is not None:
        kw['min_dt'] = p['kmin'] * ts * sk
    if p['kmax'] is not None:
        kw['max_dt'] = p['kmax'] * ts * sk
    u = Parser(disp=disp.copy(), indices=sel, drift_indices=[], time_step=ts, step_skip=sk, n_steps=p['n_steps'], spacing=p['spacing'],
               sampling=p['sampling'], progress=bool(p['seed'] % 2), **kw)
    check_windows(u, disp, sel, p['sampling'], ts * sk)


def check_windows(u, disp, sel, sampling, unit):
    N = disp.shape[1]
    n_sel = len(sel)
    ti = [int(t) for t in np.asarray(u.time_intervals)]
    close(u.delta_t, np.array(ti) * unit, 'times', rtol=1e-12)
    kept = []
    for m in ti:
        nw = N - m + 1 if sampling == 'multi-origin' else 1
        independent = n_sel * -(-nw // m)
        if independent > 1:
            kept.append(m)
    require(kept == ti[:len(kept)], 'only the longest intervals may be dropped')
    require(len(u.disp_3d) == len(kept), f'{len(u.disp_3d)} displacement arrays for {len(kept)} usable intervals')
    require(len(u._n_o) == len(kept), f'{len(u._n_o)} observation counts for {len(kept)} usable intervals')
    for k, m in enumerate(kept):
        if sampling == 'multi-origin':
            want = np.zeros((n_sel, N - m + 1, 3))
            for a, i in enumerate(sel):
                want[a, 0] = disp[i, m - 1]
                want[a, 1:] = disp[i, m:N] - disp[i, :N - m]
        else:
            want = np.stack([disp[i, m - 1:m] for i in sel])
        close(u.disp_3d[k], want, f'windows over {m} steps', atol=1e-9)
        close(u._n_o[k], n_sel * ti[-1] / m, f'observations over {m} steps', rtol=1e-12)


def gen_bad_sampling(ctx):
    for s in ('multi', 'single', '', 'Multi-origin', 'multi_origin', 'origin', 'single-origin '):
        yield dict(sampling=s)


@register('C04', gen_bad_sampling)
def unknown_sampling(p):
    from kinisi.parser import Parser
    raises(ValueError, lambda: Parser(disp=np.random.default_rng(0).normal(size=(3, 10, 3)), indices=[0, 1], drift_indices=[2], time_step=1., step_skip=1,
                                      sampling=p['sampling'], progress=False), f'sampling {p["sampling"]!r}')


def gen_mem(ctx):
    for s in ctx.seeds(ctx.n(250, 5000)):
        r = np.random.default_rng(s)
        n = int(r.integers(1, 12))
        N = int(r.integers(2, 120))
        yield dict(seed=s, atoms=n, n_sel=int(r.integers(1, n + 1)), N=N, n_steps=int(r.choice([1, 2, 3, 10, 100])), dtype=str(r.choice(['float64', 'float32'])),
                   sampling=['multi-origin', 'single-origin'][r.integers(0, 2)], spacing=['linear', 'logarithmic'][r.integers(0, 2)])
    for v in ctx.size_ints(2, 21000):
        yield dict(seed=v, atoms=v, n_sel=v, N=4, n_steps=100, dtype='float64', sampling='multi-origin', spacing='linear')
        yield dict(seed=v, atoms=2, n_sel=1, N=v, n_steps=100, dtype='float64', sampling='multi-origin', spacing='linear')
    yield dict(seed=1, atoms=4000, n_sel=3500, N=60, n_steps=5, dtype='float64', sampling='multi-origin', spacing='linear')


@register('C05', gen_mem)
def memory_limit(p):
    from kinisi.parser import Parser
    rng = rng_of(p)
    disp = np.cumsum(rng.normal(0, 1, (p['atoms'], p['N'], 3)), axis=1).astype(p['dtype'])
    sel = [int(i) for i in rng.permutation(p['atoms'])[:p['n_sel']]]
    if p['seed'] % 5 == 0:
        sel = [int(i) for i in rng.integers(0, p['atoms'], p['n_sel'])]

    def mk(limit, progress=False):
        kw = {} if limit is None else dict(memory_limit=limit)
        return Parser(disp=disp.copy(), indices=sel, drift_indices=[], time_step=1., step_skip=1, n_steps=p['n_steps'], spacing=p['spacing'],
                      sampling=p['sampling'], progress=progress, **kw)

    base = mk(1e12)
    need = sum(p['n_sel'] * (p['N'] - int(m) + 1) * 3 for m in base.time_intervals) * disp.itemsize / 1e9
    for f in (0.5, 0.9, 0.999999, 1e-6, 0.0):
        raises(MemoryError, lambda: mk(need * f), f'limit {f} x the {need} GB needed')
    for f in (1.000001, 1.1, 2.0, 100.0, None):
        try:
            u = mk(None if f is None else need * f, progress=(f == 2.0))
        except MemoryError as e:
            if f is None and need > 8:
                continue
            raise Fail(f'MemoryError although {need} GB fit into the limit ({f} x): {e}')
        require(len(u.disp_3d) == len(base.disp_3d), 'limit changed the number of intervals')
        same(u.delta_t, base.delta_t, 'times')
        same(u._n_o, base._n_o, 'observation counts')
        for a, b in zip(u.disp_3d, base.disp_3d):
            same(a, b, 'displacements')


def gen_mem_backend(ctx):
    for b in ('ase', 'pymatgen', 'mda'):
        for s in ctx.seeds(3):
            yield dict(seed=s, backend=b)


@register('C05', gen_mem_backend)
def memory_limit_backends(p):
    """The limit reaches the guard through each reader."""
    tr = Traj(rng_of(p), frames=12, atoms=5, symbols=['Li', 'Li', 'O', 'O', 'Li'])
    base = tr.parser(p['backend'], 'Li', memory_limit=1e6)
    need = sum(3 * (12 - int(m) + 1) * 3 for m in base.time_intervals) * np.asarray(base.dc).itemsize / 1e9
    raises(MemoryError, lambda: tr.parser(p['backend'], 'Li', memory_limit=need * 0.999), 'limit just below the need')
    tr.parser(p['backend'], 'Li', memory_limit=need * 1.001)


# ----------------------------------------------------------------------------------------------------------------
# backends
# ----------------------------------------------------------------------------------------------------------------
class Traj:
    """One synthetic trajectory that can be shown to each of the backends."""

    def __init__(self, rng, frames=8, atoms=5, symbols=None, kind='ortho', step=0.2, frac=None, cells=None):
        self.rng = rng
        self.symbols = symbols or [str(rng.choice(['Li', 'O', 'Na'])) for _ in range(atoms)]
        self.cells = cell(kind, rng, frames) if cells is None else cells
        self.frac = frac_walk(rng, frames, len(self.symbols), 'wrapped', step) if frac is None else frac
        self.frames = frames

    def ase(self):
        from ase import Atoms
        return [Atoms(self.symbols, scaled_positions=self.frac[t], cell=self.cells[t], pbc=True) for t in range(self.frames)]

    def pymatgen(self):
        from pymatgen.core import Structure, Lattice
        return [Structure(Lattice(self.cells[t]), self.symbols, self.frac[t]) for t in range(self.frames)]

    def mda(self):
        import MDAnalysis as mda
        from MDAnalysis.lib.mdamath import triclinic_box, triclinic_vectors
        n = len(self.symbols)
        u = mda.Universe.empty(n, trajectory=True)
        u.add_TopologyAttr('type', self.symbols)
        u.add_TopologyAttr('name', self.symbols[1:] + self.symbols[:1])
        dims = np.array([triclinic_box(*self.cells[t]) for t in range(self.frames)], dtype=np.float32)
        mats = np.array([triclinic_vectors(d) for d in dims])
        pos = np.einsum('tij,tjk->tik', self.frac, mats).astype(np.float32)
        from MDAnalysis.coordinates.memory import MemoryReader
        u.load_new(pos, format=MemoryReader, order='fac', dimensions=dims, dt=1.0)
        self.mda_mats = mats
        return u

    def obj(self, backend):
        return getattr(self, backend)()

    def parser(self, backend, specie, time_step=1.0, step_skip=1, progress=False, **kw):
        return parser_class(backend)(self.obj(backend), specie, time_step=time_step, step_skip=step_skip, progress=progress, **kw)

    def volume(self, backend):
        if backend == 'mda':
            return abs(np.linalg.det(self.mda_mats[0].astype(float)))
        return abs(np.linalg.det(self.cells[0]))


def parser_class(backend):
    import kinisi.parser as P
    return {'ase': P.ASEParser, 'pymatgen': P.PymatgenParser, 'mda': P.MDAnalysisParser}[backend]


BACKENDS = ('ase', 'pymatgen', 'mda')


# ----------------------------------------------------------------------------------------------------------------
# C06
# ----------------------------------------------------------------------------------------------------------------
def gen_select(ctx):
    for b in BACKENDS:
        for s in ctx.seeds(ctx.n(40, 600)):
            r = np.random.default_rng(s)
            yield dict(seed=s, backend=b, atoms=int(r.integers(1, 14)), how=['str', 'list1', 'list2', 'listmissing', 'all'][r.integers(0, 5)],
                       fw=['none', 'none', 'empty', 'list', 'tuple'][r.integers(0, 5)])
    for v in ctx.size_ints(2, 2100):
        yield dict(seed=v, backend='ase', atoms=v, how='str', fw='none')
        yield dict(seed=v, backend='pymatgen', atoms=v, how='str', fw='none')
        yield dict(seed=v, backend='mda', atoms=v, how='str', fw='none')


def gen_charged(ctx):
    for s in ctx.seeds(ctx.n(12, 100)):
        yield dict(seed=s, atoms=3 + s % 9)


@register('C06', gen_charged)
def select_by_species_and_charge(p):
    """Sites that differ in their oxidation state only are different species."""
    rng = rng_of(p)
    pool = ['Fe2+', 'Fe3+', 'Fe', 'Li+', 'Li', 'O2-']
    symbols = ['Fe2+', 'Fe3+', 'Fe'] + [str(rng.choice(pool)) for _ in range(p['atoms'])]
    symbols = [symbols[i] for i in rng.permutation(len(symbols))]
    struct = Traj(rng, frames=1, symbols=symbols).pymatgen()[0]
    names = [str(site.specie) for site in struct]
    for one in sorted(set(names)):
        got = parser_class('pymatgen').get_indices(struct, one, None)
        require(_ints(got[0]) == [i for i, t in enumerate(names) if t == one], f'selected {_ints(got[0])} for {one!r} in {names}')
        require(_ints(got[1]) == [i for i, t in enumerate(names) if t != one], f'framework {_ints(got[1])} for {one!r} in {names}')


def _ints(x):
    return [int(i) for i in np.asarray(x, dtype=float).ravel()] if len(np.asarray(x).ravel()) else []


@register('C06', gen_select)
def select_by_species(p):
    rng = rng_of(p)
    pool = ['Li', 'O', 'Na', 'L' + 'a', 'Si', 'S', 'C', 'Cl', 'Ca']
    pool = [str(x) for x in rng.permutation(pool)[:int(rng.integers(2, 6))]]
    symbols = [str(rng.choice(pool)) for _ in range(p['atoms'])]
    present = sorted(set(symbols))
    tr = Traj(rng, frames=4, symbols=symbols, kind='ortho')
    struct = {'ase': lambda: tr.ase()[0], 'pymatgen': lambda: tr.pymatgen()[0], 'mda': lambda: tr.mda().atoms}[p['backend']]()
    one = present[int(rng.integers(0, len(present)))]
    specie = {'str': one, 'list1': [one], 'list2': present[:2], 'listmissing': [one, 'Xe'], 'all': present}[p['how']]
    wanted = specie if isinstance(specie, list) else [specie]
    idx = [i for i, s in enumerate(symbols) if s in wanted]
    rest = [i for i, s in enumerate(symbols) if s not in wanted]
    fw = {'none': None, 'empty': [], 'list': _ints(rng.permutation(p['atoms'])[:2]), 'tuple': tuple(_ints(rng.permutation(p['atoms'])[:1]))}[p['fw']]
    want_fw = rest if fw is None else list(fw)
    cls = parser_class(p['backend'])
    got = cls.get_indices(struct, specie, fw)
    require(_ints(got[0]) == idx, f'selected {_ints(got[0])}, expected {idx} for {specie} in {symbols}')
    require(_ints(got[1]) == want_fw, f'framework {_ints(got[1])}, expected {want_fw}')
    raises(ValueError, lambda: cls.get_indices(struct, 'Xe', fw), 'species that is absent')
    raises(ValueError, lambda: cls.get_indices(struct, ['Xe', 'Kr'], fw), 'species that are absent')
    # substring traps: 'C' must not select 'Cl' or 'Ca'
    for s in present:
        g = cls.get_indices(struct, s, None)
        require(_ints(g[0]) == [i for i, t in enumerate(symbols) if t == s], f'selection of {s!r} in {symbols}')
    # through the constructor
    u = tr.parser(p['backend'], specie, framework_indices=fw)
    require(_ints(u.indices) == idx and _ints(u.drift_indices) == want_fw, 'selection handed on by the constructor')
    for k in range(len(u.disp_3d)):
        require(u.disp_3d[k].shape[0] == len(idx), 'number of analysed atoms')


def gen_select_idx(ctx):
    for b in BACKENDS:
        for s in ctx.seeds(ctx.n(40, 500)):
            r = np.random.default_rng(s)
            n = int(r.integers(2, 12))
            yield dict(seed=s, backend=b, atoms=n, nsel=int(r.integers(1, n + 1)), fw=['none', 'none', 'empty', 'list', 'tuple'][r.integers(0, 5)], tup=bool(r.integers(0, 2)))
        yield dict(seed=1, backend=b, atoms=400, nsel=300, fw='none', tup=False)
        for v in ctx.size_ints(2, 1100):
            yield dict(seed=v, backend=b, atoms=v + 2, nsel=v, fw='none', tup=False)
            yield dict(seed=v + 1, backend=b, atoms=2 * v, nsel=1, fw='none', tup=False)


@register('C06', gen_select_idx)
def select_by_index(p):
    rng = rng_of(p)
    tr = Traj(rng, frames=5, atoms=p['atoms'])
    sel = _ints(rng.permutation(p['atoms'])[:p['nsel']])
    if p['tup']:
        sel = tuple(sel)
    fw = {'none': None, 'empty': [], 'list': [i + 1 for i in _ints(rng.permutation(p['atoms'])[:2])],
          'tuple': tuple(i + 1 for i in _ints(rng.permutation(p['atoms'])[:1]))}[p['fw']]
    want_fw = [i for i in range(p['atoms']) if i not in sel] if fw is None else [i - 1 for i in fw]
    u = tr.parser(p['backend'], None, specie_indices=sel, framework_indices=fw)
    require(_ints(u.indices) == list(sel), f'selected {_ints(u.indices)}, expected {sel}')
    require(_ints(u.drift_indices) == want_fw, f'framework {_ints(u.drift_indices)}, expected {want_fw}')
    # the analysed displacements are those of these atoms, in this order
    d = np.asarray(u.dc)
    for k, m in enumerate(list(u.time_intervals)[:len(u.disp_3d)]):
        close(u.disp_3d[k][:, 0], d[list(sel), m - 1], 'displacements of the selected atoms', atol=1e-6)
    raises(TypeError, lambda: tr.parser(p['backend'], None), 'no selection')
    raises(TypeError, lambda: tr.parser(p['backend'], None, specie_indices=3), 'selection that is no list')
    if p['backend'] == 'mda':
        for k in (2, 3):
            for f in (fw, None, []):
                raises(ValueError, lambda: tr.parser('mda', None, specie_indices=list(sel), sub_sample_atoms=k, framework_indices=f), 'atom sub-sampling with indices')


# ----------------------------------------------------------------------------------------------------------------
# C07
# ----------------------------------------------------------------------------------------------------------------
def gen_mol(ctx):
    for nm in (1, 2, 3):
        for size in (1, 2, 3, 5):
            for masses in ('none', 'equal', 'random'):
                for fw in ('none', 'empty', 'list'):
                    yield dict(seed=ctx.seeds(1)[0], nmol=nm, size=size, extra=2, frames=5, masses=masses, fw=fw, extent=0.2)
    for s in ctx.seeds(ctx.n(200, 4000)):
        r = np.random.default_rng(s)
        yield dict(seed=s, nmol=int(r.integers(1, 6)), size=int(r.integers(1, 7)), extra=int(r.integers(0, 5)), frames=int(r.integers(4, 11)),
                   masses=['none', 'equal', 'random'][r.integers(0, 3)], fw=['none', 'empty', 'list', 'tuple'][r.integers(0, 4)], extent=float(r.choice([0.05, 0.2, 0.4, 0.48])))
    for v in ctx.size_ints(2, 1100):
        yield dict(seed=v, nmol=v, size=2, extra=2, frames=4, masses='random', fw='none', extent=0.2)
        yield dict(seed=v, nmol=1, size=v, extra=2, frames=4, masses='random', fw='none', extent=0.2)
        yield dict(seed=v, nmol=1, size=2, extra=2, frames=v + 2, masses='random', fw='none', extent=0.2)


def mol_data(p, walk=False):
    rng = rng_of(p)
    n = p['nmol'] * p['size'] + p['extra']
    T = p['frames']
    perm = rng.permutation(n)
    mols = [[int(i) for i in perm[k * p['size']:(k + 1) * p['size']]] for k in range(p['nmol'])]
    masses = {'none': None, 'equal': [2.5] * p['size'], 'random': [float(x) for x in rng.uniform(1, 40, p['size'])]}[p['masses']]
    un = rng.uniform(0, 1, (T, n, 3))
    if walk:        # steps that can be followed: less than half a cell
        un = rng.uniform(0, 1, (1, n, 3)) + np.cumsum(rng.uniform(-0.3, 0.3, (T, n, 3)), axis=0)
    com = np.zeros((T, p['nmol'], 3))
    w = np.ones(p['size']) if masses is None else np.array(masses)
    for k, m in enumerate(mols):
        centre = rng.uniform(-1, 2, (T, 3))
        off = rng.uniform(-0.5, 0.5, (T, p['size'], 3)) * p['extent']
        if walk:
            centre = centre[:1] + np.cumsum(rng.uniform(-0.3, 0.3, (T, 3)), axis=0)
            off = (off[:1] + 0.15 * (off - off[:1]) / max(p['extent'], 0.3)) * 0.8
        for a, i in enumerate(m):
            un[:, i] = centre + off[:, a]
        for a in range(p['size']):
            com[:, k] += w[a] * (centre + off[:, a])
        com[:, k] /= w.sum()
    wrapped = un % 1.0
    free = [i for i in range(n) if not any(i in m for m in mols)]
    fw = {'none': None, 'empty': [], 'list': [i + 1 for i in _ints(rng.permutation(n)[:3])], 'tuple': tuple(i + 1 for i in _ints(rng.permutation(n)[:2]))}[p['fw']]
    drift = free if fw is None else [i - 1 for i in fw]
    return rng, mols, masses, wrapped, com, fw, drift, n


def circ(a, b):
    d = a - b
    return np.abs(d - np.round(d))


@register('C07', gen_mol)
def molecule_centres(p):
    """Every frame: the displacements the parser derives are those of the true centres of mass and of the framework atoms."""
    rng, mols, masses, wrapped, com, fw, drift, n = mol_data(p, walk=True)
    T, nm = p['frames'], p['nmol']
    idx = [[i + 1 for i in m] for m in mols]
    if p['seed'] % 2:
        idx = tuple(tuple(m) for m in idx)
    tr = Traj(rng, frames=T, symbols=['Li'] * n, kind='ortho', frac=wrapped)
    u = tr.parser('ase', None, specie_indices=idx, masses=masses, framework_indices=fw)
    require(_ints(u.indices) == list(range(nm)), f'molecule positions {u.indices}')
    require(_ints(u.drift_indices) == list(range(nm, nm + len(drift))), f'framework positions {u.drift_indices}, expected {nm}..{nm + len(drift) - 1}')
    cc = np.asarray(u.coords_check)
    require(cc.shape == (nm + len(drift), 1, 3), f'new coordinates have shape {cc.shape}, expected {(nm + len(drift), 1, 3)}')
    c = cc[:nm, 0]
    require(np.all(c >= 0) and np.all(c < 1), 'centre outside [0, 1)')
    bad = circ(c, com[0]) > 1e-7
    require(not bad.any(), f'centre of mass wrong at (molecule, axis) {[tuple(map(int, x)) for x in np.argwhere(bad)[:3]]}: got {c[bad][:3]}, expected {com[0][bad][:3]} mod 1')
    close(cc[nm:, 0], wrapped[0, drift], 'framework coordinates', atol=1e-9)
    L = tr.cells[0]
    path = (com - com[0]) @ L
    fpath = np.zeros((T, len(drift), 3))
    if drift:
        st = np.diff(wrapped[:, drift], axis=0)
        fpath[1:] = np.cumsum(st - np.floor(st + 0.5), axis=0) @ L
    move = fpath.mean(axis=1, keepdims=True) if drift else 0.0
    want = np.concatenate([path, fpath], axis=1) - move
    close(np.swapaxes(np.asarray(u.dc), 0, 1), want, 'displacements of centres and framework', atol=1e-6)
    # whole-cell moves of single atoms
    moved = wrapped + rng.integers(-2, 3, wrapped.shape)
    w = Traj(rng, frames=T, symbols=['Li'] * n, kind='ortho', frac=moved, cells=tr.cells).parser('ase', None, specie_indices=idx, masses=masses, framework_indices=fw)
    close(w.dc, u.dc, 'displacements after moving atoms by whole cells', atol=1e-6)


def gen_mol_bad(ctx):
    for s in ctx.seeds(ctx.n(12, 60)):
        yield dict(seed=s)


@register('C07', gen_mol_bad)
def molecule_errors(p):
    rng = rng_of(p)
    size = int(rng.integers(2, 5))
    b = BACKENDS[p['seed'] % 3]
    tr = Traj(rng, frames=5, symbols=['Li'] * 12, kind='ortho')
    good = [list(range(1, size + 1)), list(range(size + 1, 2 * size + 1))]
    raises(ValueError, lambda: tr.parser(b, None, specie_indices=[good[0], good[1][:-1]]), 'unequal molecules')
    for bad in (size - 1, size + 1, 2 * size):
        raises(ValueError, lambda: tr.parser(b, None, specie_indices=good, masses=[1.0] * bad), f'{bad} masses for molecules of {size}')


def gen_mol_parser(ctx):
    for b in BACKENDS:
        for s in ctx.seeds(ctx.n(15, 150)):
            r = np.random.default_rng(s)
            yield dict(seed=s, backend=b, nmol=int(r.integers(1, 4)), size=int(r.integers(1, 4)), extra=int(r.integers(0, 4)), frames=6,
                       masses=['none', 'equal', 'random'][r.integers(0, 3)], fw=['none', 'empty', 'list', 'tuple'][r.integers(0, 4)], extent=0.3)


@register('C07', gen_mol_parser)
def molecules_through_parser(p):
    rng, mols, masses, wrapped, com, fw, drift, n = mol_data(p)
    if p['backend'] == 'pymatgen':
        wrapped = wrapped + rng.integers(-2, 3, wrapped.shape)
    tr = Traj(rng, frames=p['frames'], symbols=['Li'] * n, kind='ortho', frac=wrapped)
    u = tr.parser(p['backend'], None, specie_indices=[[i + 1 for i in m] for m in mols], masses=masses, framework_indices=fw)
    nm = p['nmol']
    require(_ints(u.indices) == list(range(nm)) and _ints(u.drift_indices) == list(range(nm, nm + len(drift))), 'selections of the constructor')
    cc = np.asarray(u.coords_check).reshape(-1, 3)
    require(cc.shape == (nm + len(drift), 3), 'coordinates handed on')
    require(np.all(circ(cc[:nm], com[0]) < 2e-5), 'centres of the first frame')
    require(np.all(cc[:nm] >= 0) and np.all(cc[:nm] < 1), 'centre outside [0, 1)')
    close(cc[nm:], wrapped[0, drift].reshape(-1, 3), 'framework coordinates', rtol=1e-5, atol=1e-5)


# ----------------------------------------------------------------------------------------------------------------
# C08
# ----------------------------------------------------------------------------------------------------------------
def gen_read(ctx):
    for b in BACKENDS:
        for sub in (1, 2, 3):
            for kind in ('ortho', 'npt_ortho', 'tri', 'npt_tri'):
                yield dict(seed=ctx.seeds(1)[0], backend=b, sub=sub, kind=kind, frames=9, atoms=4, time_step=0.5, step_skip=2, suba=1)
        for s in ctx.seeds(ctx.n(20, 250)):
            r = np.random.default_rng(s)
            yield dict(seed=s, backend=b, sub=int(r.integers(1, 6)), kind=['ortho', 'npt_ortho', 'tri', 'npt_tri'][r.integers(0, 4)], frames=int(r.integers(12, 40)),
                       atoms=int(r.integers(1, 8)), time_step=float(r.choice([0.001, 0.1, 1.0, 2.0])), step_skip=int(r.choice([1, 2, 50])),
                       suba=int(r.integers(1, 4)) if b == 'mda' else 1)
        for v in ctx.size_ints(2, 1100):
            yield dict(seed=v, backend=b, sub=1, kind='npt_ortho', frames=v, atoms=2, time_step=1.0, step_skip=1, suba=1)
            yield dict(seed=v, backend=b, sub=1, kind='ortho', frames=4, atoms=v, time_step=1.0, step_skip=1, suba=1)
            yield dict(seed=v, backend=b, sub=2, kind='ortho', frames=8, atoms=2, time_step=0.5, step_skip=v, suba=1)


@register('C08', gen_read)
def frames_read(p):
    rng = rng_of(p)
    b = p['backend']
    tr = Traj(rng, frames=p['frames'], symbols=['Li'] * p['atoms'], kind=p['kind'])
    cls = parser_class(b)
    obj = tr.obj(b)
    if b == 'mda':
        out = cls.get_structure_coords_latt(obj, p['suba'], p['sub'], False)
        structure, coords, latt, vol = out
        cells = tr.mda_mats.astype(float)
        tol = 2e-5
    else:
        structure, coords, latt = cls.get_structure_coords_latt(obj, p['sub'], bool(p['seed'] % 2))
        cells = tr.cells
        vol = structure.get_volume() if b == 'ase' else structure.volume
        tol = 1e-9
    ids = list(range(0, p['frames'], p['sub']))
    ids = [ids[0]] + ids
    require(len(coords) == len(ids) and len(latt) == len(ids), f'{len(coords)} frames read, expected {len(ids)} (first one twice)')
    for k, t in enumerate(ids):
        c = np.asarray(coords[k])
        want = tr.frac[t][::p['suba']]
        require(c.shape == (len(want), 1, 3), f'frame {k} has coordinates of shape {c.shape}')
        require(np.all(circ(c[:, 0], want) < max(tol, 1e-9)), f'coordinates of frame {k} are not those of input frame {t}')
        close(np.asarray(latt[k]), cells[t], f'cell of frame {k} (input frame {t})', rtol=1e-5, atol=1e-4 if b == 'mda' else 1e-9)
    close(vol, tr.volume(b), 'volume', rtol=1e-4 if b == 'mda' else 1e-9)
    if len(ids) < 3:
        return
    # through the constructor
    kw = dict(sub_sample_traj=p['sub'], framework_indices=[], n_steps=7)
    if b == 'mda':
        kw['sub_sample_atoms'] = p['suba']
    u = tr.parser(b, 'Li', time_step=p['time_step'], step_skip=p['step_skip'], **kw)
    scale = 1e-3 if b == 'pymatgen' else 1.0
    close(u.delta_t, np.asarray(u.time_intervals) * p['time_step'] * p['step_skip'] * p['sub'] * scale, 'times', rtol=1e-9)
    require(int(u.time_intervals[-1]) == len(ids) - 1, 'trajectory length in steps')
    close(u.volume, tr.volume(b), 'volume', rtol=1e-4 if b == 'mda' else 1e-9)
    frac = tr.frac[ids][:, ::p['suba']]
    want, margin = oracle_unwrap(frac, cells[ids])
    if margin > 1e-3:
        close(u.dc, want, 'displacements of the frames read', rtol=1e-3, atol=(5e-3 if b == 'mda' else 1e-6))


# C01 end to end on the readers
def gen_c01_backend(ctx):
    for b in BACKENDS:
        for s in ctx.seeds(ctx.n(8, 80)):
            r = np.random.default_rng(s)
            yield dict(seed=s, backend=b, sub=1, kind=['ortho', 'tri', 'npt_ortho'][r.integers(0, 3)], frames=int(r.integers(5, 20)), atoms=int(r.integers(1, 6)),
                       time_step=1.0, step_skip=1, suba=1)


also('C01', 'readers_unwrap', frames_read, gen_c01_backend)


def gen_units(ctx):
    for b in BACKENDS:
        for kmin, kmax in ((None, None), (2, None), (None, 7), (3, 8)):
            yield dict(seed=ctx.seeds(1)[0], backend=b, kmin=kmin, kmax=kmax, sub=2)


@register('C08', gen_units)
def options_reach_base(p):
    """min_dt / max_dt / n_steps / spacing / sampling given to a reader act as on the base parser."""
    rng = rng_of(p)
    tr = Traj(rng, frames=24, symbols=['Li', 'O', 'Li'])
    dt = 0.5 * 3 * p['sub']
    kw = {}
    if p['kmin']:
        kw['min_dt'] = p['kmin'] * dt
    if p['kmax']:
        kw['max_dt'] = p['kmax'] * dt
    for n_steps, spacing, sampling in ((100, 'linear', 'multi-origin'), (4, 'logarithmic', 'multi-origin'), (5, 'linear', 'single-origin')):
        u = tr.parser(p['backend'], 'Li', time_step=0.5, step_skip=3, sub_sample_traj=p['sub'], n_steps=n_steps, spacing=spacing, sampling=sampling, **kw)
        N = np.asarray(u.dc).shape[1]
        require(N == 12, f'{N} steps read, expected 12')
        lo, hi = p['kmin'] or 1, p['kmax'] or N
        ti = [int(x) for x in u.time_intervals]
        require(ti[0] == lo and ti[-1] == hi, f'interval range {ti[0]}..{ti[-1]}, expected {lo}..{hi}')
        f = np.geomspace if spacing == 'logarithmic' else np.linspace
        want = np.unique(np.floor(f(lo, hi, min(n_steps, N - lo + 1)) + 1e-9).astype(int))
        require(ti == [int(x) for x in want], f'intervals {ti}, expected {want}')
        d = np.asarray(u.dc)
        scale = 1e-3 if p['backend'] == 'pymatgen' else 1.0
        u.delta_t = np.asarray(u.delta_t) / scale
        check_windows(u, d, [0, 2], sampling, dt)
