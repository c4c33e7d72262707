"""C10-C18, C20: estimators, covariance, fit, conversions, resampling, dictionaries, Arrhenius."""
import math, warnings, copy
import numpy as np
from .common import register, also, Fail, require, close, same, raises, rng_of, quiet

AXES = {'x': [0], 'y': [1], 'z': [2], 'xy': [0, 1], 'xz': [0, 2], 'yz': [1, 2], 'xyz': [0, 1, 2]}
DIMS = list(AXES)


def disp_list(rng, n_int, atoms, wins, wobble=True, scale=1.0):
    out = []
    for k in range(n_int):
        w = wins + (n_int - 1 - k if wobble else 0)
        out.append(rng.normal(0, scale * math.sqrt(k + 1), (atoms, w, 3)) + rng.normal(0, 0.1, (atoms, 1, 3)))
    return out


def walk_list(rng, n_int, atoms, steps):
    x = np.cumsum(rng.normal(0, 1, (atoms, steps, 3)), axis=1)
    out = []
    for m in range(1, n_int + 1):
        out.append(np.concatenate([x[:, m - 1:m], x[:, m:] - x[:, :-m]], axis=1))
    return out, np.array([atoms * n_int / m for m in range(1, n_int + 1)])


def oracle(kind, disp, dt, n_o, dimension, sub, charge=None):
    """Plain-loop estimators; list of per-interval dictionaries."""
    ax = AXES[dimension.lower()]
    res = []
    idx = list(range(0, len(disp), sub))
    if kind != 'MSD':
        idx = idx[:len(idx) // 2]
    for i in idx:
        d = disp[i]
        A, W = d.shape[:2]
        sq = np.zeros((A, W))
        for c in ax:
            sq = sq + d[:, :, c]**2
        if kind == 'MSD':
            obs = [float(sq[a, w]) for a in range(A) for w in range(W)]
            div = float(n_o[i])
        else:
            q = np.ones(A) if charge is None else (np.ones(A) * charge if np.ndim(charge) == 0 else np.asarray(charge, float))
            obs = []
            for w in range(W):
                t = 0.0
                for c in ax:
                    t += math.fsum(float(q[a] * d[a, w, c]) for a in range(A))**2
                obs.append(t)
            div = float(n_o[i]) / A
        mean = math.fsum(obs) / len(obs)
        var = math.fsum((o - mean)**2 for o in obs) / (len(obs) - 1) / div
        flat = sq.ravel()
        m2 = math.fsum(flat) / flat.size
        m4 = math.fsum(flat * flat) / flat.size
        res.append(dict(n=mean, v=var, s=math.sqrt(var), dt=float(dt[i]), ngp=3 * m4 / (5 * m2 * m2) - 1, dr=np.sort(np.sqrt(flat)), obs=obs, i=i, n_o=float(n_o[i])))
    return res


def make(kind, disp, dt, n_o, charge=1, **kw):
    import kinisi.diffusion as D
    kw.setdefault('progress', False)
    if kind == 'MSD':
        return D.MSDBootstrap(dt, disp, n_o, **kw)
    if kind == 'MSTD':
        return D.MSTDBootstrap(dt, disp, n_o, **kw)
    return D.MSCDBootstrap(dt, disp, charge, n_o, **kw)


def check_estimates(b, want, what=''):
    require(len(b.n) == len(want), f'{what}{len(b.n)} values for {len(want)} intervals')
    for key, attr in (('dt', b.dt), ('n', b.n), ('v', b.v), ('s', b.s), ('ngp', b.ngp)):
        close(attr, np.array([w[key] for w in want]), f'{what}{key}', rtol=1e-8, atol=0 if key == 'dt' else None)
    require(len(b.euclidian_displacements) == len(want), f'{what}{len(b.euclidian_displacements)} displacement distributions')
    for d, w in zip(b.euclidian_displacements, want):
        close(np.sort(np.asarray(d.samples)), w['dr'], f'{what}euclidean displacements', rtol=1e-8)
    close(b.to_dict()['n_o'], np.array([w['n_o'] for w in want]), f'{what}observation counts', rtol=1e-12)


def gen_est(kinds):
    def gen(ctx):
        for kind in kinds:
            for dim in DIMS + ['XYZ', 'Xy']:
                for sub in (1, 2):
                    for A, W, n in ((3, 6, 5), (1, 4, 6), (5, 2, 4)):
                        yield dict(seed=ctx.seeds(1)[0], kind=kind, dim=dim, sub=sub, atoms=A, wins=W, n_int=n, charge=ctx.pick(['scalar', 'array', 'neg', 'float', 'zero', 'list']))
            for s in ctx.seeds(ctx.n(120, 3000)):
                r = np.random.default_rng(s)
                yield dict(seed=s, kind=kind, dim=DIMS[r.integers(0, 7)], sub=int(r.integers(1, 5)), atoms=int(r.integers(1, 12)), wins=int(r.integers(2, 30)),
                           n_int=int(r.integers(4, 25)), charge=['scalar', 'array', 'neg', 'float', 'list'][r.integers(0, 5)])
            for A, W in ((260, 3), (1100, 2), (3, 700), (3, 4200), (5100, 2)):
                yield dict(seed=A, kind=kind, dim='xyz', sub=1, atoms=A, wins=W, n_int=4, charge='array')
            for s in ctx.seeds(6):
                yield dict(seed=s, kind=kind, dim='xyz', sub=1, atoms=3, wins=6, n_int=6, charge='array', frozen=['windows', 'atoms', 'axis', 'all'][s % 4])
            for v in ctx.size_ints(2, 1500):
                yield dict(seed=v, kind=kind, dim='xyz', sub=1, atoms=v, wins=3, n_int=4, charge='array')
                yield dict(seed=v, kind=kind, dim='xz', sub=1, atoms=2, wins=v, n_int=4, charge='array')
                if v <= 400:
                    yield dict(seed=v, kind=kind, dim='y', sub=1, atoms=2, wins=3, n_int=v, charge='array')
                    yield dict(seed=v, kind=kind, dim='y', sub=v, atoms=2, wins=3, n_int=2 * v + 2, charge='array')
            for v in ctx.size_ints(1501, 21000):
                yield dict(seed=v, kind=kind, dim='xyz', sub=1, atoms=3, wins=v // 3 + 1, n_int=4, charge='array')
                yield dict(seed=v, kind=kind, dim='xyz', sub=1, atoms=2, wins=v, n_int=3, charge='array')
    return gen


def charges(p, rng):
    A = p['atoms']
    return {'scalar': 2, 'float': 1.5, 'array': rng.uniform(0.5, 3, A), 'neg': rng.choice([-1.0, 1.0, 2.0], A), 'zero': np.concatenate([[0.0], np.ones(A - 1)]),
            'list': [float(x) for x in rng.uniform(-2, 2, A)]}[p.get('charge', 'scalar')]


def est_data(p):
    rng = rng_of(p)
    disp = disp_list(rng, p['n_int'], p['atoms'], p['wins'])
    fr = p.get('frozen')
    for d in disp:          # nothing moves in some windows, some atoms do not move, nothing moves along an axis
        if fr in ('windows', 'all'):
            d[:, :2] = 0.0
        if fr in ('atoms', 'all'):
            d[0] = 0.0
        if fr in ('axis', 'all'):
            d[:, :, 1] = 0.0
    dt = np.cumsum(rng.uniform(0.1, 1.0, p['n_int']))
    n_o = np.sort(rng.uniform(2, 60, p['n_int']))[::-1].copy()
    return rng, disp, dt, n_o


def estimator(p):
    rng, disp, dt, n_o = est_data(p)
    q = charges(p, rng)
    want = oracle(p['kind'], disp, dt, n_o, p['dim'], p['sub'], q if p['kind'] == 'MSCD' else None)
    b = make(p['kind'], [d.copy() for d in disp], dt.copy(), n_o.copy(), q, sub_sample_dt=p['sub'], dimension=p['dim'], progress=bool(p['seed'] % 2))
    check_estimates(b, want)


also('C10', 'msd_estimator', estimator, gen_est(['MSD']))
also('C11', 'collective_estimators', estimator, gen_est(['MSTD', 'MSCD']))


def gen_ngp(ctx):
    for s in ctx.seeds(ctx.n(30, 500)):
        r = np.random.default_rng(s)
        yield dict(seed=s, a=int(r.integers(1, 9)), b=int(r.integers(2, 50)), flat=bool(r.integers(0, 2)))


@register('C10', gen_ngp)
def ngp_formula(p):
    from kinisi.diffusion import Bootstrap
    x = rng_of(p).uniform(0, 9, (p['a'], p['b']))
    want = 3 * np.mean(x**2) / (5 * np.mean(x)**2) - 1
    close(Bootstrap.ngp_calculation(x.ravel() if p['flat'] else x), want, 'non-Gaussian parameter', rtol=1e-9)


def gen_coll_rel(ctx):
    for s in ctx.seeds(ctx.n(15, 200)):
        r = np.random.default_rng(s)
        yield dict(seed=s, atoms=int(r.integers(1, 9)), wins=int(r.integers(2, 20)), n_int=int(r.integers(2, 12)), dim=DIMS[r.integers(0, 7)])


@register('C11', gen_coll_rel)
def charge_relations(p):
    """Unit charge equals the jump case; scaling by q scales by q^2; permuting atoms with their charges changes nothing."""
    rng, disp, dt, n_o = est_data(p)
    kw = dict(dimension=p['dim'])
    t = make('MSTD', disp, dt, n_o, **kw)
    c1 = make('MSCD', disp, dt, n_o, 1, **kw)
    close(c1.n, t.n, 'unit charge', rtol=1e-9)
    q = rng.choice([-2., -1., 1., 3.], p['atoms'])
    a = make('MSCD', disp, dt, n_o, q, **kw)
    b = make('MSCD', disp, dt, n_o, -2.5 * q, **kw)
    close(b.n, 6.25 * np.asarray(a.n), 'scaled charges', rtol=1e-9)
    close(b.v, 6.25**2 * np.asarray(a.v), 'scaled charges variance', rtol=1e-9)
    perm = rng.permutation(p['atoms'])
    c = make('MSCD', [d[perm] for d in disp], dt, n_o, q[perm], **kw)
    close(c.n, a.n, 'permuted atoms', rtol=1e-7, atol=1e-9 * np.max(np.abs(c1.n)))


# ----------------------------------------------------------------------------------------------------------------
# C12
# ----------------------------------------------------------------------------------------------------------------
def oracle_cov(v, n):
    k = len(v)
    out = np.zeros((k, k))
    for i in range(k):
        for j in range(k):
            a, b = min(i, j), max(i, j)
            out[i, j] = v[a] * n[a] / n[b]
    return out


def oracle_recond(m, cond):
    w, V = np.linalg.eigh(m)
    T = w.max() / cond
    return (V * np.where(w < T, T, w)) @ V.T


def gen_cov(ctx):
    for k in (2, 3, 5):
        for s in ctx.seeds(ctx.n(8, 100)):
            yield dict(seed=s, size=k)
    for v in ctx.size_ints(2, 150):
        yield dict(seed=v, size=v)
    for s in ctx.seeds(ctx.n(40, 600)):
        yield dict(seed=s, size=2 + s % 40)


@register('C12', gen_cov)
def covariance_population(p):
    """Well-conditioned covariances (no eigenvalue is near any limit) come through the fit unchanged and can be compared
    closely."""
    rng = rng_of(p)
    k = p['size']
    scale = np.cumsum(rng.uniform(0.5, 1.5, k)) * rng.uniform(0.3, 3)
    n_o = rng.uniform(1, 90) / scale**rng.uniform(0.3, 1.3)
    disp = []
    for i in range(k):
        x = rng.uniform(0.5, 1.5, (2, 3, 3))
        w = np.var(np.sum(x**2, axis=-1).ravel(), ddof=1)
        disp.append(x * (scale[i] / math.sqrt(w))**0.5)
    dt = np.arange(1, k + 1) * 0.5
    b = make('MSD', disp, dt, n_o)
    want = oracle_cov(np.asarray(b.v), n_o)
    ev = np.linalg.eigvalsh(want)
    if ev[0] < 1e-9 * ev[-1]:
        return
    b.bootstrap_GLS(float(b.dt[0]), cond_max=1e16, model=False, random_state=np.random.RandomState(p['seed'] % 1000), **SMALL)
    got = np.asarray(b.covariance_matrix)
    close(got, want, 'covariance', rtol=1e-6, atol=1e-9 * np.abs(want).max())
    close(got, got.T, 'symmetry', rtol=1e-9)


def gen_recond(ctx):
    for s in ctx.seeds(ctx.n(80, 1500)):
        r = np.random.default_rng(s)
        yield dict(seed=s, size=int(r.integers(1, 14)), cond=float(r.choice([1., 2., 10., 1e3, 1e6, 1e16])), kind=['spd', 'low', 'diag', 'diagdesc', 'repeat', 'cov', 'indef'][r.integers(0, 7)])


@register('C12', gen_recond)
def reconditioning(p):
    from kinisi.diffusion import minimum_eigenvalue_method
    rng = rng_of(p)
    k = p['size']
    Q, _ = np.linalg.qr(rng.normal(size=(k, k)))
    if p['kind'] == 'spd':
        w = rng.uniform(0.01, 10, k)
    elif p['kind'] == 'low':
        w = np.where(rng.uniform(size=k) < 0.5, 1e-9, 1.0) * rng.uniform(1, 5, k)
        w[0] = 3.0
    elif p['kind'] == 'repeat':
        w = rng.choice([1.0, 4.0], k)
    elif p['kind'] == 'indef':
        w = rng.normal(0, 1, k)
        w[int(rng.integers(0, k))] = 5.0
    else:
        w = np.sort(rng.uniform(0.01, 10, k))
    if p['kind'] == 'diag':
        m = np.diag(w)
    elif p['kind'] == 'diagdesc':
        m = np.diag(w[::-1])
    elif p['kind'] == 'cov':
        m = oracle_cov(np.sort(rng.uniform(.1, 9, k)), np.sort(rng.uniform(1, 90, k))[::-1])
    else:
        m = (Q * w) @ Q.T
        m = (m + m.T) / 2
    if np.min(np.abs(np.linalg.eigvalsh(m) - np.linalg.eigvalsh(m).max() / p['cond'])) < 1e-9 * np.abs(m).max() and p['cond'] < 1e15 and p['cond'] != 1.0:
        return
    got = minimum_eigenvalue_method(m.copy(), p['cond'])
    want = oracle_recond(m, p['cond'])
    close(got, want, 'reconditioned matrix', rtol=1e-6, atol=1e-8 * np.abs(want).max())
    ev = np.linalg.eigvalsh((np.asarray(got) + np.asarray(got).T) / 2)
    require(ev.min() >= ev.max() / p['cond'] * (1 - 1e-6) - 1e-9 * ev.max(), 'condition limit exceeded')


SMALL = dict(n_samples=20, n_walkers=8, n_burn=5, thin=1, progress=False)


def fit_object(p, kind='MSD'):
    rng = rng_of(p)
    n_int = p.get('n_int', 10)
    k = n_int if kind == 'MSD' else 2 * n_int
    disp, n_o = walk_list(rng, k, p.get('atoms', 6), k * 2 + 4)
    dt = np.arange(1, k + 1) * 0.5
    q = rng.choice([-1., 1., 2.], p.get('atoms', 6))
    return make(kind, disp, dt, n_o, q, dimension=p.get('dim', 'xyz'), sub_sample_dt=p.get('sub', 1))


def gen_gencov(ctx):
    for kind in ('MSD', 'MSTD', 'MSCD'):
        for model in (False, True):
            for s in ctx.seeds(ctx.n(8, 100)):
                r = np.random.default_rng(s)
                n = int(r.integers(3, 15))
                yield dict(seed=s, kind=kind, model=model, n_int=n, start=int(r.integers(0, n - 1)), cond=float(r.choice([1e2, 1e4, 1e8, 1e16])), atoms=int(r.integers(2, 8)))


@register('C12', gen_gencov)
def fit_covariance(p):
    from statsmodels.stats.correlation_tools import cov_nearest
    b = fit_object(p, p['kind'])
    k = p['start']
    v, n, dt = np.asarray(b.v)[k:], np.asarray(b.to_dict()['n_o'])[k:], np.asarray(b.dt)[k:]
    if len(v) < 2:
        return
    b.bootstrap_GLS(float(b.dt[k]), cond_max=p['cond'], model=p['model'], random_state=np.random.RandomState(p['seed'] % 1000), **SMALL)
    if p['model']:
        x = dt**2 / n
        v = x * (np.sum(x * v) / np.sum(x * x))
    want = oracle_recond(oracle_cov(v, n), p['cond'])
    want = cov_nearest(want)
    got = np.asarray(b.covariance_matrix)
    require(got.shape == want.shape, f'covariance of {got.shape[0]} intervals, {want.shape[0]} are fitted')
    close(got, want, 'covariance used by the fit', rtol=2e-3, atol=1e-4 * np.abs(want).max())
    require(np.linalg.eigvalsh((got + got.T) / 2).min() >= -1e-9 * np.abs(got).max(), 'covariance is not positive semi-definite')


# ----------------------------------------------------------------------------------------------------------------
# C13
# ----------------------------------------------------------------------------------------------------------------
class Spy:
    """Records every emcee sampler built inside the block."""

    def __enter__(self):
        import emcee
        self.cls = emcee.EnsembleSampler
        self.rec = []
        self.init = self.cls.__init__
        self.run = self.cls.run_mcmc
        rec = self.rec
        init, run = self.init, self.run

        def __init__(s, *a, **k):
            init(s, *a, **k)
            fn = k.get('log_prob_fn', a[2] if len(a) > 2 else None)
            rec.append(dict(sampler=s, fn=fn, nsteps=0))

        def run_mcmc(s, initial_state, nsteps, **k):
            for r in rec:
                if r['sampler'] is s:
                    r['nsteps'] += nsteps
                    r['pos'] = np.array(initial_state) if not hasattr(initial_state, 'coords') else np.array(initial_state.coords)
            return run(s, initial_state, nsteps, **k)

        self.cls.__init__ = __init__
        self.cls.run_mcmc = run_mcmc
        return self

    def __exit__(self, *a):
        self.cls.__init__ = self.init
        self.cls.run_mcmc = self.run


def gen_fit(ctx):
    for kind in ('MSD', 'MSTD', 'MSCD'):
        for ic in (True, False):
            for s in ctx.seeds(ctx.n(8, 80)):
                r = np.random.default_rng(s)
                n = int(r.integers(4, 14))
                yield dict(seed=s, kind=kind, intercept=ic, n_int=n, start=int(r.integers(0, n - 2)), between=['at', 'between', 'zero'][r.integers(0, 3)],
                           n_samples=int(r.integers(10, 60)), n_burn=int(r.integers(0, 40)), thin=int(r.choice([1, 1, 2, 5])), walkers=int(r.choice([8, 10, 32])), history=bool(r.integers(0, 2)), model=bool(r.integers(0, 2)))
        yield dict(seed=5, kind=kind, intercept=True, n_int=8, start=1, between='at', n_samples=1300, n_burn=700, thin=13, walkers=8, history=False, model=False)


def start_of(b, p):
    dt = np.asarray(b.dt)
    k = p['start']
    if p['between'] == 'zero':
        return 0.0, 0
    if p['between'] == 'between' and k > 0:
        return float(0.5 * (dt[k - 1] + dt[k])), k
    return float(dt[k]), k


@register('C13', gen_fit)
def fit_likelihood(p):
    b = fit_object(p, p['kind'])
    start, k = start_of(b, p)
    kw = dict(cond_max=1e5, model=p['model'], fit_intercept=p['intercept'], n_samples=p['n_samples'], n_burn=p['n_burn'], thin=p['thin'], n_walkers=p['walkers'], progress=False)
    if p['history']:
        b.bootstrap_GLS(float(b.dt[1]), cond_max=1e3, fit_intercept=not p['intercept'], model=True, **SMALL)
    with Spy() as spy:
        b.bootstrap_GLS(start, random_state=np.random.RandomState(3), **kw)
    dt, n = np.asarray(b.dt)[k:], np.asarray(b.n)[k:]
    cov = np.asarray(b.covariance_matrix)
    require(cov.shape == (len(dt), len(dt)), f'covariance over {cov.shape[0]} intervals, {len(dt)} are at or after the start')
    dim = 2 if p['intercept'] else 1
    fc = np.asarray(b.flatchain)
    require(fc.ndim == 2 and fc.shape[1] == dim, f'chain shape {fc.shape}')
    require(np.all(fc[:, 0] >= 0), 'negative gradient sampled')
    same(b.gradient.samples, fc[:, 0], 'gradient column')
    if p['intercept']:
        require(b.intercept is not None, 'intercept missing')
        same(b.intercept.samples, fc[:, 1], 'intercept column')
    else:
        require(b.intercept is None, 'intercept although it was not fitted')
    kept = max(0, -(-(p['n_samples'] - p['thin'] + 1) // p['thin'])) if p['n_samples'] >= p['thin'] else 0
    require(len(fc) == kept * p['walkers'], f'{len(fc)} samples kept, expected {kept} steps x {p["walkers"]} walkers')
    if not spy.rec:
        return
    r = spy.rec[-1]
    s = r['sampler']
    require(r['nsteps'] == p['n_samples'] + p['n_burn'], f'{r["nsteps"]} steps run')
    same(fc, s.get_chain()[p['n_burn'] + p['thin'] - 1::p['thin']].reshape(-1, dim), 'retained part of the chain')
    sign, logdet = np.linalg.slogdet(cov)
    inv = np.linalg.pinv(cov)
    rng = rng_of(p, 1)
    slope = float(np.polyfit(dt, n, 1)[0])
    for _ in range(6):
        th = np.array([abs(slope) * rng.uniform(0, 3), rng.normal(0, 2)])[:dim]
        mu = th[0] * dt + (th[1] if dim == 2 else 0.0)
        d = n - mu
        want = -0.5 * (logdet + len(dt) * math.log(2 * math.pi) + d @ inv @ d)
        got = float(np.squeeze(s.compute_log_prob(np.array([th]))[0]))
        close(got, want, f'log-probability at {th}', rtol=1e-6, atol=1e-6 * (abs(logdet) + abs(want) + 1))
    th = np.array([-abs(slope) - 1e-3, 0.3])[:dim]
    require(float(np.squeeze(s.compute_log_prob(np.array([th]))[0])) == -np.inf, 'negative gradient not excluded')
    th[0] = -1e-12
    require(float(np.squeeze(s.compute_log_prob(np.array([th]))[0])) == -np.inf, 'tiny negative gradient not excluded')


def gen_hist(ctx):
    for kind in ('MSD', 'MSTD', 'MSCD'):
        for s in ctx.seeds(ctx.n(8, 60)):
            r = np.random.default_rng(s)
            yield dict(seed=s, kind=kind, n_int=int(r.integers(4, 12)), a=int(r.integers(0, 6)), b=int(r.integers(0, 6)))


OPTS = [dict(), dict(fit_intercept=False), dict(model=True), dict(cond_max=1e4), dict(n_samples=35, n_burn=2), dict(thin=3)]


@register('C13', gen_hist)
def fit_history(p):
    """The second fit on one object equals the same fit on a fresh object."""
    res = []
    for first in (True, False):
        b = fit_object(p, p['kind'])
        if first:
            b.bootstrap_GLS(float(b.dt[1]), **{**SMALL, **OPTS[p['a']]}, random_state=np.random.RandomState(11))
            if p['seed'] % 2:
                b.bootstrap_GLS(float(b.dt[0]), **{**SMALL, **OPTS[p['b']]}, random_state=np.random.RandomState(12))
            else:          # the same start with other options
                b.bootstrap_GLS(float(b.dt[2 if len(b.dt) > 3 else 0]), **{**SMALL, **OPTS[p['a']]}, random_state=np.random.RandomState(12))
        b.bootstrap_GLS(float(b.dt[2 if len(b.dt) > 3 else 0]), **{**SMALL, **OPTS[p['b']]}, random_state=np.random.RandomState(5))
        res.append(b)
    same(res[0].flatchain, res[1].flatchain, 'chain after earlier fits')
    same(res[0].covariance_matrix, res[1].covariance_matrix, 'covariance after earlier fits')
    same(res[0].n, res[1].n, 'means after earlier fits')
    same(res[0].v, res[1].v, 'variances after earlier fits')
    require((res[0].intercept is None) == (res[1].intercept is None), 'intercept left over from an earlier fit')


def gen_neg(ctx):
    for s in ctx.seeds(ctx.n(6, 60)):
        yield dict(seed=s, intercept=bool(s % 2))


@register('C13', gen_neg)
def no_negative_gradient(p):
    """Data with a falling trend."""
    rng = rng_of(p)
    k = 8
    disp = [rng.normal(0, math.sqrt(10 - i), (4, 12, 3)) for i in range(k)]
    b = make('MSD', disp, np.arange(1, k + 1) * 1.0, np.linspace(60, 20, k))
    with Spy() as spy:
        b.bootstrap_GLS(0.0, fit_intercept=p['intercept'], cond_max=1e4, n_samples=40, n_walkers=8, n_burn=10, thin=1, progress=False, random_state=np.random.RandomState(1))
    require(np.all(np.asarray(b.gradient.samples) >= 0), 'negative gradient sampled')


def gen_stat(ctx):
    for s in ctx.seeds(ctx.n(3, 20)):
        yield dict(seed=s, intercept=bool(s % 2), start=2, between='at', n_int=10)


@register('C13', gen_stat)
def fit_matches_gls(p):
    """Posterior mean against the closed-form generalised least squares solution (very wide tolerance)."""
    b = fit_object(p, 'MSD')
    b.bootstrap_GLS(float(b.dt[p['start']]), cond_max=1e5, fit_intercept=p['intercept'], n_samples=700, n_walkers=24, n_burn=300, thin=2, progress=False, random_state=np.random.RandomState(2))
    dt, n = np.asarray(b.dt)[p['start']:], np.asarray(b.n)[p['start']:]
    X = np.stack([dt, np.ones_like(dt)], axis=1)[:, :2 if p['intercept'] else 1]
    ci = np.linalg.inv(b.covariance_matrix)
    V = np.linalg.inv(X.T @ ci @ X)
    est = V @ X.T @ ci @ n
    sd = math.sqrt(V[0, 0])
    if est[0] < 4 * sd:
        return
    m = float(np.mean(b.gradient.samples))
    require(abs(m - est[0]) < 1.0 * sd, f'posterior mean gradient {m}, least squares {est[0]} +- {sd}')
    sp = float(np.std(b.gradient.samples))
    require(0.5 * sd < sp < 2 * sd, f'posterior width {sp}, least squares {sd}')


# ----------------------------------------------------------------------------------------------------------------
# C14
# ----------------------------------------------------------------------------------------------------------------
def gen_units(ctx):
    for kind in ('MSD', 'MSTD', 'MSCD'):
        for dim in DIMS:
            for s in ctx.seeds(ctx.n(1, 10)):
                r = np.random.default_rng(s)
                yield dict(seed=s, kind=kind, dim=dim, atoms=int(r.integers(1, 9)) + (1 if kind == 'MSD' else 0), T=float(r.uniform(100, 2000)), V=float(r.uniform(50, 9000)), n_int=6,
                           intercept=bool(r.integers(0, 2)), sub=int(r.integers(1, 3)))


@register('C14', gen_units)
def conversions(p):
    b = fit_object(p, p['kind'])
    nd, A = len(p['dim']), p['atoms']
    kw = dict(SMALL, fit_intercept=p['intercept'])
    start = float(b.dt[0])
    require(b.D is None and b.D_J is None and b.sigma is None, 'results before any fit')
    b.diffusion(start, **kw)
    close(b.D.samples, np.asarray(b.gradient.samples) / (2e4 * nd), 'diffusion coefficient', rtol=1e-10)
    require(b.D_J is None and b.sigma is None, 'diffusion touched another result')
    D0 = np.array(b.D.samples)
    b.jump_diffusion(start, **kw)
    close(b.D_J.samples, np.asarray(b.gradient.samples) / (2e4 * nd * A), 'jump diffusion coefficient', rtol=1e-10)
    same(b.D.samples, D0, 'diffusion coefficient after jump_diffusion')
    require(b.sigma is None, 'jump_diffusion touched the conductivity')
    J0 = np.array(b.D_J.samples)
    b.conductivity(start, p['T'], p['V'], **kw)
    e, kB = 1.602176634e-19, 1.380649e-23
    conv = 1000 * e**2 / (p['V'] * 1e-24 * kB * p['T'])
    close(b.sigma.samples, np.asarray(b.gradient.samples) / (2e4 * nd) * conv, 'conductivity', rtol=1e-8)
    same(b.D.samples, D0, 'diffusion coefficient after conductivity')
    same(b.D_J.samples, J0, 'jump diffusion coefficient after conductivity')
    # options reach the fit
    b.diffusion(float(b.dt[1]), n_samples=12, n_walkers=6, n_burn=3, thin=2, progress=False, fit_intercept=False)
    require(b.D.size == 36 and b.intercept is None, f'options not passed to the fit: {b.D.size} samples')
    require(np.asarray(b.covariance_matrix).shape[0] == len(b.dt) - 1, 'start time not passed to the fit')
    b.jump_diffusion(float(b.dt[1]), n_samples=12, n_walkers=6, n_burn=3, thin=2, progress=False, fit_intercept=False)
    require(b.D_J.size == 36 and np.asarray(b.covariance_matrix).shape[0] == len(b.dt) - 1, 'options not passed by jump_diffusion')
    b.conductivity(float(b.dt[1]), p['T'], p['V'], n_samples=12, n_walkers=6, n_burn=3, thin=2, progress=False, fit_intercept=False)
    require(b.sigma.size == 36 and np.asarray(b.covariance_matrix).shape[0] == len(b.dt) - 1, 'options not passed by conductivity')


# ----------------------------------------------------------------------------------------------------------------
# C15 (estimator part)
# ----------------------------------------------------------------------------------------------------------------
def posterior_object(p, cov_scale=1e-18):
    """An estimator whose posterior is known: rebuilt from a dictionary with chosen samples."""
    import kinisi.diffusion as D
    rng = rng_of(p, 5)
    b = fit_object(p)
    k = p.get('start', 1)
    b.bootstrap_GLS(float(b.dt[k]), fit_intercept=p['intercept'], **SMALL)
    d = b.to_dict()
    m = p.get('post', 7)
    g = rng.uniform(1, 9, m)
    c = rng.uniform(-50, 50, m)
    nf = len(b.dt) - k
    M = rng.normal(size=(nf, nf))
    cov = (M @ M.T + np.eye(nf)) * cov_scale
    d['gradient'] = {'name': 'g', 'samples': g}
    d['intercept'] = {'name': 'c', 'samples': c} if p['intercept'] else None
    d['flatchain'] = np.stack([g, c], axis=1) if p['intercept'] else g[:, None]
    d['covariance_matrix'] = cov
    return D.Bootstrap.from_dict(d), g, (c if p['intercept'] else np.zeros(m)), cov, k


def gen_ppd(ctx):
    for ic in (True, False):
        for s in ctx.seeds(ctx.n(12, 120)):
            r = np.random.default_rng(s)
            yield dict(seed=s, intercept=ic, n_int=int(r.integers(4, 10)), start=int(r.integers(0, 3)), post=int(r.integers(1, 9)), np_=[None, 1, 3, 20][r.integers(0, 4)], nq=int(r.choice([2, 3, 7])))


@register('C15', gen_ppd)
def predictive_lines(p):
    b, g, c, cov, k = posterior_object(p)
    dt = np.asarray(b.dt)[k:]
    np.random.seed(p['seed'] % 2**31)
    n1 = len(g) if p['np_'] is None else p['np_']
    kw = {} if p['np_'] is None else dict(n_posterior_samples=p['np_'])
    out = np.asarray(b.posterior_predictive(n_predictive_samples=p['nq'], progress=False, **kw))
    require(out.shape == (n1 * p['nq'], len(dt)), f'shape {out.shape}, expected {(n1 * p["nq"], len(dt))}')
    lines = g[:, None] * dt[None] + c[:, None]
    used = set()
    for blk in range(n1):
        rows = out[blk * p['nq']:(blk + 1) * p['nq']]
        hit = [j for j in range(len(g)) if np.allclose(rows, lines[j], atol=1e-5)]
        require(len(hit) >= 1, f'block {blk} does not follow the line of any one posterior sample')
        used.add(hit[0])
    if n1 >= 20 and len(g) <= 4:
        require(len(used) == len(g), f'posterior samples used {sorted(used)} of {len(g)}')
    if p['np_'] is None and len(g) >= 5:
        require(len(used) >= 2, 'only one posterior sample is ever used')


def gen_ppd_cov(ctx):
    for s in ctx.seeds(ctx.n(3, 20)):
        yield dict(seed=s, intercept=bool(s % 2), n_int=5, start=1, post=1)


@register('C15', gen_ppd_cov)
def predictive_covariance(p):
    b, g, c, cov, k = posterior_object(p, 1.0)
    np.random.seed(p['seed'] % 2**31)
    out = np.asarray(b.posterior_predictive(n_posterior_samples=4, n_predictive_samples=5000, progress=False))
    sc = np.cov(out.T)
    sd = np.sqrt(np.diag(cov))
    require(np.all(np.abs(sc - cov) < 0.12 * np.outer(sd, sd)), 'spread of the predictive samples is not the fitted covariance')
    out = np.asarray(b.posterior_predictive(n_posterior_samples=3, progress=False))
    require(out.shape[0] == 3 * 256, 'default number of predictive samples')


def gen_ppd_idx(ctx):
    for s in ctx.seeds(2):
        yield dict(seed=s, intercept=True, n_int=5, start=1, post=6)


@register('C15', gen_ppd_idx)
def predictive_uses_all(p):
    b, g, c, cov, k = posterior_object(p)
    np.random.seed(p['seed'] % 2**31)
    out = np.asarray(b.posterior_predictive(n_posterior_samples=300, n_predictive_samples=1, progress=False)) if False else np.asarray(
        b.posterior_predictive(n_posterior_samples=300, n_predictive_samples=2, progress=False))[::2]
    lines = g[:, None] * np.asarray(b.dt)[k:][None] + c[:, None]
    cnt = np.zeros(len(g))
    for row in out:
        cnt[int(np.argmin(np.abs(lines - row).max(axis=1)))] += 1
    require(np.all(cnt > 10), f'posterior samples are not drawn evenly: {cnt}')


def gen_ppd_many(ctx):
    yield dict(seed=4, intercept=True, n_int=5, start=1, post=12000)
    for v in ctx.size_ints(50, 21000)[-6:]:
        yield dict(seed=v, intercept=bool(v % 2), n_int=4, start=1, post=v)


@register('C15', gen_ppd_many)
def predictive_of_long_posteriors(p):
    b, g, c, cov, k = posterior_object(p)
    np.random.seed(p['seed'])
    out = np.asarray(b.posterior_predictive(n_predictive_samples=2, progress=False))
    dt = np.asarray(b.dt)[k:]
    require(out.shape == (2 * len(g), len(dt)), f'shape {out.shape}, expected {(2 * len(g), len(dt))}')
    lines = g[:, None] * dt[None] + c[:, None]
    o = np.argsort(lines[:, 0])
    at = np.searchsorted(lines[o, 0], out[:, 0])
    ok = np.zeros(len(out), bool)
    for d in (-2, -1, 0, 1):
        j = o[np.clip(at + d, 0, len(o) - 1)]
        ok |= np.all(np.abs(out - lines[j]) < 1e-5, axis=1)
    require(ok.all(), f'{int((~ok).sum())} of {len(out)} rows do not follow a posterior sample')


# ----------------------------------------------------------------------------------------------------------------
# C16
# ----------------------------------------------------------------------------------------------------------------
def decode(mean, n, k, B=64):
    """Counts of each of the k values B^0..B^(k-1) in a sample of n with this mean, or None."""
    tot = int(round(mean * n))
    if abs(mean * n - tot) > 1e-3 * max(1.0, abs(tot)) * 1e-3:
        return None
    out = []
    for _ in range(k):
        out.append(tot % B)
        tot //= B
    return out if tot == 0 and sum(out) == n else None


def gen_boot(ctx):
    for n in (1, 2, 5, 9.7, 31.5):
        for k in (1, 2, 4):
            yield dict(seed=ctx.seeds(1)[0], n=n, k=k, m=120, shape=ctx.pick(['flat', '2d']))
    for s in ctx.seeds(ctx.n(30, 400)):
        r = np.random.default_rng(s)
        yield dict(seed=s, n=float(r.uniform(1, 50)), k=int(r.integers(2, 6)), m=int(r.integers(1, 200)), shape=['flat', '2d'][r.integers(0, 2)])
    for v in ctx.size_ints(1, 600):
        yield dict(seed=v, n=5.0, k=3, m=v, shape='flat')


@register('C16', gen_boot)
def resample_content(p):
    from kinisi.diffusion import Bootstrap
    arr = 64.0**np.arange(p['k'])
    if p['shape'] == '2d':
        arr = arr[None, :]
    m = max(p['m'], 20)
    d = Bootstrap.sample_until_normal(arr, p['n'], m, m, 0.0, np.random.RandomState(p['seed'] % 2**31))
    check_samples(samples(d), p['n'], p['k'], m)


def check_samples(vals, n, k, m=None):
    vals = [float(v) for v in vals]
    if m is not None:
        require(len(vals) == m, f'{len(vals)} resamples, expected {m}')
    ni = int(n)
    tot = np.zeros(k)
    rep = False
    for v in vals:
        c = decode(v, ni, k)
        require(c is not None, f'{v} is not the mean of {ni} draws from the observations')
        tot += c
        rep |= max(c) > 1
    if len(vals) * ni > 40 * k:
        require(np.all(tot > 0), f'some observations are never drawn: {tot}')
        ex = len(vals) * ni / k
        require(np.all(np.abs(tot - ex) < 6 * math.sqrt(ex) + 5), f'observations are not drawn evenly: {tot}')
    if len(vals) > 60 and ni > 1 and k > 1:
        require(rep, 'drawn without replacement')


def gen_until(ctx):
    for nres in (20, 50, 130, 1000):
        for mx in (10, 20, 60, 130, 250, 1000, 1100):
            for alpha in (0.0, 1.0, 1e-3, 0.5):
                yield dict(seed=ctx.seeds(1)[0], nres=nres, mx=mx, alpha=alpha, skew=bool(ctx.rng.integers(0, 2)), n=4.0)
    for nres, mx in ((200, 200), (200, 150), (300, 299), (400, 401)):
        yield dict(seed=nres, nres=nres, mx=mx, alpha=1e-6, skew=False, n=40.0)
    for nres, mx in ((20, 4200), (400, 1400), (2300, 2550), (3700, 4150), (6100, 6350), (12300, 12450)):
        yield dict(seed=nres, nres=nres, mx=mx, alpha=1.0, skew=True, n=3.0)
    for s in ctx.seeds(ctx.n(30, 400)):
        r = np.random.default_rng(s)
        yield dict(seed=s, nres=int(r.integers(20, 300)), mx=int(r.integers(20, 2000)), alpha=float(r.choice([1e-3, 0.05, 0.5, 0.99])), skew=bool(r.integers(0, 2)), n=float(r.uniform(2, 30)))
    for v in ctx.size_ints(20, 3000):
        yield dict(seed=v, nres=v, mx=v + 250, alpha=1.0, skew=True, n=3.0)
        yield dict(seed=v, nres=30, mx=v, alpha=1.0, skew=True, n=3.0)


@register('C16', gen_until)
def resampling_loop(p):
    from scipy.stats import normaltest
    from kinisi.diffusion import Bootstrap
    arr = 64.0**np.arange(4) if p['skew'] else rng_of(p).normal(10, 1, 200)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        d = Bootstrap.sample_until_normal(arr, p['n'], p['nres'], p['mx'], p['alpha'], np.random.RandomState(p['seed'] % 2**31))
    vals = np.asarray(d.samples)
    L = len(vals)
    require(L >= p['nres'] and (L - p['nres']) % 100 == 0, f'{L} resamples from {p["nres"]} in batches of 100')
    for m in range(p['nres'], L, 100):
        require(m < p['mx'], f'resampling went on at {m} although the maximum is {p["mx"]}')
        require(normaltest(vals[:m])[1] < p['alpha'], f'resampling went on at {m} although the test passed')
    fin = normaltest(vals)[1]
    require(fin >= p['alpha'] or L >= p['mx'] or math.isnan(fin), f'stopped at {L} although the test fails and the maximum {p["mx"]} is not reached')
    warned = any('resample' in str(x.message) for x in w)
    require(warned == (L >= p['mx']), f'warning {warned} with {L} resamples and maximum {p["mx"]}')
    if p['skew']:
        check_samples(vals, p['n'], 4)
    else:
        require(vals.min() >= arr.min() and vals.max() <= arr.max(), 'means outside the observations')


def gen_boot_cls(ctx):
    for kind in ('MSD', 'MSTD', 'MSCD'):
        for dim in ('x', 'xz', 'xyz'):
            for s in ctx.seeds(ctx.n(6, 60)):
                r = np.random.default_rng(s)
                yield dict(seed=s, kind=kind, dim=dim, atoms=int(r.integers(1, 4)), n_int=int(r.integers(2, 6)), sub=int(r.integers(1, 3)), nres=int(r.integers(20, 60)), few=s % 3 == 0)


@register('C16', gen_boot_cls)
def bootstrap_in_estimators(p):
    """Observations are powers of 64, so that every resampled mean reveals what was drawn."""
    rng = rng_of(p)
    A = p['atoms']
    k = p['n_int'] if p['kind'] == 'MSD' else 2 * p['n_int']
    W = 4 if p['kind'] != 'MSD' else 2
    disp = []
    for i in range(k):
        perm = rng.permutation(4)
        d = np.zeros((A if p['kind'] != 'MSD' else 2, W, 3))
        ax = AXES[p['dim']]
        if p['kind'] == 'MSD':
            d[:, :, ax[-1]] = np.sqrt(64.0**perm).reshape(2, 2)
            for c in [c for c in range(3) if c not in ax]:
                d[:, :, c] = 5.0
        else:
            d[int(rng.integers(0, A)), :, ax[0]] = np.sqrt(64.0**perm)
            for c in [c for c in range(3) if c not in ax]:
                d[:, :, c] = 5.0
        disp.append(d)
    nat = disp[0].shape[0]
    dt = np.arange(1, k + 1) * 1.0
    n_o = (np.sort(rng.uniform(1.1, 2.9, k) if p.get('few') else rng.uniform(2.2, 30, k))[::-1]) * (1 if p['kind'] == 'MSD' else nat)
    kw = dict(sub_sample_dt=p['sub'], dimension=p['dim'])
    b = make(p['kind'], disp, dt, n_o, 1, bootstrap=True, n_resamples=p['nres'], max_resamples=p['nres'] + 150, alpha=0.5, random_state=np.random.RandomState(p['seed'] % 2**31), **kw)
    a = make(p['kind'], disp, dt, n_o, 1, **kw)
    for nm in ('n', 'v', 's', 'dt', 'ngp'):
        same(getattr(a, nm), getattr(b, nm), f'{nm} with and without bootstrap')
    idx = list(range(0, k, p['sub']))
    if p['kind'] != 'MSD':
        idx = idx[:len(idx) // 2]
    require(len(b._distributions) == len(idx), f'{len(b._distributions)} distributions for {len(idx)} intervals')
    for d, i in zip(b._distributions, idx):
        ns = n_o[i] if p['kind'] == 'MSD' else n_o[i] / nat
        if abs(ns - round(ns)) < 1e-6:
            continue
        require(len(d.samples) >= p['nres'], 'too few resamples')
        check_samples(d.samples, ns, 4)
    dd = b.to_dict()
    for nm, f in (('n_bootstrap', np.mean), ('v_bootstrap', lambda x: np.var(x, ddof=1)), ('s_bootstrap', lambda x: np.std(x, ddof=1))):
        close(dd[nm], np.array([f(np.asarray(d.samples)) for d in b._distributions]), nm, rtol=1e-9)


# ----------------------------------------------------------------------------------------------------------------
# C17
# ----------------------------------------------------------------------------------------------------------------
def gen_repro(ctx):
    for kind in ('MSD', 'MSTD', 'MSCD'):
        for s in ctx.seeds(ctx.n(6, 60)):
            r = np.random.default_rng(s)
            yield dict(seed=s, kind=kind, rs=int(r.integers(0, 10**6)), bootstrap=bool(r.integers(0, 2)), intercept=bool(r.integers(0, 2)), n_int=6, model=bool(r.integers(0, 2)),
                       via=['gls', 'diffusion', 'jump', 'cond'][r.integers(0, 4)])


def run_analysis(p, rs, g):
    rng = rng_of(p)
    k = p['n_int'] if p['kind'] == 'MSD' else 2 * p['n_int']
    disp, n_o = walk_list(rng, k, 5, 2 * k + 4)
    dt = np.arange(1, k + 1) * 0.5
    if g is not None:
        np.random.seed(g)
        np.random.rand(g % 17)
    mk = (lambda: np.random.RandomState(rs)) if rs is not None else (lambda: None)
    b = make(p['kind'], disp, dt, n_o, 2, bootstrap=p['bootstrap'], n_resamples=40, max_resamples=260, alpha=0.2, random_state=mk())
    if g is not None:
        np.random.seed(g + 5)
    kw = dict(SMALL, fit_intercept=p['intercept'], model=p['model'], random_state=mk())
    if p['via'] == 'gls':
        b.bootstrap_GLS(float(b.dt[1]), **kw)
    elif p['via'] == 'diffusion':
        b.diffusion(float(b.dt[1]), **kw)
    elif p['via'] == 'jump':
        b.jump_diffusion(float(b.dt[1]), **kw)
    else:
        b.conductivity(float(b.dt[1]), 300., 500., **kw)
    return b


@register('C17', gen_repro)
def reproducible(p):
    st = np.random.get_state()
    try:
        a = run_analysis(p, p['rs'], 1)
        b = run_analysis(p, p['rs'], 99)
        c = run_analysis(p, p['rs'] + 1, 99)
        same(a.flatchain, b.flatchain, 'posterior under another state of the global generator')
        same(a.gradient.samples, b.gradient.samples, 'gradient')
        require(len(a._distributions) == len(b._distributions), 'number of distributions')
        for x, y in zip(a._distributions, b._distributions):
            same(x.samples, y.samples, 'bootstrap distribution under another state of the global generator')
        if p['bootstrap']:
            require(any(not np.array_equal(x.samples, y.samples) for x, y in zip(a._distributions, c._distributions)), 'another seed gives the same bootstrap draws')
        require(not np.array_equal(a.flatchain, c.flatchain), 'another seed gives the same posterior draws')
    finally:
        np.random.set_state(st)


@register('C17', gen_repro)
def no_reseeding(p):
    """Without a random state the global generator is consumed, never reset."""
    st = np.random.get_state()
    try:
        a = run_analysis(p, None, 21)
        sa = np.random.get_state()[1].copy()
        b = run_analysis(p, None, 22)
        sb = np.random.get_state()[1].copy()
        require(not np.array_equal(sa, sb), 'the global generator ends in the same state whatever it was before')
        require(not np.array_equal(a.flatchain, b.flatchain), 'the fit is the same whatever the global generator was before')
        if p['bootstrap']:
            require(any(not np.array_equal(x.samples, y.samples) for x, y in zip(a._distributions, b._distributions)), 'bootstrap draws do not depend on the global generator')
    finally:
        np.random.set_state(st)


def gen_seeds(ctx):
    for s in ctx.seeds(2):
        yield dict(seed=s, count=60)
    yield dict(seed=3, count=12, stride=1000)
    yield dict(seed=4, count=12, stride=2**16)


@register('C17', gen_seeds)
def seeds_differ(p):
    """Different seeds give different draws; the same seed the same ones."""
    rng = rng_of(p)
    disp, n_o = walk_list(rng, 4, 3, 12)
    dt = np.arange(1, 5) * 0.5
    seen = {}
    st = np.random.get_state()
    try:
        base = p['seed'] % 2**20
        for j in range(p['count']):
            rs = (base + j * p['stride']) if 'stride' in p else int(rng.integers(0, 2**31))
            b = make('MSD', disp, dt, n_o)
            b.bootstrap_GLS(float(b.dt[0]), n_samples=4, n_walkers=8, n_burn=0, thin=1, progress=False, random_state=np.random.RandomState(rs))
            key = np.asarray(b.flatchain).tobytes()
            require(key not in seen, f'seeds {seen.get(key)} and {rs} give the same draws')
            seen[key] = rs
    finally:
        np.random.set_state(st)


def gen_repro_boot(ctx):
    for s in ctx.seeds(ctx.n(20, 200)):
        yield dict(seed=s, m=int(s % 90) + 5)


@register('C17', gen_repro_boot)
def resample_reproducible(p):
    from kinisi.diffusion import Bootstrap
    arr = rng_of(p).normal(0, 1, 40)
    st = np.random.get_state()
    try:
        out = []
        for g in (1, 2):
            np.random.seed(g)
            out.append([samples(Bootstrap.sample_until_normal(arr, 9.5, p['m'] + 20, mx, 0.5, np.random.RandomState(p['seed'] % 2**31))) for mx in (p['m'] + 20, 400)])
        same(out[0][0], out[1][0], 'resampled means')
        same(out[0][1], out[1][1], 'resampled distribution')
    finally:
        np.random.set_state(st)


# ----------------------------------------------------------------------------------------------------------------
# C18
# ----------------------------------------------------------------------------------------------------------------
STAGES = ['fresh', 'gls', 'gls_noint', 'diffusion', 'diffusion_noint', 'jump', 'cond', 'all', 'refit', 'model']


def gen_dict(ctx):
    for kind in ('MSD', 'MSTD', 'MSCD'):
        for stage in STAGES:
            for boot in (False, True):
                for sub in (1, 2):
                    yield dict(seed=ctx.seeds(1)[0], kind=kind, stage=stage, bootstrap=boot, sub=sub, dim=ctx.pick(DIMS), n_int=6)


def life(p):
    rng = rng_of(p)
    k = (p['n_int'] if p['kind'] == 'MSD' else 2 * p['n_int']) * p['sub']
    disp, n_o = walk_list(rng, k, 4, k + 8)
    if p['bootstrap'] and p['sub'] == 2:
        n_o = np.round(n_o) + 1e-3          # almost, but not quite, whole
    dt = np.arange(1, k + 1) * 0.5
    b = make(p['kind'], disp, dt, n_o, rng.choice([-1., 2.], 4), bootstrap=p['bootstrap'], n_resamples=25, max_resamples=40, sub_sample_dt=p['sub'], dimension=p['dim'],
             random_state=np.random.RandomState(1))
    s0 = float(b.dt[1])
    kw = dict(SMALL, random_state=np.random.RandomState(4))
    st = p['stage']
    if st == 'gls':
        b.bootstrap_GLS(s0, **kw)
    elif st == 'gls_noint':
        b.bootstrap_GLS(s0, fit_intercept=False, **kw)
    elif st == 'diffusion':
        b.diffusion(s0, **kw)
    elif st == 'diffusion_noint':
        b.diffusion(s0, fit_intercept=False, **kw)
    elif st == 'jump':
        b.jump_diffusion(s0, **kw)
    elif st == 'cond':
        b.conductivity(s0, 300, 900., **kw)
    elif st == 'all':
        b.diffusion(s0, **kw)
        b.jump_diffusion(s0, **kw)
        b.conductivity(float(b.dt[0]), 300, 900., **kw)
    elif st == 'refit':
        b.diffusion(s0, **kw)
        b.diffusion(float(b.dt[0]), fit_intercept=False, cond_max=1e7, **kw)
    elif st == 'model':
        b.diffusion(s0, model=True, cond_max=1e9, **kw)
    return b


def deep_same(a, b, what, rtol=None):
    """Equal, element for element; bit for bit unless a tolerance is given (two different computations)."""
    if a is None or b is None:
        require(a is None and b is None, f'{what}: {type(a).__name__} against {type(b).__name__}')
    elif isinstance(a, dict) or isinstance(b, dict):
        require(isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b), f'{what}: keys differ')
        for k in a:
            deep_same(a[k], b[k], f'{what}[{k!r}]', rtol)
    elif isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        require(isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b), f'{what}: lists of different length')
        for i, (x, y) in enumerate(zip(a, b)):
            deep_same(x, y, f'{what}[{i}]', rtol)
    elif isinstance(a, (str, bytes, np.bytes_, np.str_)) or isinstance(b, (str, bytes, np.bytes_, np.str_)):
        d = [x.decode() if isinstance(x, bytes) else str(x) for x in (a, b)]
        require(d[0] == d[1], f'{what}: {a!r} against {b!r}')
    elif rtol is None:
        same(a, b, what)
    else:
        w = np.asarray(a, float)
        w = w[np.isfinite(w)]
        scale = float(np.max(np.abs(w))) if w.size else 0.0
        # the non-Gaussian parameter is a difference of numbers of order one
        close(b, a, what, rtol=rtol, atol=rtol * scale + (rtol if 'ngp' in what else 0) + 1e-300)


def samples(d):
    return None if d is None else np.asarray(d.samples)


def compare_boot(a, b, what='rebuilt ', rtol=None):
    for nm in ('dt', 'n', 's', 'v', 'ngp', 'covariance_matrix', 'flatchain', 'dims'):
        deep_same(getattr(a, nm), getattr(b, nm), what + nm, rtol)
    for nm in ('gradient', 'intercept', 'D', 'D_J', 'sigma'):
        deep_same(samples(getattr(a, nm)), samples(getattr(b, nm)), what + nm, rtol)
    deep_same([samples(d) for d in a.euclidian_displacements], [samples(d) for d in b.euclidian_displacements], what + 'euclidian_displacements', rtol)
    deep_same([samples(d) for d in a._distributions], [samples(d) for d in b._distributions], what + 'distributions', rtol)
    deep_same(a.to_dict(), b.to_dict(), what + 'dictionary', rtol)


@register('C18', gen_dict)
def dict_round_trip(p):
    import kinisi.diffusion as D
    a = life(p)
    keep = copy.deepcopy(a.to_dict())
    cls = type(a) if p['seed'] % 2 else D.Bootstrap
    b = cls.from_dict(a.to_dict())
    compare_boot(a, b)
    deep_same(a.to_dict(), keep, 'original after the round trip')
    # behaves the same afterwards
    st = np.random.get_state()
    try:
        outs = []
        for o in (a, b, cls.from_dict(b.to_dict())):
            if a.gradient is not None:
                np.random.seed(7)
                ppd = o.posterior_predictive(n_posterior_samples=3, n_predictive_samples=2, progress=False)
            else:
                ppd = None
            outs.append([ppd])
        for o, rec in zip((a, b), outs):
            kw = dict(SMALL, random_state=np.random.RandomState(9))
            o.diffusion(float(o.dt[0]), **kw)
            rec.append(samples(o.D))
            o.jump_diffusion(float(o.dt[1]), **kw)
            rec.append(samples(o.D_J))
            o.conductivity(float(o.dt[1]), 400., 77., fit_intercept=False, **kw)
            rec.append(samples(o.sigma))
        deep_same(outs[0][0], outs[2][0], 'posterior predictive of the object rebuilt twice')
        for x, y, nm in zip(outs[0], outs[1], ('posterior predictive', 'diffusion', 'jump diffusion', 'conductivity')):
            deep_same(x, y, nm + ' of the rebuilt object')
        compare_boot(a, b, 'after further fits ')
    finally:
        np.random.set_state(st)


def gen_dict_few(ctx):
    for kind in ('MSD', 'MSTD', 'MSCD'):
        for n in (1, 2):
            for sub in (1, 2):
                yield dict(seed=ctx.seeds(1)[0], kind=kind, n=n, sub=sub, dim=ctx.pick(DIMS))


@register('C18', gen_dict_few)
def dict_of_few_intervals(p):
    import kinisi.diffusion as D
    rng = rng_of(p)
    k = (p['n'] if p['kind'] == 'MSD' else 2 * p['n']) * p['sub']
    disp, n_o = walk_list(rng, k, 4, k + 8)
    a = make(p['kind'], disp, np.arange(1., k + 1), n_o, 2, bootstrap=True, n_resamples=25, max_resamples=40, sub_sample_dt=p['sub'], dimension=p['dim'], random_state=np.random.RandomState(1))
    b = D.Bootstrap.from_dict(a.to_dict())
    require(len(a._distributions) == p['n'], 'distributions')
    compare_boot(a, b)
    compare_boot(a, type(a).from_dict(b.to_dict()), 'rebuilt twice ')


# ----------------------------------------------------------------------------------------------------------------
# C20
# ----------------------------------------------------------------------------------------------------------------
KB_EV = 1.380649e-23 / 1.602176634e-19


def gen_arr(ctx):
    for s in ctx.seeds(ctx.n(80, 1000)):
        r = np.random.default_rng(s)
        yield dict(seed=s, scalar=bool(r.integers(0, 2)), n=int(r.integers(1, 12)))


@register('C20', gen_arr)
def laws(p):
    from kinisi.arrhenius import arrhenius, super_arrhenius
    rng = rng_of(p)
    T = float(rng.uniform(150, 2000)) if p['scalar'] else rng.uniform(150, 2000, p['n'])
    E, A, T0 = float(rng.uniform(0, 1.5)), float(10**rng.uniform(-8, 5)), float(rng.uniform(0, 140))
    if p['seed'] % 5 == 0:
        E, T0 = float(rng.uniform(0, 0.2)), float(rng.uniform(2100, 2500))          # below T0 the law still is the formula

    close(arrhenius(T, E, A), A * np.exp(-E / (KB_EV * T)), 'Arrhenius law', rtol=1e-7)
    close(super_arrhenius(T, E, A, T0), A * np.exp(-E / (KB_EV * (T - T0))), 'VTF law', rtol=1e-7)
    close(super_arrhenius(T, E, A, 0.0), arrhenius(T, E, A), 'VTF law at T0 = 0', rtol=1e-9)
    if not p['scalar']:
        e, a = rng.uniform(0, 1, (1, 5)), rng.uniform(1, 9, (1, 5))
        close(arrhenius(T[:, None], e, a), a * np.exp(-e / (KB_EV * T[:, None])), 'Arrhenius law, arrays', rtol=1e-7)


def gen_arr_cls(ctx):
    for s in ctx.seeds(ctx.n(25, 250)):
        yield dict(seed=s)


@register('C20', gen_arr_cls)
def arrhenius_objects(p):
    from uravu.distribution import Distribution
    from kinisi.arrhenius import StandardArrhenius, SuperArrhenius
    rng = rng_of(p)
    st = np.random.get_state()
    np.random.seed(p['seed'] % 2**31)
    try:
        def data():
            T = np.sort(rng.uniform(300, 900, 4))
            if rng.integers(0, 2):
                T = T[::-1].copy()
            D = [Distribution(rng.normal(1e-5 * (i + 1), 1e-7, 40)) for i in range(4)]
            return T, D
        objs = []
        for rep in range(3):
            T, D = data()
            T2, D2 = data()
            ub = ((0.1, 0.7), (1e-3, 50.))
            if rep == 0:
                s, g = StandardArrhenius(T, D), SuperArrhenius(T2, D2)
                sb, gb = ((0, 1), (0, 1e20)), [(0, 1), (0, 1e20), (0, T2[0])]
            elif rep == 1:
                s, g = StandardArrhenius(T, D, ub), SuperArrhenius(T2, D2, ((0.1, 0.7), (1e-3, 50.), (5., 99.)))
                sb, gb = ub, ((0.1, 0.7), (1e-3, 50.), (5., 99.))
            else:
                mine = [(0.2, 0.6), (1., 2.), (0, None)]
                s, g = StandardArrhenius(T, D), SuperArrhenius(T2, D2, mine)
                sb, gb = ((0, 1), (0, 1e20)), [(0.2, 0.6), (1., 2.), (0, T2[0])]
                require(mine == [(0.2, 0.6), (1., 2.), (0, None)], 'the bounds of the caller were changed')
            objs.append((s, g, sb, gb, T, T2))
        for s, g, sb, gb, T, T2 in objs:
            require([tuple(map(float, b)) for b in s.bounds] == [tuple(map(float, b)) for b in sb], f'standard bounds {s.bounds}, expected {sb}')
            require([tuple(map(float, b)) for b in g.bounds] == [tuple(map(float, b)) for b in gb], f'super bounds {g.bounds}, expected {gb}')
            same(s.x, T, 'temperatures')
            same(g.x, T2, 'temperatures')
            m = 30
            e, a, t0 = rng.uniform(0, 1, m), rng.uniform(1, 9, m), rng.uniform(0, 200, m)
            s.variables = [Distribution(e), Distribution(a)]
            g.variables = [Distribution(e), Distribution(a), Distribution(t0)]
            for o in (s, g):
                same(o.activation_energy.samples, e, 'activation energy')
                same(o.preexponential_factor.samples, a, 'prefactor')
            same(g.T0.samples, t0, 'T0')
            close(s.distribution, a[None] * np.exp(-e[None] / (KB_EV * T[:, None])), 'standard distribution', rtol=1e-7)
            close(g.distribution, a[None] * np.exp(-e[None] / (KB_EV * (T2[:, None] - t0[None]))), 'super distribution', rtol=1e-7)
            Tx = float(rng.uniform(250, 1500))
            close(np.asarray(s.extrapolate(Tx)), a * np.exp(-e / (KB_EV * Tx)), 'standard extrapolation', rtol=1e-7)
            close(np.asarray(g.extrapolate(Tx)), a * np.exp(-e / (KB_EV * (Tx - t0))), 'super extrapolation', rtol=1e-7)
            close(s.function(Tx, 0.3, 2.0), 2.0 * np.exp(-0.3 / (KB_EV * Tx)), 'standard law in use', rtol=1e-7)
            close(g.function(Tx, 0.3, 2.0, 50.0), 2.0 * np.exp(-0.3 / (KB_EV * (Tx - 50.0))), 'super law in use', rtol=1e-7)
        # plain arrays with errors
        T = np.array([400., 500., 600.])
        y = np.array([1e-6, 3e-6, 9e-6])
        s = StandardArrhenius(T, y, diffusion_error=y * 0.1)
        for i in range(3):
            sm = np.asarray(s.y.values[i].samples) if hasattr(s.y, 'values') else np.asarray(s.y[i].samples)
            require(abs(np.mean(sm) - y[i]) < 0.02 * y[i] and abs(np.std(sm) - 0.1 * y[i]) < 0.02 * y[i], 'diffusion errors not used')
    finally:
        np.random.set_state(st)
