"""C09, C14/C15/C18 front ends, C19, C21."""
import copy, math, os, shutil, tempfile
import numpy as np
from .common import register, also, Fail, require, close, same, raises, rng_of, quiet
from .parser_tests import Traj, parser_class, BACKENDS, mol_data
from . import diffusion_tests as dt_
from .diffusion_tests import deep_same, compare_boot, samples, SMALL, DIMS

SOURCES = ('ase', 'pymatgen', 'Xdatcar', 'file', 'universe')
KINDS = {'D': 'MSD', 'J': 'MSTD', 'C': 'MSCD'}


def analyzer_class(kind):
    import kinisi.analyze as A
    return {'D': A.DiffusionAnalyzer, 'J': A.JumpDiffusionAnalyzer, 'C': A.ConductivityAnalyzer}[kind]


class XD:
    """Stand-in for a parsed Xdatcar: only .structures is used."""

    def __init__(self, structures):
        self.structures = structures


def write_xdatcar(path, tr):
    sym = tr.symbols
    order = []
    for s in sym:
        if not order or order[-1] != s:
            order.append(s)
    counts = []
    i = 0
    for s in order:
        c = 0
        while i < len(sym) and sym[i] == s:
            c += 1
            i += 1
        counts.append(c)
    with open(path, 'w') as f:
        f.write('run\n1.0\n')
        for v in tr.cells[0]:
            f.write(' '.join(f'{x:.12f}' for x in v) + '\n')
        f.write(' '.join(order) + '\n' + ' '.join(map(str, counts)) + '\n')
        for t in range(tr.frames):
            f.write(f'Direct configuration= {t + 1:5d}\n')
            for x in tr.frac[t]:
                f.write(' '.join(f'{y:.12f}' for y in x) + '\n')


def gen_combine(ctx):
    for kind in 'DJC':
        for src in SOURCES:
            for dtype in (None, 'identical', 'consecutive'):
                if src == 'universe' and dtype == 'consecutive':
                    continue
                for ntraj in ((1, ) if dtype is None else (1, 2, 3)):
                    yield dict(seed=ctx.seeds(1)[0], kind=kind, src=src, dtype=dtype, ntraj=ntraj, opts=int(ctx.rng.integers(0, 4)))
                    if ntraj == 2:
                        for popts in range(1, len(POPTS)):
                            yield dict(seed=ctx.seeds(1)[0], kind=kind, src=src, dtype=dtype, ntraj=ntraj + popts % 2, opts=0, popts=popts, same_ends=True)
    for s in ctx.seeds(ctx.n(10, 150)):
        r = np.random.default_rng(s)
        yield dict(seed=s, kind='DJC'[r.integers(0, 3)], src=SOURCES[r.integers(0, 4)], dtype=['identical', 'consecutive'][r.integers(0, 2)], ntraj=int(r.integers(2, 7)), opts=int(r.integers(0, 4)), popts=int(r.integers(0, len(POPTS))))


POPTS = [{}, dict(framework_indices=[3]), dict(sub_sample_traj=2), dict(spacing='logarithmic'), dict(sampling='single-origin'), dict(min_dt=12.0), dict(max_dt=48.0), dict(framework_indices=[])]
UOPTS = [{}, dict(sub_sample_dt=2), dict(dimension='xz'), dict(dimension='y', sub_sample_dt=2)]


def build(p):
    """(analyzer factory, list of parsers expected, their parameters, scratch dir)."""
    rng = rng_of(p)
    symbols = ['Li'] * 3 + ['O'] * 2
    trs = [Traj(np.random.default_rng([p['seed'], j]), frames=p.get('frames', 14), symbols=symbols, kind='ortho') for j in range(p['ntraj'])]
    if p.get('same_ends'):          # each begins where the one before ended
        for a, b in zip(trs, trs[1:]):
            b.frac[0], b.cells[0] = a.frac[-1], a.cells[-1]
    tmp = tempfile.mkdtemp(prefix='kv_')
    src = p['src']
    backend = {'ase': 'ase', 'pymatgen': 'pymatgen', 'Xdatcar': 'pymatgen', 'file': 'pymatgen', 'universe': 'mda'}[src]
    objs = [t.obj(backend) for t in trs]
    if src == 'Xdatcar':
        given = [XD(o) for o in objs]
    elif src == 'file':
        given, objs = [], []
        from pymatgen.io.vasp import Xdatcar
        for j, t in enumerate(trs):
            path = os.path.join(tmp, f'XDATCAR{(7 - 3 * j) % 10}')
            write_xdatcar(path, t)
            given.append(path)
            objs.append(Xdatcar(path).structures)
    else:
        given = objs
    par = dict(specie='Li', time_step=2.0, step_skip=3, progress=False, n_steps=p.get('n_steps', 6), min_dt=None)
    par.update(POPTS[p.get('popts', 0)])
    cls = parser_class(backend)
    return given, objs, par, cls, tmp


def expected(p, objs, par, cls):
    if p['dtype'] is None:
        u = [cls(objs[0], **par)]
    elif p['dtype'] == 'consecutive':
        allf = []
        for o in objs:
            allf += list(o)
        u = [cls(allf, **par)]
    else:
        u = [cls(o, **par) for o in objs]
    disp = [np.concatenate([np.asarray(x.disp_3d[i], float) for x in u], axis=0) for i in range(len(u[0].disp_3d))]
    n_o = sum(np.asarray(x._n_o, float) for x in u)
    return np.array(u[0].delta_t), disp, n_o, u[0].volume


@register('C09', gen_combine)
def combine(p):
    given, objs, par, cls, tmp = build(p)
    try:
        A = analyzer_class(p['kind'])
        meth = getattr(A, 'from_' + p['src'])
        traj = given[0] if p['dtype'] is None else given
        uo = dict(UOPTS[p['opts']], progress=False)
        kw = {}
        q = [2.0, -1.0, 0.5] * (p['ntraj'] if p['dtype'] == 'identical' else 1)
        if p['kind'] == 'C' and p['opts'] % 2:
            kw['ionic_charge'] = np.array(q)
        elif p['kind'] == 'C' and p['seed'] % 2:
            kw['ionic_charge'] = 3
        charge = kw.get('ionic_charge', 1)
        args = [traj, dict(par)]
        if p['dtype'] is None and p['seed'] % 2:
            a = meth(*args, uncertainty_params=uo, **kw)
        else:
            a = meth(*args, dtype=p['dtype'], uncertainty_params=uo, **kw)
        require(type(a) is A, f'result is a {type(a).__name__}')
        dt, disp, n_o, vol = expected(p, objs, par, cls)
        close(a._delta_t, dt, 'time intervals', rtol=1e-12)
        require(len(a._disp_3d) == len(disp), f'{len(a._disp_3d)} displacement arrays, expected {len(disp)}')
        for i, (x, y) in enumerate(zip(a._disp_3d, disp)):
            close(x, y, f'displacements of interval {i}', rtol=1e-12, atol=1e-12)
        close(a._n_o, n_o, 'independent observations', rtol=1e-12)
        close(a.volume, vol, 'volume', rtol=1e-12)
        want = dt_.make(KINDS[p['kind']], disp, dt, n_o, charge, **{k: v for k, v in uo.items()})
        require(type(a._diff).__name__ == type(want).__name__, f'estimator {type(a._diff).__name__}')
        # MDAnalysis coordinates are single precision
        rtol = 1e-4 if p['src'] == 'universe' else 1e-8
        compare_boot(want, a._diff, 'analysis ', rtol)
        nm = {'D': 'msd', 'J': 'mstd', 'C': 'mscd'}[p['kind']]
        for got, w, what in ((a.dt, want.dt, 'dt'), (getattr(a, nm), want.n, nm), (getattr(a, nm + '_std'), want.s, nm + '_std')):
            close(got, w, what, rtol=rtol)
        deep_same([samples(d) for d in want.euclidian_displacements], [samples(d) for d in a.dr], 'dr', rtol)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def gen_combine_bad(ctx):
    for kind in 'DJC':
        for src in SOURCES:
            for d in ('Identical', 'ident', '', 'consecutive ') + (('consecutive', ) if src == 'universe' else ()):
                yield dict(seed=3, kind=kind, src=src, dtype=d, ntraj=2, opts=0)


@register('C09', gen_combine_bad)
def unknown_declaration(p):
    given, objs, par, cls, tmp = build(p)
    try:
        meth = getattr(analyzer_class(p['kind']), 'from_' + p['src'])
        raises(ValueError, lambda: meth(given, dict(par), dtype=p['dtype']), f'dtype {p["dtype"]!r}')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def gen_stack(ctx):
    for s in ctx.seeds(ctx.n(20, 300)):
        r = np.random.default_rng(s)
        yield dict(seed=s, n=int(r.integers(2, 8)), frames=int(r.integers(4, 9)), A=int(r.integers(1, 6)))
    for v in ctx.size_ints(2, 130):
        yield dict(seed=v, n=v, frames=4, A=2)
        yield dict(seed=v, n=2, frames=4, A=v)
        yield dict(seed=v, n=2, frames=v + 2, A=2)


@register('C09', gen_stack)
def stacking(p):
    """Many identical trajectories: displacements one trajectory after another, observations summed."""
    from kinisi.analyze import DiffusionAnalyzer
    cls = parser_class('ase')
    trs = [Traj(np.random.default_rng([p['seed'], j]), frames=p['frames'], symbols=['Li'] * p['A'] + ['O'], kind='ortho').obj('ase') for j in range(p['n'])]
    par = dict(specie='Li', time_step=1.0, step_skip=2, progress=False, min_dt=None)
    us = [cls(t, **par) for t in trs]
    a = DiffusionAnalyzer.from_ase(trs, dict(par), dtype='identical', uncertainty_params=dict(progress=False))
    require(len(a._disp_3d) == len(us[0].disp_3d), f'{len(a._disp_3d)} arrays')
    for i in range(len(us[0].disp_3d)):
        close(a._disp_3d[i], np.concatenate([u.disp_3d[i] for u in us], axis=0), f'stacked displacements {i}', rtol=1e-12)
    close(a._n_o, sum(np.asarray(u._n_o, float) for u in us), 'independent observations', rtol=1e-12)
    close(a.volume, us[0].volume, 'volume', rtol=1e-12)


# ----------------------------------------------------------------------------------------------------------------
# an analysis with displacement data (no parsing)
# ----------------------------------------------------------------------------------------------------------------
def analysis(p, fitted=True):
    rng = rng_of(p)
    kind = p['kind']
    n_int = p.get('n_int', 7)
    k = (n_int if kind == 'D' else 2 * n_int) * p.get('sub', 1)
    disp, n_o = dt_.walk_list(rng, k, p.get('atoms', 4), k + 8)
    dt = np.arange(1, k + 1) * 0.5
    vol = float(rng.uniform(100, 900))
    a = analyzer_class(kind)(dt, disp, n_o, vol)
    a._diff = dt_.make(KINDS[kind], disp, dt, n_o, rng.choice([-1., 2.], p.get('atoms', 4)), sub_sample_dt=p.get('sub', 1), dimension=p.get('dim', 'xyz'),
                       bootstrap=p.get('bootstrap', False), n_resamples=25, max_resamples=40, random_state=np.random.RandomState(1))
    if fitted:
        kw = dict(SMALL, fit_intercept=p.get('intercept', True), random_state=np.random.RandomState(4))
        fit(a, kind, float(a.dt[1]), kw)
    return a


def fit(a, kind, start, kw, T=300.0):
    if kind == 'D':
        a.diffusion(start, kw)
    elif kind == 'J':
        a.jump_diffusion(start, kw)
    else:
        a.conductivity(start, T, kw)


def coeff(a, kind):
    return {'D': lambda: a.D, 'J': lambda: a.D_J, 'C': lambda: a.sigma}[kind]()


def gen_front(ctx):
    for kind in 'DJC':
        for dim in DIMS:
            yield dict(seed=ctx.seeds(1)[0], kind=kind, dim=dim, atoms=int(ctx.rng.integers(2, 8)), T=float(ctx.rng.uniform(200, 900)), intercept=bool(ctx.rng.integers(0, 2)))


@register('C14', gen_front)
def front_end_units(p):
    a = analysis(p, fitted=False)
    kw = dict(n_samples=12, n_walkers=6, n_burn=3, thin=2, progress=False, fit_intercept=p['intercept'])
    fit(a, p['kind'], float(a.dt[2]), kw, p['T'])
    g = np.asarray(a._diff.gradient.samples)
    nd = len(p['dim'])
    base = g / (2e4 * nd)
    if p['kind'] == 'J':
        base = base / p['atoms']
    if p['kind'] == 'C':
        e, kB = 1.602176634e-19, 1.380649e-23
        base = base * 1000 * e**2 / (a.volume * 1e-24 * kB * p['T'])
    close(coeff(a, p['kind']).samples, base, 'coefficient of the analysis', rtol=1e-8)
    require(len(g) == 36, f'options not passed to the fit: {len(g)} samples')
    require(np.asarray(a._diff.covariance_matrix).shape[0] == len(a.dt) - 2, 'start time not passed to the fit')
    require((a.intercept is None) == (not p['intercept']), 'intercept option not passed')
    fit(a, p['kind'], float(a.dt[1]), None, p['T']) if p['seed'] % 5 == 0 else None


def gen_views(ctx):
    for kind in 'DJC':
        for ic in (True, False):
            for s in ctx.seeds(ctx.n(4, 40)):
                yield dict(seed=s, kind=kind, intercept=ic, n_int=4 + s % 5, dim=DIMS[s % 7], sub=1 + s % 2)


@register('C15', gen_views)
def analysis_views(p):
    a = analysis(p)
    g = np.asarray(a._diff.gradient.samples)
    c = np.asarray(a.intercept.samples) if p['intercept'] else np.zeros(len(g))
    dt = np.asarray(a.dt)
    close(a.distribution, g[None] * dt[:, None] + c[None], 'line distribution', rtol=1e-9)
    ngp = np.asarray(a._diff.ngp)
    close(a.ngp_max, dt[int(np.argmax(ngp))], 'time of the largest non-Gaussian parameter')
    if p['intercept']:
        close(a.flatchain, np.stack([np.asarray(coeff(a, p['kind']).samples), c], axis=1), 'sampling table', rtol=1e-12)
    st = np.random.get_state()
    try:
        np.random.seed(3)
        x = a.posterior_predictive(dict(n_posterior_samples=4, n_predictive_samples=3, progress=False))
        np.random.seed(3)
        y = a._diff.posterior_predictive(n_posterior_samples=4, n_predictive_samples=3, progress=False)
        same(x, y, 'posterior predictive of the analysis')
        require(np.shape(a.posterior_predictive(dict(n_predictive_samples=2, progress=False)))[0] == 2 * len(g), 'default number of posterior samples')
        if p['seed'] % 4 == 0:
            require(np.shape(a.posterior_predictive())[0] == 256 * len(g), 'default sample numbers')
    finally:
        np.random.set_state(st)


# ----------------------------------------------------------------------------------------------------------------
# C18 analyses, C19 files
# ----------------------------------------------------------------------------------------------------------------
def gen_front_random(ctx):
    for kind in 'DJC':
        for s in ctx.seeds(ctx.n(2, 10)):
            yield dict(seed=s, kind=kind, n_int=5, sub=1, dim='xyz')


@register('C17', gen_front_random)
def analyses_do_not_reseed(p):
    """Without a random state an analysis uses the global generator and never resets it; with one it does not depend on it."""
    st = np.random.get_state()
    try:
        for given in (False, True):
            out, after = [], []
            for g in (31, 32):
                a = analysis(p, False)
                np.random.seed(g)
                fit(a, p['kind'], float(a.dt[1]), dict(SMALL, **(dict(random_state=np.random.RandomState(9)) if given else {})))
                out.append(np.asarray(a.flatchain))
                after.append(np.random.get_state()[1].copy())
            if given:
                same(out[0], out[1], 'fit of an analysis under another state of the global generator')
            else:
                require(not np.array_equal(out[0], out[1]), 'the fit of an analysis is the same whatever the global generator was before')
                require(not np.array_equal(after[0], after[1]), 'the global generator ends in the same state whatever it was before')
    finally:
        np.random.set_state(st)


def gen_an(ctx):
    for kind in 'DJC':
        for fitted in (False, True):
            for boot in (False, True):
                for ic in (True, False):
                    yield dict(seed=ctx.seeds(1)[0], kind=kind, fitted=fitted, bootstrap=boot, intercept=ic, sub=int(ctx.rng.integers(1, 3)), dim=ctx.pick(DIMS), n_int=int(ctx.rng.integers(3, 14)))
    for v in ctx.size_ints(5, 130):
        yield dict(seed=v, kind='D', fitted=True, bootstrap=True, intercept=True, sub=1, dim='xyz', n_int=v)


def compare_analysis(a, b, what):
    require(type(a) is type(b), f'{what}: a {type(b).__name__}')
    deep_same(a._delta_t, b._delta_t, what + ' times')
    deep_same(list(a._disp_3d), list(b._disp_3d), what + ' displacements')
    deep_same(a._n_o, b._n_o, what + ' observation counts')
    deep_same(a.volume, b.volume, what + ' volume')
    compare_boot(a._diff, b._diff, what + ' ')
    deep_same(a.to_dict(), b.to_dict(), what + ' dictionary')


def same_behaviour(a, b, kind, what):
    st = np.random.get_state()
    try:
        kw = lambda: dict(SMALL, random_state=np.random.RandomState(8))
        for o in (a, b):
            fit(o, kind, float(o.dt[0]), kw(), 450.0)
        deep_same(samples(coeff(a, kind)), samples(coeff(b, kind)), what + ' refit')
        out = []
        for o in (a, b):
            np.random.seed(5)
            out.append(o.posterior_predictive(dict(n_posterior_samples=3, n_predictive_samples=2, progress=False)))
        same(out[0], out[1], what + ' posterior predictive')
        same(a.distribution, b.distribution, what + ' distribution')
        same(a.ngp_max, b.ngp_max, what + ' ngp_max')
    finally:
        np.random.set_state(st)


@register('C18', gen_an)
def analysis_dict(p):
    a = analysis(p, p['fitted'])
    b = type(a).from_dict(a.to_dict())
    compare_analysis(a, b, 'rebuilt analysis')
    same_behaviour(a, b, p['kind'], 'rebuilt analysis')


@register('C19', gen_an)
def file_round_trip(p):
    a = analysis(p, p['fitted'])
    tmp = tempfile.mkdtemp(prefix='kv_')
    try:
        f = os.path.join(tmp, 'run')
        a.save(f)
        require(os.path.exists(f + '.hdf'), 'file not written as run.hdf')
        b = type(a).load(f)
        compare_analysis(a, b, 'loaded analysis')
        b.save(os.path.join(tmp, 'again.hdf'))
        c = type(a).load(os.path.join(tmp, 'again'))
        compare_analysis(a, c, 'analysis loaded twice')
        same_behaviour(a, b, p['kind'], 'loaded analysis')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def gen_names(ctx):
    for nm in ('run', 'RUN', 'Run.HDF', 'Sub/Run.Hdf5', './run', 'run.hdf', 'run.hdf5', 'run.v1', 'a.b/run', 'a.b/run.x', 'sub/run', 'run.2.3', '.hidden', 'a.b/.hidden', '../w/run', 'with space', 'run.', '~x'):
        yield dict(seed=3, kind='D', name=nm, absolute=False)
        yield dict(seed=4, kind='D', name=nm, absolute=True)


@register('C19', gen_names)
def file_names(p):
    a = analysis(dict(p, n_int=3), False)
    tmp = tempfile.mkdtemp(prefix='kv.d_')
    cwd = os.getcwd()
    try:
        work = os.path.join(tmp, 'w')
        for d in (work, os.path.join(work, 'a.b'), os.path.join(work, 'sub'), os.path.join(work, 'Sub')):
            os.makedirs(d)
        os.chdir(work)
        name = os.path.join(work, p['name']) if p['absolute'] else p['name']
        stem = os.path.splitext(name)[0]
        before = snapshot(tmp)
        a.save(name)
        want = os.path.normpath(os.path.join(work, stem + '.hdf'))
        new = sorted(set(snapshot(tmp)) - set(before))
        require(new == [want], f'saving as {p["name"]!r} wrote {[os.path.relpath(x, work) for x in new]}')
        b = type(a).load(name)
        compare_analysis(a, b, 'loaded analysis')
        b = type(a).load(stem + '.hdf')
        compare_analysis(a, b, 'loaded analysis')
        data = snapshot(tmp)
        other = analysis(dict(p, n_int=4, seed=99), False)
        raises(ValueError, lambda: other.save(name), 'saving over an existing file')
        raises(ValueError, lambda: other.save(stem + '.hdf'), 'saving over an existing file')
        require(snapshot(tmp) == data, 'the existing file was changed')
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as h:
                out[os.path.join(d, f)] = h.read()
    return out


def gen_exist(ctx):
    for content in (b'', b'something else', b'\x89HDF'):
        yield dict(seed=2, kind='D', content=content.hex())


@register('C19', gen_exist)
def foreign_file_kept(p):
    a = analysis(dict(p, n_int=3), False)
    tmp = tempfile.mkdtemp(prefix='kv_')
    try:
        f = os.path.join(tmp, 'x.hdf')
        with open(f, 'wb') as h:
            h.write(bytes.fromhex(p['content']))
        raises(ValueError, lambda: a.save(os.path.join(tmp, 'x')), 'saving over an existing file')
        with open(f, 'rb') as h:
            require(h.read() == bytes.fromhex(p['content']), 'the existing file was changed')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def gen_groups(ctx):
    for s in ctx.seeds(ctx.n(60, 800)):
        yield dict(seed=s)
    for n in [12000, 70000] + ctx.size_ints(50, 200000):
        yield dict(seed=n, big=n)


@register('C19', gen_groups)
def group_round_trip(p):
    """Random dictionaries of the kinds an analysis consists of."""
    from kinisi.analyzer import Analyzer
    rng = rng_of(p)

    def leaf():
        k = int(rng.integers(0, 9))
        return [lambda: rng.normal(size=int(rng.integers(0, 6))), lambda: rng.normal(size=(int(rng.integers(1, 4)), 2, 3)), lambda: float(rng.normal()), lambda: int(rng.integers(-9, 9)),
                lambda: None, lambda: 'text%d' % rng.integers(0, 99), lambda: b'bytes', lambda: np.float64(rng.normal()), lambda: bool(rng.integers(0, 2))][k]()

    def flat():
        return {f'k{i}': leaf() for i in range(int(rng.integers(1, 5)))}

    def full(depth):
        out = flat()
        for i in range(int(rng.integers(1, 5))):
            k = int(rng.integers(0, 3))
            if k == 0:
                out[f'arrs{i}'] = [rng.normal(size=(2, int(rng.integers(1, 4)))) for _ in range(int(rng.integers(1, 24)))]
            elif k == 1:
                out[f'dicts{i}'] = [{'name': 'n%d' % j, 'samples': rng.normal(size=3)} for j in range(int(rng.integers(1, 24)))]
            elif depth < 2:
                out[f'sub{i}'] = full(depth + 1)
        return out

    d = full(0)
    if p.get('big'):
        n = p['big']
        d['big'] = rng.normal(size=n)
        d['bigs'] = [rng.normal(size=(2, n // 6 + 1, 3)), rng.normal(size=(1, n // 3 + 1, 3))]
        d['bigd'] = [{'name': 'n', 'samples': rng.normal(size=n)}]
        if n <= 300:
            d['many'] = [rng.normal(size=2) for _ in range(n)]
            d['manyd'] = [{'name': 'n%d' % j, 'samples': rng.normal(size=2)} for j in range(n)]

    class Any(Analyzer):
        def __init__(self, content):
            self.content = content

        def to_dict(self):
            return self.content

        @classmethod
        def from_dict(cls, my_dict):
            return cls(my_dict)

    tmp = tempfile.mkdtemp(prefix='kv_')
    try:
        Any(d).save(os.path.join(tmp, 'x'))
        got = Any.load(os.path.join(tmp, 'x')).content
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    deep_same(d, got, 'stored dictionary')


# ----------------------------------------------------------------------------------------------------------------
# C21
# ----------------------------------------------------------------------------------------------------------------
def freeze(x):
    """A comparable snapshot of user data."""
    if isinstance(x, np.ndarray):
        return ('arr', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, dict):
        return ('dict', tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if x is None or isinstance(x, (int, float, str, bytes, bool, np.generic)):
        return x
    n = type(x).__name__
    if n == 'Atoms':
        return (n, freeze(x.get_positions()), freeze(np.array(x.cell[:])), freeze(x.get_atomic_numbers()))
    if n == 'Structure':
        return (n, freeze(np.array(x.frac_coords)), freeze(np.array(x.lattice.matrix)), tuple(str(s.specie) for s in x))
    if n == 'Universe':
        fr = x.trajectory.frame
        out = (n, fr, tuple((freeze(np.array(ts.positions)), freeze(np.array(ts.dimensions))) for ts in x.trajectory), tuple(x.atoms.types))
        x.trajectory[fr]
        return out
    if n == 'XD':
        return (n, freeze(x.structures))
    if n == 'Distribution':
        return (n, freeze(np.asarray(x.samples)))
    return repr(type(x))


class Guard:
    def __init__(self, what, **data):
        self.what, self.data = what, data

    def __enter__(self):
        self.before = {k: freeze(v) for k, v in self.data.items()}

    def __exit__(self, et, ev, tb):
        if et is not None:
            return False
        for k, v in self.data.items():
            require(freeze(v) == self.before[k], f'{self.what} changed {k}')


def gen_frame_parser(ctx):
    for b in BACKENDS:
        for s in ctx.seeds(ctx.n(12, 120)):
            r = np.random.default_rng(s)
            yield dict(seed=s, backend=b, how=['species', 'list', 'index', 'mol', 'base'][r.integers(0, 5)], fw=['none', 'empty', 'list'][r.integers(0, 3)],
                       sampling=['multi-origin', 'single-origin'][r.integers(0, 2)])


@register('C21', gen_frame_parser)
def parsing_changes_nothing(p):
    from kinisi.parser import Parser
    rng = rng_of(p)
    n = 6
    tr = Traj(rng, frames=9, symbols=['Li', 'O', 'Li', 'O', 'Li', 'Na'], kind='npt_ortho')
    obj = tr.obj(p['backend'])
    fw = {'none': None, 'empty': [], 'list': [4, 2, 4]}[p['fw']]
    kw = dict(time_step=1.0, step_skip=2, sub_sample_traj=1 + p['seed'] % 2, progress=False, framework_indices=fw, n_steps=4, sampling=p['sampling'])
    if p['seed'] % 3 == 0:
        del kw['progress']
    cls = parser_class(p['backend'])
    if p['how'] == 'base':
        disp = np.cumsum(rng.normal(size=(n, 12, 3)), axis=1)
        ind, dr = [4, 0, 2], ([] if p['fw'] == 'empty' else [3, 1])
        if p['seed'] % 2:
            ind, dr = np.array(ind), np.array(dr, dtype=int)
        with Guard('Parser', disp=disp, indices=ind, drift_indices=dr):
            a = Parser(disp, ind, dr, 1.0, 1, progress=False, sampling=p['sampling'])
        with Guard('Parser', disp=disp, indices=ind, drift_indices=dr):
            b = Parser(disp, ind, dr, 1.0, 1, progress=False, sampling=p['sampling'])
        frac = rng.uniform(0, 1, (5, n, 3))
        coords, latt = [f[:, None] for f in frac], [np.eye(3) * 7 for _ in range(5)]
        with Guard('get_disp', coords=coords, latt=latt):
            Parser.get_disp(coords, latt, progress=False)
    else:
        mols = [[1, 3], [5, 2]]
        masses = [1.0, 16.0]
        spec = {'species': 'Li', 'list': ['Na', 'Li'], 'index': None, 'mol': None}[p['how']]
        if p['how'] == 'index':
            kw['specie_indices'] = [4, 0, 2]
        if p['how'] == 'mol':
            kw.update(specie_indices=mols, masses=masses)
        with Guard('parser', trajectory=obj, specie=spec, options=kw):
            a = cls(obj, spec, **kw)
        with Guard('parser', trajectory=obj, specie=spec, options=kw):
            b = cls(obj, spec, **kw)
    deep_same(list(a.disp_3d), list(b.disp_3d), 'second parse of the same data: displacements')
    deep_same(a.delta_t, b.delta_t, 'second parse of the same data: times')
    deep_same(a._n_o, b._n_o, 'second parse of the same data: observations')


def gen_frame_est(ctx):
    for kind in ('MSD', 'MSTD', 'MSCD'):
        for s in ctx.seeds(ctx.n(8, 80)):
            r = np.random.default_rng(s)
            yield dict(seed=s, kind=kind, dim=DIMS[r.integers(0, 7)], sub=int(r.integers(1, 3)), bootstrap=bool(r.integers(0, 2)), charge=['scalar', 'array', 'list'][r.integers(0, 3)],
                       intercept=bool(r.integers(0, 2)), model=bool(r.integers(0, 2)))


@register('C21', gen_frame_est)
def estimating_changes_nothing(p):
    rng = rng_of(p)
    k = 14 * p['sub']
    disp, n_o = dt_.walk_list(rng, k, 4, k + 6)
    dt = np.arange(1, k + 1) * 0.5
    q = dt_.charges(dict(p, atoms=4), rng)
    kw = lambda: dict(sub_sample_dt=p['sub'], dimension=p['dim'], bootstrap=p['bootstrap'], n_resamples=25, max_resamples=40, random_state=np.random.RandomState(2))
    with Guard('estimator', disp=disp, dt=dt, n_o=n_o, charge=q):
        a = dt_.make(p['kind'], disp, dt, n_o, q, **kw())
    n0, v0, d0 = np.array(a.n), np.array(a.v), np.array(a.dt)
    fk = lambda: dict(SMALL, fit_intercept=p['intercept'], model=p['model'], random_state=np.random.RandomState(3))
    with Guard('fit', disp=disp, dt=dt, n_o=n_o, charge=q):
        a.diffusion(float(a.dt[1]), **fk())
        a.jump_diffusion(float(a.dt[1]), **fk())
        a.conductivity(float(a.dt[1]), 300., 400., **fk())
        a.posterior_predictive(n_posterior_samples=3, n_predictive_samples=2, progress=False)
        a.to_dict()
    same(a.n, n0, 'means after fitting')
    same(a.v, v0, 'variances after fitting')
    same(a.dt, d0, 'times after fitting')
    b = dt_.make(p['kind'], disp, dt, n_o, q, **kw())
    same(b.n, n0, 'second estimator on the same data: means')
    b.diffusion(float(b.dt[1]), **fk())
    same(b.D.samples, a.D.samples, 'second estimator on the same data: diffusion')
    d = a.to_dict()
    with Guard('from_dict', dictionary=d):
        c = type(a).from_dict(d)
        c.diffusion(float(c.dt[0]), **fk())
        c.conductivity(float(c.dt[1]), 310., 400., **fk())
    same(a.n, n0, 'original after fitting the rebuilt object')


def gen_frame_an(ctx):
    for kind in 'DJC':
        for src in SOURCES:
            for dtype in (None, 'identical', 'consecutive'):
                if src == 'universe' and dtype == 'consecutive':
                    continue
                for bare in (False, True):
                    yield dict(seed=ctx.seeds(1)[0], kind=kind, src=src, dtype=dtype, ntraj=1 if dtype is None else 2, opts=1, frames=26, n_steps=16, bare=bare)


@register('C21', gen_frame_an)
def analysing_changes_nothing(p):
    given, objs, par, cls, tmp = build(p)
    try:
        A = analyzer_class(p['kind'])
        meth = getattr(A, 'from_' + p['src'])
        traj = given[0] if p['dtype'] is None else given
        uo = dict(sub_sample_dt=2 if p['kind'] == 'D' else 1, progress=False)
        if p.get('bare'):
            par, uo = {k: v for k, v in par.items() if k != 'progress'}, {}
        kw = {}
        if p['kind'] == 'C':
            kw['ionic_charge'] = np.array([1., -1., 2.] * (p['ntraj'] if p['dtype'] == 'identical' else 1))
        files = snapshot(tmp)
        with Guard('analysis', trajectory=traj, parser_params=par, uncertainty_params=uo, more=kw):
            a = meth(traj, par, dtype=p['dtype'], uncertainty_params=uo, **kw)
        n0 = np.array(a._diff.n)
        opts = dict(SMALL)
        pp = dict(n_posterior_samples=2, n_predictive_samples=2, progress=False)
        if p.get('bare'):
            opts.pop('progress', None)
            pp.pop('progress')
        with Guard('fit', trajectory=traj, parser_params=par, uncertainty_params=uo, more=kw, options=opts):
            fit(a, p['kind'], float(a.dt[0]), opts)
        with Guard('posterior_predictive', options=pp):
            a.posterior_predictive(pp)
            a.distribution
            a.to_dict()
        b = meth(traj, par, dtype=p['dtype'], uncertainty_params=uo, **kw)
        same(b._diff.n, n0, 'second analysis of the same data')
        deep_same(list(a._disp_3d), list(b._disp_3d), 'displacements of the second analysis')
        same(a._n_o, b._n_o, 'observations of the second analysis')
        require(snapshot(tmp) == files, 'input files were changed')
        c = analyzer_class('D' if p['kind'] != 'D' else 'J')(a._delta_t, a._disp_3d, a._n_o, a.volume)
        same(c._n_o, b._n_o, 'observations shared with another analysis')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def gen_frame_misc(ctx):
    for s in ctx.seeds(ctx.n(20, 200)):
        yield dict(seed=s)


@register('C21', gen_frame_misc)
def helpers_change_nothing(p):
    import kinisi.diffusion as D
    from kinisi.arrhenius import StandardArrhenius, SuperArrhenius
    from uravu.distribution import Distribution
    rng = rng_of(p)
    v, n = rng.uniform(1, 2, 5), rng.uniform(1, 9, 5)
    m = dt_.oracle_cov(np.sort(v), np.sort(n)[::-1])
    arr = rng.normal(size=(3, 7))
    with Guard('minimum_eigenvalue_method', m=m):
        D.minimum_eigenvalue_method(m, 1e2)
    with Guard('sample_until_normal', arr=arr):
        D.Bootstrap.sample_until_normal(arr, 5, 20, 30, 1e-3, np.random.RandomState(1))
    with Guard('ngp_calculation', arr=arr):
        D.Bootstrap.ngp_calculation(arr)
    T = np.array([400., 500., 600., 700.])
    y = [Distribution(rng.normal(1e-5, 1e-7, 30)) for _ in range(4)]
    b3 = [(0, 1), (0, 10.), (0, None)]
    b2 = ((0, 1), (0, 10.))
    with Guard('Arrhenius', T=T, y=y, b2=b2, b3=b3):
        s = StandardArrhenius(T, y, b2)
        g = SuperArrhenius(T, y, b3)
        s.variables = [Distribution(rng.uniform(0, 1, 9)), Distribution(rng.uniform(0, 1, 9))]
        g.variables = s.variables + [Distribution(rng.uniform(0, 1, 9))]
        s.distribution, g.distribution, s.extrapolate(300.), g.extrapolate(300.)
