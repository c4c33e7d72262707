"""C13 the sampled posterior."""
from ..verify import *          # noqa
from ..npmodel import INF, PI
from . import diffusion_specs as ds
from . import c12


def gls_options(v, fit_intercept, model):
    return {'n_samples': v.int_('n_samples', 1), 'n_walkers': v.int_('n_walkers', 4), 'n_burn': v.int_('n_burn', 0), 'thin': v.int_('thin', 1),
            'cond_max': v.real('cond', 0, True), 'fit_intercept': fit_intercept, 'model': model, 'progress': False}


def log_density(e, A, m, r, cov, g, c):
    """Multivariate normal log-density of the fitted values about g*t + c."""
    n = m - r
    tc = toarg(cov)
    i, j = fresh('i', 'i'), fresh('j', 'i')
    d = lambda k: g * app('in_dt', k + r) + c - app('in_n', k + r)        # noqa
    quad = Sum(i, n, Sum(j, n, d(i) * app('pinvh', tc, i, j) * d(j)))
    return num(Fraction(-1, 2)) * (app('slogdet_logdet', tc) + n * app('log', 2 * PI) + quad)


def stale(x):
    """Names of earlier-fit state on which a term depends."""
    s = set()
    for a in x.fv:
        if a.data.startswith('in_old'):
            s.add(a.data)
    return sorted(s)


def check(v, tier):
    c12.covariance_groups(v)
    for fi in (True, False):
        for model in (False, True):
            def run(v, fi=fi, model=model):
                def path():
                    e = v.E
                    o, A, m = ds.fit_object(v)
                    t0 = v.real('start')
                    opt = gls_options(v, fi, model)
                    i = fresh('l', 'i')
                    late = mklam([i], [m], le(t0, app('in_dt', i)), 'cond')
                    e.assume(lt(0, app('count', late, sort='i')))          # some interval is at or after the start time
                    before = dict(o.attrs)
                    out = v.call(e.getattr(o, 'bootstrap_GLS'), [t0], opt)
                    if out.kind != 'ret':
                        v.mismatch('returns', str(out))
                        return
                    fc = o.attrs.get('flatchain')
                    s, k = fresh('s', 'i'), fresh('k', 'i')
                    at = atom_of(fc.at(s, k)) if isinstance(fc, SArr) and fc.ndim == 2 else None
                    if at is None or at.kind != 'app' or at.data[0] != 'emcee':
                        raise Unsupported('flatchain is not a chain of the sampler')
                    state, nw, nd, lam, pos, steps, thin, disc = at.data[1][:8]
                    if len(at.data[1]) != 10:
                        raise Unsupported('sampler options')
                    npar = 2 if fi else 1
                    if not v.eq('parameters', nd, npar):
                        return
                    v.eq('walkers', nw, opt['n_walkers'])
                    v.eq('steps-after-burn-in', steps - disc, opt['n_samples'])
                    v.eq('burn-in', disc, opt['n_burn'])
                    v.eq('thin', thin, opt['thin'])
                    v.eq('every-kept-state', axlen(fc.axes[0]), floor((steps - disc) / thin) * nw)
                    if not (v.E.known(eq(at.data[1][8], s)) and v.E.known(eq(at.data[1][9], k))):
                        raise Unsupported('states of the chain rearranged')
                    # first fitted interval
                    r = app('nth_true', ZERO, late, sort='i')
                    cov = ds.covariance(e, A['no'], A['dt'], A['v'], r, model, opt['cond_max'])[1]
                    g = fresh('g')
                    c = fresh('c') if fi else ZERO
                    _, body = open_lam(lam, [g, c][:npar])
                    e.assume(le(0, r), lt(r, m))
                    want = ite(lt(g, 0), -INF, log_density(e, A, m, r, cov, g, c))
                    v.eq('log-probability', body, want)
                    # what is kept
                    w = fc
                    n_ = axlen(fc.axes[0])
                    v.same('gradient', e.getattr(o, 'gradient'), Obj('Distribution', {'samples': SArr(simple(n_), lambda idx: w.at(idx[0], num(0)))}))
                    if fi:
                        v.same('intercept', e.getattr(o, '_intercept'), Obj('Distribution', {'samples': SArr(simple(n_), lambda idx: w.at(idx[0], num(1)))}))
                    else:
                        v.same('intercept', e.getattr(o, '_intercept'), None)
                    v.same('covariance', e.getattr(o, '_covariance_matrix'), cov)
                    v.same('start', e.getattr(o, '_start_dt'), t0)
                    # earlier fits leave no trace; nothing else is touched
                    old = stale(fc.at(s, k)) or stale(e.getattr(o, '_covariance_matrix').at(s, k))
                    if old:
                        v.mismatch('independent-of-earlier-fits', f'depends on {old}')
                    else:
                        v.ok('independent-of-earlier-fits')
                    for nm in ('_diffusion_coefficient', '_jump_diffusion_coefficient', '_sigma', '_displacements', '_delta_t', '_euclidian_displacements', '_ngp', 'dims'):
                        v.same('other-results-untouched', o.attrs.get(nm), before[nm])
                    for nm, a in (('_dt', 'dt'), ('_n', 'n'), ('_v', 'v'), ('_s', 's'), ('_n_o', 'no')):
                        v.same('data-unchanged', e.getattr(o, nm), A[a])
                    v.frame()
                v.paths(path)
            v.group(f'bootstrap_GLS[fit_intercept={fi}, model={model}]', run)
    v.trusted.add('emcee.EnsembleSampler(n, d, logp): get_chain(flat, thin, discard) has every thin-th step after the discarded ones of every walker of a chain whose stationary density is exp(logp), and never holds a state with logp = -inf')
    v.trusted.add('scipy.linalg.pinvh and numpy.linalg.slogdet: (pseudo-)inverse and log-determinant')
    v.trusted.add('scipy.optimize.minimize and scipy.stats.linregress: only used for the starting point')
