"""C15 posterior predictive samples and derived views."""
from ..verify import *          # noqa
from . import diffusion_specs as ds


def fitted(v, icpt, cls='Bootstrap'):
    """A fitted estimator: arbitrary data, posterior draws and covariance of the fitted intervals."""
    e = v.E
    o, A, m = ds.fit_object(v, cls)
    t0 = v.real('start')
    i = fresh('l', 'i')
    late = mklam([i], [m], le(t0, app('in_dt', i)), 'cond')
    e.assume(lt(0, app('count', late, sort='i')))
    r = app('nth_true', ZERO, late, sort='i')
    e.assume(le(0, r), lt(r, m))
    d = v.int_('draws', 1)
    cov = v.arr('cov', m - r, m - r, owner=False)
    for k, x in {'_start_dt': t0, '_covariance_matrix': cov, 'gradient': Obj('Distribution', {'samples': v.arr('grad', d, owner=False), 'name': 'g'}),
                 '_intercept': Obj('Distribution', {'samples': v.arr('icpt', d, owner=False), 'name': 'i'}) if icpt else None}.items():
        give(e, o, k, x)
    return o, A, m, r, d, cov


def check(v, tier):
    for icpt in (True, False):
        for given in (True, False):
            for progress in ((True, False) if given and icpt else (False, )):
                def run(v, icpt=icpt, given=given, progress=progress):
                    def path():
                        e = v.E
                        o, A, m, r, d, cov = fitted(v, icpt)
                        npred = v.int_('npred', 1)
                        npost = v.int_('npost', 1) if given else d
                        kw = {'n_predictive_samples': npred, 'progress': progress}
                        if given:
                            kw['n_posterior_samples'] = npost
                        out = v.call(e.getattr(o, 'posterior_predictive'), [], kw)
                        if out.kind != 'ret' or not isinstance(out.value, SArr) or out.value.ndim != 2:
                            v.mismatch('returns', str(out))
                            return
                        a = out.value
                        n, w = a.dims()
                        v.eq('rows', n, npost * npred)
                        v.eq('fitted-intervals', w, m - r)
                        blk, p, k = fresh('b', 'i'), fresh('p', 'i'), fresh('k', 'i')
                        rng = [le(0, blk), lt(blk, npost), le(0, p), lt(p, npred), le(0, k), lt(k, m - r)]
                        el = a.at(*recomp([blk, p], (npost, npred), a.axes[0]), k) if len(a.axes[0]) > 1 else a.at(blk * npred + p, k)
                        el = e.pr.decide_ites(e.pc + rng, el)
                        at = atom_of(el)
                        if at is None or at.kind != 'app' or at.data[0] != 'mvn_rvs':
                            raise Unsupported('rows are not drawn by multivariate_normal')
                        state, mean, c, sing, size, p2, k2 = at.data[1]
                        v.eq('one-draw-per-row', size, npred, rng)
                        v.eq('one-draw-per-row', p2, p, rng)
                        v.eq('one-draw-per-row', k2, k, rng)
                        v.arg_eq('covariance', c, toarg(cov), rng)
                        # the mean is the line of one posterior draw q: read q off the gradient, then check everything with it
                        _, body = open_lam(mean, [k])
                        q = next((x.data[1][0] for x in apps_of(body) if x.data[0] == 'in_grad'), None)
                        if q is None:
                            v.mismatch('mean-is-a-posterior-line', f'mean {body}', rng)
                            return
                        e.pr.facts['randint'] = lambda s, lo, hi, n, i: [le(lo, app('randint', s, lo, hi, n, i, sort='i')), lt(app('randint', s, lo, hi, n, i, sort='i'), hi)]
                        v.eq('mean-is-a-posterior-line', body, app('in_grad', q) * app('in_dt', k + r) + (app('in_icpt', q) if icpt else 0), rng)
                        v.eq('mean-is-a-posterior-line', mean.dims[0], m - r, rng)
                        v.holds('draw-exists', conj(le(0, q), lt(q, d)), rng)
                        if k in (y for y in ()) or p.fv & q.fv or k.fv & q.fv:
                            v.mismatch('one-draw-per-row', 'the posterior draw changes within a block', rng)
                        v.frame()
                    v.paths(path)
                v.group(f'posterior_predictive[intercept={icpt}, number {"given" if given else "default"}, progress={progress}]', run)

    # views of the analyses
    for mod, cls, meth, coef in (('diffusion_analyzer', 'DiffusionAnalyzer', 'diffusion', 'D'), ('jump_diffusion_analyzer', 'JumpDiffusionAnalyzer', 'jump_diffusion', 'D_J'), ('conductivity_analyzer', 'ConductivityAnalyzer', 'conductivity', 'sigma')):
        for icpt in (True, False):
            def run(v, mod=mod, cls=cls, icpt=icpt, coef=coef):
                def path():
                    e = v.E
                    o, A, m, r, d, cov = fitted(v, icpt)
                    an = state(e, e.get(f'{mod}:{cls}'))
                    give(e, an, '_diff', o)
                    give(e, an, '_volume', v.real('volume'))
                    attr = {'D': '_diffusion_coefficient', 'D_J': '_jump_diffusion_coefficient', 'sigma': '_sigma'}[coef]
                    give(e, o, attr, Obj('Distribution', {'samples': v.arr('coef', d, owner=False), 'name': coef}))
                    give(e, o, '_ngp', v.arr('ngp', m, owner=False))
                    give(e, o, '_euclidian_displacements', v.arrlist('eucl', m, lambda i: [app('in_no2', i, sort='i')], owner=False))
                    g, c = (lambda k: app('in_grad', k)), (lambda k: app('in_icpt', k) if icpt else ZERO)
                    v.same('line-distribution', e.getattr(an, 'distribution'), SArr(simple(m, d), lambda idx: g(idx[1]) * app('in_dt', idx[0]) + c(idx[1])))
                    v.same('dt', e.getattr(an, 'dt'), A['dt'])
                    v.same('intercept', e.getattr(an, 'intercept'), e.getattr(o, '_intercept'))
                    v.same('dr', e.getattr(an, 'dr'), e.getattr(o, '_euclidian_displacements'))
                    v.same('volume', e.getattr(an, 'volume'), e.getattr(an, '_volume'))
                    v.same('coefficient', e.getattr(an, coef), o.attrs[attr])
                    nm = {'D': 'msd', 'D_J': 'mstd', 'sigma': 'mscd'}[coef]
                    v.same('means', e.getattr(an, nm), A['n'])
                    v.same('deviations', e.getattr(an, nm + '_std'), A['s'])
                    best = app('argmax', toarg(e.getattr(o, '_ngp')), sort='i')
                    v.same('ngp-max', e.getattr(an, 'ngp_max'), app('in_dt', best))
                    opts = {'n_posterior_samples': v.int_('npost', 1), 'n_predictive_samples': v.int_('npred', 1), 'progress': False}
                    seen = []

                    def h(e, f, args, kw):
                        seen.append(e.bind(f, args, kw))
                        return Opq(var('in_ppd', 'o'))
                    e.contracts['Bootstrap.posterior_predictive'] = h
                    res = v.call(e.getattr(an, 'posterior_predictive'), [PyDict(dict(opts), owner='options')])
                    if len(seen) != 1 or res.kind != 'ret':
                        v.mismatch('predictive-options', str(res))
                    else:
                        v.same('predictive-options', res.value, Opq(var('in_ppd', 'o')))
                        for kk in opts:
                            v.same('predictive-options', seen[0].get(kk), opts[kk])
                    seen.clear()
                    res = v.call(e.getattr(an, 'posterior_predictive'), [])
                    if len(seen) != 1:
                        v.mismatch('predictive-options', str(res))
                    else:
                        v.same('predictive-options', seen[0]['n_posterior_samples'], None)
                    v.frame()
                v.paths(path)
            v.group(f'{cls} views[intercept={icpt}]', run)

            if icpt:
                def table(v, mod=mod, cls=cls, coef=coef):
                    def path():
                        e = v.E
                        o, A, m, r, d, cov = fitted(v, True)
                        an = state(e, e.get(f'{mod}:{cls}'))
                        give(e, an, '_diff', o)
                        attr = {'D': '_diffusion_coefficient', 'D_J': '_jump_diffusion_coefficient', 'sigma': '_sigma'}[coef]
                        give(e, o, attr, Obj('Distribution', {'samples': v.arr('coef', d, owner=False), 'name': coef}))
                        v.same('sampling-table', e.getattr(an, 'flatchain'), SArr(simple(d, 2), lambda idx: ite(eq(idx[1], 0), app('in_coef', idx[0]), app('in_icpt', idx[0]))))
                        v.frame()
                    v.paths(path)
                v.group(f'{cls} sampling table', table)
    v.trusted.add('scipy.stats.multivariate_normal(mean, cov).rvs(n): n draws from that normal distribution')
    v.trusted.add('numpy.random.randint(lo, hi): integers in [lo, hi)')
    v.trusted.add('numpy.argmax: the first position of the largest element')
