"""C12 covariance matrix."""
from ..verify import *          # noqa
from . import diffusion_specs as ds


def covariance_groups(v):
    """_populate_covariance_matrix and its contract."""
    v.inner.add('_populate_covariance_matrix')
    def build(v):
        n = v.int_('n', 0)
        a, b = v.arr('var', n), v.arr('no', n, fact=lambda x, i: [lt(0, x)])
        return [a, b], {}, (a, b)

    def post(v, c, out):
        if out.kind != 'ret' or not isinstance(out.value, SArr):
            return
        i, j = fresh('i', 'i'), fresh('j', 'i')
        n = axlen(c[0].axes[0])
        rng = [le(0, i), lt(i, n), le(0, j), lt(j, n)]
        m = out.value
        v.eq('symmetric', m.at(i, j), m.at(j, i), rng)
        v.eq('diagonal', m.at(i, i), c[0].at(i), rng)
    v.fn('_populate_covariance_matrix', 'diffusion:_populate_covariance_matrix', build, lambda v, c: ds.populate(*c), post=post)

    def len_ok(e, a, b):
        return all(isinstance(x, SArr) and x.ndim == 1 for x in (a, b)) and e.pr.prove_eq(e.pc, axlen(a.axes[0]), axlen(b.axes[0]))
    v.helper('_populate_covariance_matrix', '_populate_covariance_matrix', lambda e, variances, n_samples: ds.populate(variances, n_samples) if len_ok(e, variances, n_samples) else INLINE)


def check(v, tier):
    covariance_groups(v)

    def build2(v):
        n = v.int_('n', 1)
        m, c = v.arr('matrix', n, n), v.real('cond', 0, True)
        return [m, c], {}, (m, c)
    v.fn('minimum_eigenvalue_method', 'diffusion:minimum_eigenvalue_method', build2, lambda v, c: ds.min_eig(v.E, *c))

    def build3(v):
        n = v.int_('n', 1)
        m = v.arr('matrix', n, n)
        return [m], {}, (m, 10**16)
    v.fn('minimum_eigenvalue_method[default limit]', 'diffusion:minimum_eigenvalue_method', build3, lambda v, c: ds.min_eig(v.E, *c))

    for model in (False, True):
        def run(v, model=model):
            def path():
                e = v.E
                o, A, m = ds.fit_object(v)
                r = v.int_('regime', 0, m)
                cond = v.real('cond', 0, True)
                give(e, o, '_model', model)
                give(e, o, '_cond_max', cond)
                out = v.call(e.getattr(o, 'generate_covariance_matrix'), [r])
                raw, used = ds.covariance(e, A['no'], A['dt'], A['v'], r, model, cond)
                v.outcome('used-by-the-fit', out, Out('ret', used))
                v.same('raw', e.getattr(o, '_npd_covariance_matrix'), raw)
                for k in ('_dt', '_n', '_v', '_s', '_n_o'):
                    v.same('data-unchanged', e.getattr(o, k), A[{'_dt': 'dt', '_n': 'n', '_v': 'v', '_s': 's', '_n_o': 'no'}[k]])
                v.frame()
            v.paths(path)
        v.group(f'generate_covariance_matrix[model={model}]', run)
    v.trusted.add('numpy.linalg.eigh(m): eigenvalues and orthonormal eigenvectors of m')
    v.trusted.add('statsmodels cov_nearest(m): a positive semi-definite matrix, the nearest one by its own criterion')
    v.trusted.add('scipy.optimize.curve_fit(f, x, y): the least-squares parameters of f')
    v.trusted.add('numpy.max: the largest element')
