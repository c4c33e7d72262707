"""Contracts (functional specifications) of the functions in kinisi/diffusion.py."""
from ..verify import *          # noqa

AXES = {'x': [0], 'y': [1], 'z': [2], 'xy': [0, 1], 'xz': [0, 2], 'yz': [1, 2], 'xyz': [0, 1, 2]}


class Data:
    """Arbitrary displacement data: n intervals, rows(i) atoms, obs(i) windows, three axes."""

    def __init__(self, v, collective=False, same_atoms=True, step=None, owner=True, tag=''):
        e = v.E
        self.n = v.int_('n' + tag, 1)
        self.k = step if step is not None else v.int_('k' + tag, 1)
        e.assume(le(0, var('in_extra' + tag, 'i')))
        self.nt = self.n + var('in_extra' + tag, 'i')
        self.tag = tag
        e.pr.facts['in_rows' + tag] = lambda *i: [le(1, app('in_rows' + tag, *i, sort='i'))]
        self.collective = collective
        # single-particle estimators: at least two observations; collective ones: at least two windows
        if collective:
            e.pr.facts['in_obs' + tag] = lambda i: [le(2, app('in_obs' + tag, i, sort='i'))]
        else:
            e.pr.facts['in_obs' + tag] = lambda i: [le(1, app('in_obs' + tag, i, sort='i')), lt(1, app('in_obs' + tag, i, sort='i') * self.rows(i))]
        self.rowhead = (lambda i: ()) if same_atoms else (lambda i: (i, ))
        self.disp = v.arrlist('disp' + tag, self.n, lambda i: [self.rows(i), self.obs(i), num(3)], owner=owner)
        self.dt = v.arr('dt' + tag, self.nt, owner=owner, fact=lambda x, i: [lt(0, x)])
        self.no = v.arr('no' + tag, self.n, owner=owner, fact=lambda x, i: [lt(0, x)])

    def rows(self, i):
        return app('in_rows' + self.tag, *self.rowhead(num(i)), sort='i')

    def obs(self, i):
        return app('in_obs' + self.tag, num(i), sort='i')

    def x(self, i, a, w, c):
        return app('in_disp' + self.tag, num(i), num(a), num(w), num(c))

    def used(self):
        """Number of intervals kept by sub-sampling with step k."""
        return self.n if self.k is ONE or self.k == 1 else floor((self.n + self.k - 1) / self.k)


def sq(d, i, a, w, axes):
    return sum((d.x(i, a, w, c)**2 for c in axes), ZERO)


def single(d, i, axes):
    """(number, value function of two indices, mean, unbiased variance) of the squared single-atom displacements."""
    R, O = d.rows(i), d.obs(i)
    f = lambda a, w: sq(d, i, a, w, axes)        # noqa
    return stats2(R, O, f)


def stats2(R, O, f):
    a, w = fresh('a', 'i'), fresh('w', 'i')
    N = R * O
    mean = Sum(a, R, Sum(w, O, f(a, w))) / N
    var_ = Sum(a, R, Sum(w, O, (f(a, w) - mean)**2)) / (N - 1)
    return N, mean, var_


def stats1(O, f):
    w = fresh('w', 'i')
    mean = Sum(w, O, f(w)) / O
    var_ = Sum(w, O, (f(w) - mean)**2) / (O - 1)
    return mean, var_


def ngp(d, i, axes):
    a, w = fresh('a', 'i'), fresh('w', 'i')
    R, O = d.rows(i), d.obs(i)
    N = R * O
    m2 = Sum(a, R, Sum(w, O, sq(d, i, a, w, axes))) / N
    m4 = Sum(a, R, Sum(w, O, sq(d, i, a, w, axes)**2)) / N
    return 3 * m4 / (5 * m2**2) - 1


def collective(d, i, axes, charge=None):
    def f(w):
        out = ZERO
        for c in axes:
            a = fresh('a', 'i')
            s = Sum(a, d.rows(i), d.x(i, a, w, c) * (charge(a) if charge else 1))
            out = out + s**2
        return out
    return f


def vec(n, f):
    return SArr(simple(n), lambda idx: num(f(idx[0])))


def estimates(d, axes, kind='single', charge=None):
    """Expected attributes of the estimators without bootstrap."""
    m = d.used()
    if kind != 'single':
        m = floor(m / 2)
    at = lambda j: num(j) * d.k        # noqa
    w = {}
    if kind == 'single':
        w['_n'] = vec(m, lambda j: single(d, at(j), axes)[1])
        var_ = lambda j: single(d, at(j), axes)[2] / d.no.at(at(j))        # noqa
    else:
        f = lambda i: stats1(d.obs(i), collective(d, i, axes, charge))        # noqa
        w['_n'] = vec(m, lambda j: f(at(j))[0])
        var_ = lambda j: f(at(j))[1] / (d.no.at(at(j)) / d.rows(at(j)))        # noqa
    w['_v'] = vec(m, var_)
    w['_s'] = vec(m, lambda j: sqrt(var_(j)))
    w['_dt'] = vec(m, lambda j: d.dt.at(at(j)))
    w['_ngp'] = vec(m, lambda j: ngp(d, at(j), axes))
    w['_n_o'] = vec(m, lambda j: d.no.at(at(j)))

    def euclid(j):
        i = at(j)
        return Obj('Distribution', {'samples': SArr(((d.rows(i), d.obs(i)), ), lambda idx: sqrt(sq(d, i, idx[0], idx[1], axes)))})
    w['_euclidian_displacements'] = PyList(('seq', Seq(m, euclid)))
    return w


# ------------------------------------------------------------------------------------------------------------------
# covariance
# ------------------------------------------------------------------------------------------------------------------
def populate(variances, n_o):
    n = variances.axes[0]
    gv, gn = variances.getter(), n_o.getter()

    def el(idx):
        i, j = idx
        lo = lambda a, b: gv([a]) * gn([a]) / gn([b])        # noqa
        return ite(le(i, j), lo(i, j), lo(j, i))
    return SArr((n, n), el)


def min_eig(e, m, cond):
    t = toarg(m)
    n = m.axes[0]
    top = app('max', toarg(SArr((n, ), lambda idx: app('eigval', t, *idx)))) / cond

    def el(idx):
        k = fresh('k', 'i')
        lam = app('eigval', t, k)
        return Sum(k, axlen(n), app('eigvec', t, idx[0], k) * ite(lt(lam, top), top, lam) * app('eigvec', t, idx[1], k))
    return SArr((n, n), el)


def tail(a, r):
    """a[r:] for a one-dimensional array."""
    g = a.getter()
    return SArr(simple(axlen(a.axes[0]) - r), lambda idx: g([num(idx[0]) + r]))


def model_variance(e, n_o, dt, var_):
    """Fitted quadratic-in-time model variances."""
    from ..npmodel import INF
    a = fresh('th')
    gn, gt = n_o.getter(), dt.getter()
    lam = mklam([a], [ZERO], toarg(SArr(dt.axes, lambda idx: a / gn(idx) * gt(idx)**2)), 'fn')
    p = app('curve_fit', lam, toarg(dt), toarg(var_), K('bounds'), toarg((0, INF)), ZERO)
    return SArr(dt.axes, lambda idx: p / gn(idx) * gt(idx)**2)


def covariance(e, n_o, dt, var_, r, model, cond):
    """Covariance used by the fit of the intervals from position r on."""
    no, t, vv = tail(n_o, r), tail(dt, r), tail(var_, r)
    base = model_variance(e, no, t, vv) if model else vv
    raw = populate(base, no)
    return raw, e.ext.mat_fn('cov_nearest', min_eig(e, raw, cond))


def fit_object(v, cls='Bootstrap', dim='xyz'):
    """An estimator in an arbitrary state: m intervals with times (increasing), means, variances, observation numbers."""
    e = v.E
    c = e.get('diffusion:' + cls)
    m = v.int_('m', 1)
    o = state(e, c)
    A = {}
    for k in ('dt', 'n', 's', 'v', 'no'):
        A[k] = v.arr(k, m, owner=False, fact=(lambda x, i: [lt(0, x)]) if k in ('no', 'dt') else None)
    attrs = {'_dt': A['dt'], '_n': A['n'], '_s': A['s'], '_v': A['v'], '_n_o': A['no'], 'dims': len(dim), '_dimension': dim}
    for k in ('_distributions', '_euclidian_displacements', '_diffusion_coefficient', '_jump_diffusion_coefficient', '_sigma', '_intercept', 'gradient', 'flatchain',
              '_covariance_matrix', '_start_dt', '_model', '_cond_max', '_displacements', '_delta_t', '_max_obs', '_ngp', '_sub_sample_dt', '_n_bootstrap', '_s_bootstrap',
              '_v_bootstrap', '_slice', '_npd_covariance_matrix', '_popt', '_model_v', '_iterator'):
        attrs[k] = Opq(var('in_old' + k, 'o'), 'stale')
    attrs['_cond_max'], attrs['_start_dt'] = var('in_old_cond_max'), var('in_old_start_dt')
    attrs['_model'] = bapp('in_old_model')
    o.attrs.update(state(e, c, attrs).attrs)
    return o, A, m
