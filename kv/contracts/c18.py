"""C18 dictionary round trips: an estimator or analysis in an arbitrary state against the one rebuilt from its dictionary."""
from ..verify import *          # noqa
from . import diffusion_specs as ds
from .c13 import gls_options

BOOTS = ('Bootstrap', 'MSDBootstrap', 'MSTDBootstrap', 'MSCDBootstrap')
DIMS = ('xyz', 'x', 'y', 'z', 'xy', 'xz', 'yz')
# what the statement names, by its public name where there is one
STATE = ('_displacements', '_delta_t', '_max_obs', '_distributions', 'dt', 'n', 's', 'v', '_n_bootstrap', '_s_bootstrap', '_v_bootstrap', '_n_o', 'ngp', '_sub_sample_dt', '_dimension',
         'euclidian_displacements', 'D', 'D_J', 'sigma', 'intercept', 'gradient', 'flatchain', 'covariance_matrix', '_slice', '_start_dt', 'dims', '_model', '_cond_max')


def distribution(v, name):
    return Obj('Distribution', {'samples': v.arr(name, v.int_('draws_' + name, 1), owner=False), 'name': 'D' + name})


def distlist(name, n):
    def get(i):
        i = num(i)
        k = app(f'in_{name}_size', i, sort='i')
        return Obj('Distribution', {'samples': SArr(simple(k), lambda ix: app('in_' + name, i, ix[0]), 'f'), 'name': 'Distribution'})
    return PyList(('seq', Seq(n, get)))


def estimator(v, cls, dim, fitted=None, coefficients=('_diffusion_coefficient', '_jump_diffusion_coefficient', '_sigma')):
    """An estimator in an arbitrary state that its methods can produce."""
    e = v.E
    m = v.int_('m', 1)
    K_ = v.int_('intervals', 1)
    obs = lambda i: app('in_obs', num(i), sort='i')          # noqa
    at = v.int_('natoms', 1)
    disp = PyList(('seq', Seq(K_, lambda i: SArr(simple(at, obs(i), 3), lambda ix, i=i: app('in_disp', num(i), *ix), 'f'))))
    o = state(e, e.get('diffusion:' + cls))
    opt = lambda name, mk: mk() if e.branch(bapp('in_has_' + name)) else None          # noqa
    a = {'_displacements': disp, '_delta_t': v.arr('delta_t', K_, owner=False), '_max_obs': obs(0)}
    for k in ('_dt', '_n', '_s', '_v', '_ngp'):
        a[k] = v.arr(k, m, owner=False, fact=(lambda x, i: [lt(0, x)]) if k == '_dt' else None)
    a['_n_o'] = v.arr('_n_o', m, owner=False, fact=lambda x, i: [lt(0, x)])
    boot = e.branch(bapp('in_has_bootstrap'))
    for k in ('_n_bootstrap', '_s_bootstrap', '_v_bootstrap'):
        a[k] = v.arr(k, m if boot else 0, owner=False)
    a['_distributions'] = distlist('distr', v.int_('ndistr', 1)) if boot else PyList(('items', []))
    a['_euclidian_displacements'] = distlist('euclid', m)
    a.update({'_sub_sample_dt': v.int_('sub', 1), '_dimension': dim, 'dims': len(dim), '_slice': e.getitem(e.get('diffusion:DIMENSIONALITY'), dim)})
    fit = e.branch(bapp('in_fitted')) if fitted is None else fitted
    r = v.int_('first', 0, m)
    a.update({'gradient': distribution(v, 'grad') if fit else None, 'flatchain': v.arr('chain', v.int_('chainlen', 1), v.int_('npar', 1), owner=False) if fit else None,
              '_covariance_matrix': v.arr('cov', m - r, m - r, owner=False) if fit else None, '_start_dt': v.real('start') if fit else None,
              '_model': e.branch(bapp('in_model')) if fit and fitted is None else (False if fit else None), '_cond_max': v.real('cond', 0, True) if fit else None})
    a['_intercept'] = opt('intercept', lambda: distribution(v, 'icpt')) if fit else None
    if fit and a['_intercept'] is not None:
        e.assume(eq(v.int_('draws_icpt'), v.int_('draws_grad')))
    for k in ('_diffusion_coefficient', '_jump_diffusion_coefficient', '_sigma'):
        a[k] = opt(k, lambda: distribution(v, k)) if fit and fitted is None and k in coefficients else None
    base = e.call(e.get('diffusion:Bootstrap'), [v.arr('x_dt', 1, owner=False), PyList(('items', [v.arr('x_disp', 1, 1, 3, owner=False)])), v.arr('x_no', 1, owner=False)], {})
    for k in base.attrs:
        if k not in a:
            raise Unsupported(f'unknown attribute {k} of an estimator')
    for k in a:
        if k not in base.attrs:
            raise Unsupported(f'estimators have no attribute {k}')
    o.attrs.update(a)
    return o


def compare(v, label, new, old):
    e = v.E
    if not isinstance(new, Obj):
        return v.mismatch(label, show(new))
    for k in STATE:
        v.same(f'{label}{k.strip("_")}', attr(e, new, k), attr(e, old, k))


def attr(e, o, k):
    try:
        return e.getattr(o, k)
    except RaiseEx:
        raise Unsupported(f'no attribute {k}')


def round_trip(v, cls, dim):
    def run(v):
        def path():
            e = v.E
            o = estimator(v, cls, dim)
            before = dict(o.attrs)
            out = v.call(e.getattr(o, 'to_dict'), [])
            if out.kind != 'ret' or not isinstance(out.value, PyDict):
                v.mismatch('to-dict', str(out))
                return
            for k in before:
                v.same('exporting-changes-nothing', o.attrs.get(k), before[k])
            d = out.value
            back = v.call(e.getattr(e.get('diffusion:' + cls), 'from_dict'), [d])
            if back.kind != 'ret':
                v.mismatch('from-dict', str(back))
                return
            n = back.value
            if not isinstance(n, Obj) or n.cls is not o.cls:
                v.mismatch('class', show(n))
                return
            compare(v, '', n, o)
            again = v.call(e.getattr(n, 'to_dict'), [])
            if again.kind != 'ret' or not isinstance(again.value, PyDict):
                v.mismatch('dictionary-again', str(again))
                return
            v.same('dictionary-again', again.value, d)
            v.frame()
        v.paths(path)
    v.group(f'{cls}.from_dict[{dim}]', run)


def behaves(v, cls, what):
    """Fits and predictions of original and rebuilt object from the same state of the generator."""
    def run(v):
        def path():
            e = v.E
            o = estimator(v, cls, 'xy', fitted=(what == 'posterior_predictive'))
            n = e.call(e.getattr(e.get('diffusion:' + cls), 'from_dict'), [e.call(e.getattr(o, 'to_dict'), [])])
            G = e.ghost['G']
            res = []
            i = fresh('l', 'i')
            m = v.int_('m')
            t0 = v.real('start')
            late = mklam([i], [m], le(t0, app('in__dt', i)), 'cond')
            e.assume(lt(0, app('count', late, sort='i')))
            if what == 'posterior_predictive':
                e.assume(eq(v.int_('first', 0), app('nth_true', ZERO, late, sort='i')))
            opt = {'n_predictive_samples': v.int_('npred', 1), 'progress': False} if what == 'posterior_predictive' else gls_options(v, True, False)
            args = [] if what == 'posterior_predictive' else [t0] + ([v.real('T', 0, True), v.real('vol', 0, True)] if what == 'conductivity' else [])
            for x in (o, n):
                e.set(e.ghost, 'G', G)
                res.append(v.call(e.getattr(x, what), args, opt))
            if res[0].kind != res[1].kind:
                v.mismatch('same-outcome', f'{res}')
                return
            if res[0].kind == 'raise':
                raise Unsupported(f'{what} raises {res[0].value.name}')
            if what == 'posterior_predictive':
                v.same('same-result', res[1].value, res[0].value)
            else:
                compare(v, 'same-result-', n, o)
        v.paths(path)
    v.group(f'{cls}.from_dict then {what}', run)


FRONTS = (('analyzer', 'Analyzer', None), ('diffusion_analyzer', 'DiffusionAnalyzer', 'MSDBootstrap'), ('jump_diffusion_analyzer', 'JumpDiffusionAnalyzer', 'MSTDBootstrap'),
          ('conductivity_analyzer', 'ConductivityAnalyzer', 'MSCDBootstrap'))


def analysis(v, mod, cls, boot):
    def run(v):
        def path():
            e = v.E
            d = ds.Data(v)
            vol = v.real('volume', 0, True)
            a = e.call(e.get(f'{mod}:{cls}'), [d.dt, d.disp, d.no, vol])
            if boot:
                est = estimator(v, boot, 'xyz')
                give(e, a, '_diff', est)
            out = v.call(e.getattr(a, 'to_dict'), [])
            if out.kind != 'ret' or not isinstance(out.value, PyDict):
                v.mismatch('to-dict', str(out))
                return
            back = v.call(e.getattr(e.get(f'{mod}:{cls}'), 'from_dict'), [out.value])
            if back.kind != 'ret' or not isinstance(back.value, Obj) or back.value.cls is not a.cls:
                v.mismatch('from-dict', str(back))
                return
            b = back.value
            for k in ('_delta_t', '_disp_3d', '_n_o', 'volume'):
                v.same(k.strip('_'), attr(e, b, k), attr(e, a, k))
            if boot:
                compare(v, 'estimator-', b.attrs.get('_diff'), est)
            again = v.call(e.getattr(b, 'to_dict'), [])
            if again.kind != 'ret' or not isinstance(again.value, PyDict):
                v.mismatch('dictionary-again', str(again))
                return
            v.same('dictionary-again', again.value, out.value)
            v.frame()
        v.paths(path)
    v.group(f'{cls}.from_dict', run)


def check(v, tier):
    for cls in BOOTS:
        for dim in (DIMS if cls == 'MSDBootstrap' else ('xyz', 'xz') if cls != 'Bootstrap' else ('xyz', b'xyz', b'xz', b'y')):
            round_trip(v, cls, dim)
    for cls in BOOTS:
        for w in ('bootstrap_GLS', 'posterior_predictive') if cls == 'Bootstrap' else ({'MSDBootstrap': 'diffusion', 'MSTDBootstrap': 'jump_diffusion', 'MSCDBootstrap': 'conductivity'}[cls], ):
            behaves(v, cls, w)
    for f in FRONTS:
        analysis(v, *f)
    v.trusted.add('uravu.distribution.Distribution.from_dict(d.to_dict()) has the name and samples of d')
