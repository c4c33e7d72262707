"""C10 mean-squared displacement estimators."""
from ..verify import *          # noqa
from . import diffusion_specs as ds


def data_args(v, kind, charge, default=False):
    """Arbitrary data and the leading arguments of the estimators."""
    d = ds.Data(v, collective=kind != 'single', step=ONE if default else None)
    args = [d.dt, d.disp, d.no]
    q = None
    if charge == 'scalar':
        z = v.real('charge')
        args.insert(2, z)
        q = lambda a: z        # noqa
    elif charge in ('array', 'list'):
        z = v.arr('charge', d.rows(0))
        q = lambda a: app('in_charge', num(a))        # noqa
        args.insert(2, z if charge == 'array' else PyList(('seq', Seq(d.rows(0), lambda i: app('in_charge', num(i)))), owner='charge'))
    return d, args, q


def estimator(v, cls, name, dim, kind='single', charge=None, upper=False, default=False):
    """Body of cls.__init__ (without bootstrap) against the stated estimators."""
    def run(v):
        def path():
            d, args, q = data_args(v, kind, charge, default)
            c = v.E.get('diffusion:' + cls)
            kw = {} if default else dict(sub_sample_dt=d.k, dimension=dim.upper() if upper else dim, progress=v.E.branch(bapp('in_progress')))
            out = v.call(c, args, kw)
            if out.kind != 'ret':
                v.mismatch('returns', f'{out}')
                return
            o = out.value
            for k, w in ds.estimates(d, ds.AXES[dim], kind, q).items():
                v.same(k.strip('_'), v.E.getattr(o, k), w)
            for k, p in (('_dt', 'dt'), ('_n', 'n'), ('_s', 's'), ('_v', 'v'), ('_ngp', 'ngp')):
                v.same('property-' + p, v.E.getattr(o, p), v.E.getattr(o, k))
            v.same('dims', v.E.getattr(o, 'dims'), len(dim))
            v.frame()
        v.paths(path)
    v.group(f'{cls}[{name}]', run)


def check(v, tier):
    for dim in ds.AXES:
        estimator(v, 'MSDBootstrap', dim, dim)
    estimator(v, 'MSDBootstrap', 'XZ', 'xz', upper=True)
    estimator(v, 'MSDBootstrap', 'defaults', 'xyz', default=True)
