"""C14 units of diffusion coefficients and conductivity."""
from ..verify import *          # noqa
from ..npmodel import KB, QE
from . import diffusion_specs as ds

OTHER = ('_diffusion_coefficient', '_jump_diffusion_coefficient', '_sigma')


def gls_contract(v, log):
    """bootstrap_GLS as seen by its callers: it sets gradient, intercept, flatchain, covariance and the options of the fit;
    the attributes in OTHER and the data are outside its frame (proved for its body in C13)."""
    def h(e, f, args, kw):
        vals = e.bind(f, args, kw)
        log.append((args[0], args[1:], dict(kw), vals))
        m = v.int_('draws', 1)
        e.setattr(args[0], 'gradient', Obj('Distribution', {'samples': v.arr('grad', m, owner=False), 'name': 'g'}))
        give(e, args[0], '_intercept', Obj('Distribution', {'samples': v.arr('icpt', m, owner=False), 'name': 'i'}))
        return None
    v.E.contracts['Bootstrap.bootstrap_GLS'] = h


def options(v):
    d = PyDict({'n_samples': v.int_('optns'), 'thin': v.int_('optthin')}, owner='options')
    return d


def check(v, tier):
    for meth, attr, prop, boot in (('diffusion', '_diffusion_coefficient', 'D', 'MSDBootstrap'), ('jump_diffusion', '_jump_diffusion_coefficient', 'D_J', 'MSTDBootstrap'), ('conductivity', '_sigma', 'sigma', 'MSCDBootstrap')):
        for dim in ds.AXES:
            def run(v, meth=meth, attr=attr, prop=prop, dim=dim, boot=boot):
                def path():
                    e = v.E
                    log = []
                    gls_contract(v, log)
                    d = ds.Data(v, step=ONE)
                    o = e.call(e.get('diffusion:Bootstrap'), [d.dt, d.disp, d.no], {'dimension': dim})
                    e.set(o, 'cls', e.get('diffusion:' + boot))
                    marks = {k: Opq(var('in_mark' + k, 'o')) for k in OTHER}
                    for k in OTHER:
                        give(e, o, k, marks[k])
                    t0, T_, vol = v.real('start'), v.real('T', 0, True), v.real('volume', 0, True)
                    opts = options(v)
                    args = [t0] + ([T_, vol] if meth == 'conductivity' else [])
                    out = v.call(e.getattr(o, meth), args, dict(opts.items))
                    if out.kind != 'ret':
                        v.mismatch('returns', str(out))
                        return
                    if len(log) != 1:
                        v.mismatch('fit-called-once', f'{len(log)} fits')
                        return
                    _, pos, kw, vals = log[0]
                    v.same('start', vals['start_dt'], t0)
                    for k in opts.items:
                        v.same('options', vals[k], opts.items[k])
                    full = e.bind(e.get('diffusion:Bootstrap.bootstrap_GLS'), [o, t0], dict(opts.items))
                    for k in full:
                        if k not in ('self', 'start_dt') and k not in opts.items:
                            v.same('options-default', vals[k], full[k])
                    g = lambda k: app('in_grad', k)        # noqa
                    dim_n = len(dim)
                    val = {'diffusion': lambda k: g(k) / (20000 * dim_n), 'jump_diffusion': lambda k: g(k) / (20000 * dim_n * d.rows(0)),
                           'conductivity': lambda k: g(k) / (20000 * dim_n) * 1000 * QE**2 / (vol * Fraction(1, 10**24) * KB * T_)}[meth]
                    m = v.int_('draws')
                    want = Obj('Distribution', {'samples': SArr(simple(m), lambda idx: val(idx[0]))})
                    v.same('coefficient', e.getattr(o, prop), want)
                    for k in OTHER:
                        if k != attr:
                            v.same('others-untouched', o.attrs.get(k), marks[k])
                    v.frame()
                v.paths(path)
            v.group(f'{boot}.{meth}[{dim}]', run)

    # the analyses hand the start time, the options and (conductivity) temperature and volume on
    for mod, cls, meth, params, boot in (('diffusion_analyzer', 'DiffusionAnalyzer', 'diffusion', 'diffusion_params', 'MSDBootstrap'),
                                         ('jump_diffusion_analyzer', 'JumpDiffusionAnalyzer', 'jump_diffusion', 'jump_diffusion_params', 'MSTDBootstrap'),
                                         ('conductivity_analyzer', 'ConductivityAnalyzer', 'conductivity', 'conductivity_params', 'MSCDBootstrap')):
        def run(v, mod=mod, cls=cls, meth=meth, params=params, boot=boot):
            def path():
                e = v.E
                log = []

                def h(e, f, args, kw):
                    log.append((args, kw))
                e.contracts['Bootstrap.' + meth] = h
                vol = v.real('volume', 0, True)
                d = ds.Data(v)
                a = e.call(e.get(f'{mod}:{cls}'), [d.dt, d.disp, d.no, vol])
                b = state(e, e.get('diffusion:' + boot))
                give(e, a, '_diff', b)
                t0, T_ = v.real('start'), v.real('T', 0, True)
                opts = options(v) if e.branch(bapp('in_with')) else None
                args = [t0] + ([T_] if meth == 'conductivity' else [])
                out = v.call(e.getattr(a, meth), args, {params: opts} if opts is not None else {})
                if out.kind != 'ret' or len(log) != 1 or log[0][0][0] is not b:
                    v.mismatch('forwards', f'{out} {len(log)}')
                    return
                vals = e.bind(e.get('diffusion:Bootstrap.' + meth), *log[0])
                v.same('start', vals['start_dt'], t0)
                if meth == 'conductivity':
                    v.same('temperature', vals['temperature'], T_)
                    v.same('volume', vals['volume'], vol)
                kwd = vals['kwargs'] if 'kwargs' in vals else next(x for x in vals.values() if isinstance(x, PyDict))
                v.same('options', kwd, PyDict(opts.items if opts is not None else {}))
                v.frame()
            v.paths(path)
        v.group(f'{cls}.{meth}', run)
    v.trusted.add('uravu.distribution.Distribution(samples).samples are the samples given; scipy.constants exact SI values (R = k_B N_A)')
