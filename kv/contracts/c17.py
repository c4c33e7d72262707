"""C17 a given random state makes the whole analysis reproducible.

The process-wide generator is ghost state (initially the free variable G0); every draw is an uninterpreted function of the
state it is drawn from.  A result that does not mention G0 (nor operating-system entropy) is a function of the inputs and of
the random state given."""
from ..verify import *          # noqa
from . import diffusion_specs as ds
from .c10 import data_args
from .c13 import gls_options
from .c14 import gls_contract

FOREIGN = ('G0', 'entropy')


def foreign(x):
    return sorted({a.data for a in x.fv if isinstance(a.data, str) and a.data.split('!')[0] in FOREIGN})


def depends(v, label, term, ok_path=True):
    """A result given a random state: no trace of the process-wide generator, and a function of the state given."""
    t = term.term if isinstance(term, Opq) else term
    f = foreign(t)
    if f:
        v.mismatch(label + '-independent-of-the-process-wide-generator', f'depends on {f}: {str(t)[:400]}')
    else:
        v.ok(label + '-independent-of-the-process-wide-generator')


def reads(x, seen):
    """Does the term read the state given?  The name, position and spare Gaussian of a state (elements 0, 2, 3 and 4 of
    get_state) are the same for every fresh generator, whatever its seed, and do not count."""
    if id(x) in seen:
        return False
    seen.add(id(x))
    if isinstance(x, T.Atom):
        if x.data == 'in_state':
            return True
        if x.kind == 'app' and x.data[0] in ('item', 'oitem'):
            o, k = x.data[1][:2]
            o = atom_of(num(o)) if isinstance(o, P) else o
            k = num(k) if isinstance(k, P) else k
            if isinstance(o, T.Atom) and o.kind == 'app' and o.data[0] == 'getstate' and isinstance(k, P) and k.is_const() and int(k.const()) % 5 != 1:
                return False
        return any(reads(y, seen) for y in T.atom_parts(x.kind, x.data))
    if isinstance(x, P):
        return any(reads(a, seen) for a in x.atoms())
    if isinstance(x, B):
        return any(reads(y, seen) for y in x.data if isinstance(y, (P, B, T.Lam)))
    if isinstance(x, T.Lam):
        return any(reads(y, seen) for y in (x.body, *x.dims))
    return bool(getattr(x, 'fv', None)) and any(a.data == 'in_state' for a in x.fv)


def seeded_by(v, label, term):
    if reads(term, set()):
        v.ok(label + '-drawn-from-the-state-given')
    else:
        v.mismatch(label + '-drawn-from-the-state-given', str(term)[:400])


def path_clean(v):
    e = v.E
    f = sorted({x for b in e.pc for x in foreign(b)})
    if f:
        v.mismatch('decisions-independent-of-the-process-wide-generator', f'path depends on {f}')
    else:
        v.ok('decisions-independent-of-the-process-wide-generator')


def not_reseeded(v, ev):
    s = [x for x in ev if x[0] == 'seed']
    if s:
        v.mismatch('never-reseeded', f'{len(s)} calls of numpy.random.seed without a random state')
    else:
        v.ok('never-reseeded')
    g = v.E.ghost['G']
    if isinstance(g, Opq) and 'G0' not in {a.data for a in g.term.fv}:
        v.mismatch('continues-from-the-state-found', str(g.term)[:300])
    else:
        v.ok('continues-from-the-state-found')


def given(v):
    """A random state in an arbitrary state, or none."""
    e = v.E
    if e.branch(bapp('in_rs')):
        return Obj('RandomState', {'state': Opq(var('in_state', 'o'), 'rng')}, owner=None)
    return None


def resampling(v, name, qual, ndim):
    def run(v):
        def path():
            e = v.E
            dims = [v.int_(f'n{k}', 1) for k in range(ndim)]
            a = v.arr('a', *dims)
            ns, nr, mx, al = v.real('ns', 1), v.int_('nr', 8), v.int_('mx', 1), v.real('alpha')
            rs = given(v)
            args = [a, ns, nr, rs] if name == '_bootstrap' else [a, ns, nr, mx, al, rs]
            out = v.call(e.get(qual), args)
            if out.kind != 'ret':
                v.mismatch('returns', str(out))
                return
            if rs is None:
                not_reseeded(v, out.events)
                return
            s = out.value.attrs['samples'] if isinstance(out.value, Obj) else e.ext.np_array(out.value)
            k = fresh('k', 'i')
            el = s.at(k)
            depends(v, 'samples', el)
            depends(v, 'number', num(axlen(s.axes[0])))
            seeded_by(v, 'samples', el)
            depends(v, 'next-state', e.getattr(rs, 'state'))
            path_clean(v)
            v.frame()
        v.paths(path)
    v.group(f'{name}[{ndim}-d]', run)


def sampled(e, array, n_samples, n_resamples, max_resamples, alpha, rs):
    from .c16 import sampled as s
    return s(e, array, n_samples, n_resamples, max_resamples, alpha, rs)


def estimator(v, cls, dim, kind, charge, bootstrap):
    def run(v):
        def path():
            e = v.E
            d, args, q = data_args(v, kind, charge)
            rs = given(v)
            kw = dict(sub_sample_dt=d.k, dimension=dim, progress=False, bootstrap=bootstrap, n_resamples=v.int_('nr', 8), max_resamples=v.int_('mx', 1), alpha=v.real('alpha'), random_state=rs)
            out = v.call(e.get('diffusion:' + cls), args, kw)
            if out.kind != 'ret':
                v.mismatch('returns', str(out))
                return
            if rs is None:
                not_reseeded(v, out.events)
                return
            o = out.value
            i, k = fresh('i', 'i'), fresh('k', 'i')
            for nm in ('_n', '_v', '_s', '_dt', '_ngp', '_n_bootstrap', '_v_bootstrap', '_s_bootstrap', '_n_o'):
                a = e.getattr(o, nm)
                if not isinstance(a, SArr):
                    raise Unsupported(nm)
                depends(v, nm.strip('_'), a.at(*[fresh('x', 'i') for _ in range(sum(len(x) for x in a.axes))]))
            rep = e.seqof(e.getattr(o, '_distributions'))
            if bootstrap:
                if rep[0] in ('items', ) and rep[1]:
                    el = rep[1][0]
                elif rep[0] == 'items':
                    raise Unsupported('no distributions')
                else:
                    n = rep_len(rep)
                    keep = list(e.pc)
                    e.pc = e.pc + [le(0, i), lt(i, n)]
                    el = e.rep_at(rep, i)
                    e.pc = keep
                s = el.attrs['samples']
                depends(v, 'distributions', s.at(k))
                depends(v, 'distributions-size', num(axlen(s.axes[0])))
                seeded_by(v, 'distributions', s.at(k))
            path_clean(v)
            v.frame()
        v.paths(path)
    v.group(f'{cls}[{dim}, {charge or ""}{" bootstrap" if bootstrap else ""}]', run)


def fit(v, fi, model):
    def run(v):
        def path():
            e = v.E
            o, A, m = ds.fit_object(v)
            t0 = v.real('start')
            rs = given(v)
            opt = gls_options(v, fi, model)
            opt['random_state'] = rs
            i = fresh('l', 'i')
            late = mklam([i], [m], le(t0, app('in_dt', i)), 'cond')
            e.assume(lt(0, app('count', late, sort='i')))
            out = v.call(e.getattr(o, 'bootstrap_GLS'), [t0], opt)
            if out.kind != 'ret':
                v.mismatch('returns', str(out))
                return
            if rs is None:
                not_reseeded(v, out.events)
                return
            s, k = fresh('s', 'i'), fresh('k', 'i')
            fc = o.attrs.get('flatchain')
            if not isinstance(fc, SArr):
                raise Unsupported('flatchain')
            x = fc.at(s, k)
            depends(v, 'posterior', x)
            seeded_by(v, 'posterior', x)
            depends(v, 'gradient', e.getattr(o, 'gradient').attrs['samples'].at(s))
            if fi:
                depends(v, 'intercept', e.getattr(o, '_intercept').attrs['samples'].at(s))
            depends(v, 'covariance', e.getattr(o, '_covariance_matrix').at(s, k))
            depends(v, 'next-state', e.getattr(rs, 'state'))
            path_clean(v)
            v.frame()
        v.paths(path)
    v.group(f'bootstrap_GLS[fit_intercept={fi}, model={model}]', run)


def forwards(v, meth, boot):
    """The coefficient methods hand the random state on and draw nothing themselves that depends on another generator."""
    def run(v):
        def path():
            e = v.E
            log = []
            gls_contract(v, log)
            d = ds.Data(v, step=ONE)
            o = e.call(e.get('diffusion:Bootstrap'), [d.dt, d.disp, d.no], {})
            e.set(o, 'cls', e.get('diffusion:' + boot))
            rs = given(v)
            args = [v.real('start')] + ([v.real('T', 0, True), v.real('volume', 0, True)] if meth == 'conductivity' else [])
            out = v.call(e.getattr(o, meth), args, {'random_state': rs} if rs is not None else {})
            if out.kind != 'ret' or len(log) != 1:
                v.mismatch('fits-once', f'{out} {len(log)}')
                return
            v.same('random-state-passed', log[0][3]['random_state'], rs)
            if rs is None:
                not_reseeded(v, out.events)
            else:
                x = e.getattr(o, {'diffusion': 'D', 'jump_diffusion': 'D_J', 'conductivity': 'sigma'}[meth]).attrs['samples'].at(fresh('k', 'i'))
                depends(v, 'coefficient', x)
        v.paths(path)
    v.group(f'{boot}.{meth}', run)


def predictive(v, icpt):
    """Predictions never reseed the process-wide generator either."""
    def run(v):
        def path():
            from .c15 import fitted
            e = v.E
            o = fitted(v, icpt)[0]
            out = v.call(e.getattr(o, 'posterior_predictive'), [], {'n_predictive_samples': v.int_('npred', 1), 'progress': False})
            if out.kind != 'ret':
                v.mismatch('returns', str(out))
                return
            not_reseeded(v, out.events)
        v.paths(path)
    v.group(f'posterior_predictive[{"intercept" if icpt else "no intercept"}]', run)


def fronts(v, front, mod, boot, meth, params):
    """The analyses hand the random state of their option dictionaries on to estimator and fit."""
    from . import c09
    for kind, (cls, tag) in c09.KINDS.items():
        def run(v, kind=kind, tag=tag):
            def path():
                e = v.E
                pp, _ = c09.setup(v, kind)
                rec, fits = [], []

                def h(e, c, args, kw):
                    o = state(e, c)
                    rec.append(e.bind(c.lookup('__init__')[0], [o] + list(args), kw))
                    return o

                def g(e, f, args, kw):
                    fits.append(kw)
                e.contracts[boot + '.__new__'] = h
                e.contracts['Bootstrap.' + meth] = g
                rs = given(v)
                up = PyDict({'bootstrap': True, 'random_state': rs}, owner='uncertainty_params')
                out = v.call(e.getattr(e.get(f'{mod}:{front}Analyzer'), 'from_' + kind), [Opq(var('in_traj', 'o'), tag), pp], {'uncertainty_params': up})
                if out.kind != 'ret' or len(rec) != 1:
                    v.mismatch('returns', f'{out} {len(rec)}')
                    return
                v.same('random-state-passed', rec[0]['random_state'], rs)
                r2 = v.call(e.getattr(out.value, meth), [v.real('start')] + ([v.real('T', 0, True)] if meth == 'conductivity' else []), {params: PyDict({'random_state': rs}, owner=params)})
                if r2.kind != 'ret' or len(fits) != 1:
                    v.mismatch('returns', f'{r2} {len(fits)}')
                    return
                v.same('random-state-passed-to-the-fit', fits[0].get('random_state'), rs)
                not_reseeded(v, out.events + r2.events)
                v.frame()
            v.paths(path)
        v.group(f'{front}Analyzer.from_{kind}', run)


def check(v, tier):
    v.inner |= {'_bootstrap[1-d]', '_bootstrap[2-d]'}
    for nd in (1, 2):
        resampling(v, '_bootstrap', 'diffusion:_bootstrap', nd)
    for nd in (1, 2):
        resampling(v, 'sample_until_normal', 'diffusion:Bootstrap.sample_until_normal', nd)
    if v.proved('sample_until_normal[2-d]'):
        v.helper('Bootstrap.sample_until_normal', 'sample_until_normal[1-d]', sampled)
    for b in (True, False):
        estimator(v, 'MSDBootstrap', 'xyz', 'single', None, b)
        estimator(v, 'MSTDBootstrap', 'xyz', 'collective', None, b)
        estimator(v, 'MSCDBootstrap', 'xyz', 'collective', 'array', b)
        estimator(v, 'MSCDBootstrap', 'xyz', 'collective', 'scalar', b)
    estimator(v, 'MSDBootstrap', 'xz', 'single', None, True)
    for fi in (True, False):
        for model in (False, True):
            fit(v, fi, model)
    for m, b in (('diffusion', 'MSDBootstrap'), ('jump_diffusion', 'MSTDBootstrap'), ('conductivity', 'MSCDBootstrap')):
        forwards(v, m, b)
    predictive(v, True)
    predictive(v, False)
    fronts(v, 'Diffusion', 'diffusion_analyzer', 'MSDBootstrap', 'diffusion', 'diffusion_params')
    fronts(v, 'JumpDiffusion', 'jump_diffusion_analyzer', 'MSTDBootstrap', 'jump_diffusion', 'jump_diffusion_params')
    fronts(v, 'Conductivity', 'conductivity_analyzer', 'MSCDBootstrap', 'conductivity', 'conductivity_params')
    v.trusted.add('every draw of numpy, scikit-learn, scipy and emcee is a function of its arguments and of the generator it is given (the process-wide one when none is given); emcee samplers start from a copy of the process-wide state')
    v.trusted.add('numpy.random.seed(x) sets the process-wide state to a function of x; different states give different draws')
