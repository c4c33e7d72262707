"""C16 bootstrap resampling."""
from ..verify import *          # noqa
from ..interp import INLINE
from . import diffusion_specs as ds
from .c10 import data_args


def the_test(e, a, pc, terms):
    """The p-value of the normality test of array a: the term the code uses where the arrays are equal."""
    t = toarg(a)
    for b in terms:
        for x in apps_of(b):
            if x.data[0] == 'normaltest_p' and e.pr.args_equal(pc, x.data[1][0], t):
                return of_atom(x)
    return app('normaltest_p', t)


def resampling(v, ndim):
    def run(v):
        def path():
            e = v.E
            dims = [v.int_(f'n{k}', 1) for k in range(ndim)]
            a = v.arr('a', *dims)
            size = ONE
            for d in dims:
                size = size * d
            ns, nr, mx, al = v.real('ns', 1), v.int_('nr', 8), v.int_('mx', 1), v.real('alpha')
            rs = e.ext.new_rs(v.int_('seed')) if e.branch(bapp('in_rs')) else None
            out = v.call(e.get('diffusion:Bootstrap.sample_until_normal'), [a, ns, nr, mx, al, rs])
            if out.kind != 'ret' or not isinstance(out.value, Obj) or 'samples' not in out.value.attrs:
                v.mismatch('returns', str(out))
                return
            s = out.value.attrs['samples']
            loops = [x for x in out.events if x[0] == 'while']
            if len(loops) > 1:
                raise Unsupported('more than one open-ended loop')
            N = loops[0][1] if loops else ZERO
            L = nr + 100 * N
            if not v.eq('starts-with-the-requested-number-and-continues-in-hundreds', axlen(s.axes[0]), L):
                return
            # warning
            warned = any(x[0] == 'warn' for x in out.events)
            v.holds('warns-exactly-when-the-maximum-is-reached', le(mx, L) if warned else lt(L, mx))
            # stops exactly when normal or at the maximum
            p = the_test(e, s, e.pc, e.pc)
            v.holds('stops-when-normal-or-at-the-maximum', disj(le(mx, L), le(al, p)))
            if loops:
                iv, conds = loops[0][2].iteration
                for c in conds:
                    rng = [le(0, iv), lt(iv, N)] + c
                    # ranking: the number drawn grows by 100 in every iteration and an iteration needs it below the maximum
                    v.holds('terminates', lt(nr + 100 * iv, mx), rng)
                    for case in (eq(iv, 0), lt(0, iv)):
                        R = rng + [case]
                        part = SArr(simple(nr + 100 * iv), s.getter())
                        terms = [e.pr.decide_ites(e.pc + R, b) for b in c]
                        v.holds('continues-only-while-not-normal', lt(the_test(e, part, e.pc + R, e.pc + terms), al), R + terms)
            # every element is the mean of a fresh sample
            for nm, lo, hi in (('first-batch', ZERO, nr), ('later-batches', nr, L)):
                if nm == 'later-batches' and not loops:
                    continue
                k = fresh('k', 'i')
                rng = [le(lo, k), lt(k, hi)]
                el = e.pr.decide_ites(e.pc + rng, s.at(k))
                ap = [x for x in apps_of(el) if x.data[0] == 'resample_idx']
                if not ap:
                    v.mismatch('elements-are-means-of-samples', f'element {el}', rng)
                    return
                state = ap[0].data[1][0]
                if not (atom_of(k) in state.fv):
                    v.mismatch('a-new-sample-for-each-element', f'state {state}', rng)
                else:
                    v.ok('a-new-sample-for-each-element')
                flat = a.getter()
                j = fresh('j', 'i')
                n = floor(ns)
                pick = app('resample_idx', state, size, n, toarg(True), j, sort='i')
                pos = [pick] if ndim == 1 else [floor(pick / dims[1]), pick - dims[1] * floor(pick / dims[1])]
                v.eq('elements-are-means-of-samples', el, Sum(j, n, flat(pos)) / n, rng)
            # independence of the process-wide generator when a random state is given
            v.frame()
        v.paths(path)
    v.group(f'sample_until_normal[{ndim}-d]', run)


def sampled(e, array, n_samples, n_resamples, max_resamples, alpha, rs, advance=True):
    """Contract of sample_until_normal as a function of its arguments and the generator state."""
    a = e.ext.np_array(array)
    g = e.ext.rng_get(rs)
    args = [toarg(e.ext.flatten(a) if a.ndim != 1 else a), num(n_samples), num(n_resamples), num(max_resamples), num(alpha)]
    L = app('sun_len', g, *args, sort='i')
    if advance:
        new = Opq(app('sun_next', g, *args, sort='o'), 'rng')
        if rs is None:
            e.set(e.ghost, 'G', new)
        else:
            e.set(rs.attrs, 'state', new)
        e.ext.rng_next('Distribution')
    e.pr.facts['sun_len'] = lambda *x: [le(x[3], app('sun_len', *x, sort='i'))]
    return Obj('Distribution', {'samples': SArr(simple(L), lambda idx: app('sun', g, *args, idx[0])), 'name': 'Distribution'})


def estimator(v, cls, name, dim, kind='single', charge=None):
    """Estimators with bootstrap=True: the distributions, their statistics, and everything else as without bootstrap."""
    def run(v):
        def path():
            e = v.E
            d, args, q = data_args(v, kind, charge)
            axes = ds.AXES[dim]
            nr, mx, al = v.int_('nr', 8), v.int_('mx', 1), v.real('alpha')
            rs = e.ext.new_rs(v.int_('seed')) if e.branch(bapp('in_rs')) else None
            kw = dict(sub_sample_dt=d.k, dimension=dim, progress=False, bootstrap=True, n_resamples=nr, max_resamples=mx, alpha=al, random_state=rs)
            out = v.call(e.get('diffusion:' + cls), args, kw)
            if out.kind != 'ret':
                v.mismatch('returns', f'{out}')
                return
            o = out.value
            for k, w in ds.estimates(d, axes, kind, q).items():
                v.same('unchanged-' + k.strip('_'), e.getattr(o, k), w)
            m = d.used() if kind == 'single' else floor(d.used() / 2)
            i = fresh('i', 'i')
            rng = [le(0, i), lt(i, m)]
            dist = e.getattr(o, '_distributions')
            rep = e.seqof(dist)
            if rep[0] == 'filt':
                raise Unsupported('some intervals have no distribution')
            if not v.eq('one-distribution-per-interval', rep_len(rep), m):
                return
            keep = list(e.pc)
            e.pc = e.pc + rng
            got = e.rep_at(rep, i)
            e.pc = keep
            if not isinstance(got, Obj) or 'samples' not in got.attrs:
                v.mismatch('distributions', show(got))
                return
            k = fresh('k', 'i')
            at = atom_of(got.attrs['samples'].at(k))
            if at is None or at.kind != 'app' or at.data[0] != 'sun':
                raise Unsupported('distribution is not the result of sample_until_normal')
            g, arr, ns, nr2, mx2, al2, kk = at.data[1]
            j = i * d.k
            if kind == 'single':
                want = SArr(((d.rows(j), d.obs(j)), ), lambda idx: ds.sq(d, j, idx[0], idx[1], axes))
                wns = d.no.at(j)
            else:
                f = ds.collective(d, j, axes, q)
                want = SArr(simple(d.obs(j)), lambda idx: f(idx[0]))
                wns = d.no.at(j) / d.rows(j)
            v.eq('same-order', kk, k, rng)
            v.arg_eq('observations-of-the-interval', arr, toarg(want), rng)
            v.eq('independent-observations', ns, wns, rng)
            v.eq('requested-number', nr2, nr, rng)
            v.eq('maximum', mx2, mx, rng)
            v.eq('level', al2, al, rng)
            if not i.fv & g.fv and not (rs is None and e.pr.entails(e.pc, le(m, 1))):
                v.mismatch('a-new-state-for-each-interval', f'{g}', rng)
            # statistics of the distributions
            sm = got.attrs['samples']
            L = axlen(sm.axes[0])
            mean, var_ = ds.stats1(L, lambda x: sm.at(x))
            for nm, w in (('_n_bootstrap', mean), ('_v_bootstrap', var_), ('_s_bootstrap', sqrt(var_))):
                a = e.getattr(o, nm)
                if not isinstance(a, SArr) or a.ndim != 1:
                    v.mismatch(nm, show(a))
                    continue
                v.eq(nm + '-length', axlen(a.axes[0]), m)
                v.eq(nm, a.at(i), w, rng)
            v.frame()
        v.paths(path)
    v.group(f'{cls}[bootstrap, {name}]', run)


def check(v, tier):
    resampling(v, 1)
    resampling(v, 2)
    groups = ['sample_until_normal[1-d]', 'sample_until_normal[2-d]']
    if v.proved(groups[1]):
        v.helper('Bootstrap.sample_until_normal', groups[0], sampled)
    estimator(v, 'MSDBootstrap', 'xyz', 'xyz')
    estimator(v, 'MSDBootstrap', 'xz', 'xz')
    estimator(v, 'MSTDBootstrap', 'xyz', 'xyz', 'collective')
    estimator(v, 'MSTDBootstrap', 'y', 'y', 'collective')
    estimator(v, 'MSCDBootstrap', 'xyz', 'xyz', 'collective', 'array')
    estimator(v, 'MSCDBootstrap', 'xyz, scalar charge', 'xyz', 'collective', 'scalar')
    v.trusted.add('sklearn.utils.resample(a, n_samples=n, random_state): n positions of a drawn uniformly with replacement, new ones for every state of the generator')
    v.trusted.add('scipy.stats.normaltest: the test for normality')
