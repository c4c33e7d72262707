"""Models of Python builtins and of the libraries kinisi calls.

numpy array functions that are plain index or field arithmetic are modelled exactly; everything numerical or random
(eigendecomposition, inverse, optimisers, samplers, test statistics, unique/sort) is an uninterpreted function of its
arguments and, where it draws random numbers, of the state of the generator it uses."""
import math
from fractions import Fraction
from .term import *          # noqa
from .sval import *          # noqa
from . import term as T
from . import h5model

EXC = ['ValueError', 'TypeError', 'IndexError', 'KeyError', 'MemoryError', 'RuntimeError', 'AttributeError', 'NameError', 'UnboundLocalError',
       'ModuleNotFoundError', 'ImportError', 'NotImplementedError', 'ZeroDivisionError', 'Exception', 'AssertionError', 'StopIteration', 'OSError',
       'FileExistsError', 'FileNotFoundError', 'ArithmeticError', 'LookupError', 'OverflowError', 'UserWarning', 'Warning', 'RuntimeWarning', 'DeprecationWarning']
TYPES = ['list', 'tuple', 'int', 'float', 'str', 'bytes', 'dict', 'bool', 'set', 'slice', 'type', 'object', 'complex']
PI = var('const:pi')
KB = var('const:k')
QE = var('const:e')
NA = var('const:N_A')
INF = var('const:inf')
CONST = {'R': KB * NA, 'N_A': NA, 'Avogadro': NA, 'e': QE, 'eV': QE, 'elementary_charge': QE, 'electron_volt': QE, 'k': KB, 'Boltzmann': KB, 'gas_constant': KB * NA, 'pi': PI}


# attributes of objects of libraries that are not imported here
NUMPY_SCALAR = set(dir(float)) | set(dir(int)) | set('''T all any argmax argmin argsort astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data
 device diagonal dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero prod ptp put ravel real
 repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist tostring trace
 transpose var view'''.split())
RELATIONSHIP = set('''abscissa bayes_factor bounds citations flatchain function get_sample len_parameters len_x likelihood ln_evidence ln_likelihood log_likelihood max_likelihood
 mcmc mcmc_results nested_sampling nested_sampling_results ordinate ordinate_error prior prior_function unc variable_medians variable_modes variables x x_error x_n
 y y_error y_n y_s neg_lnl minimise minimize sample samples from_dict to_dict'''.split())


class MaskIdx:
    """One component of np.where(mask) / mask.nonzero()."""

    def __init__(self, mask, k):
        self.mask, self.k = mask, k


class TypeV(Builtin):
    pass


def dt_of(v):
    if isinstance(v, (bool, B)):
        return 'b'
    if isinstance(v, int) or (isinstance(v, P) and v.is_int()):
        return 'i'
    return 'f'


class External:
    def __init__(self, E):
        self.E = E
        self.builtins = {}
        for n in EXC:
            self.builtins[n] = Builtin('exc:' + n, lambda a, k, n=n: ExcV(n, tuple(a)))
        for n in TYPES:
            self.builtins[n] = TypeV('type:' + n, getattr(self, 'b_' + n, None) or (lambda a, k, n=n: self.unsup(f'call of {n}')))
        for n in ('len', 'range', 'enumerate', 'zip', 'isinstance', 'abs', 'min', 'max', 'sum', 'sorted', 'print', 'any', 'all', 'round', 'reversed',
                  'hasattr', 'getattr', 'setattr', 'map', 'id', 'callable', 'issubclass', 'iter', 'next', 'repr', 'filter', 'vars'):
            f = getattr(self, 'b_' + n, None)
            if f is not None:
                self.builtins[n] = Builtin(n, f)
        self.facts()

    def unsup(self, msg):
        raise Unsupported(msg)

    def no_attr(self, types, name):
        """Nothing by that name in the model: an error in Python only if the type has none either."""
        if isinstance(types, type):
            types = set(dir(types))
        if name in types or name.startswith('__'):
            raise Unsupported(f'attribute {name}')
        raise RaiseEx(ExcV('AttributeError'))

    def builtin(self, n):
        if n == '__name__':
            return 'kinisi'
        return self.builtins.get(n)

    def facts(self):
        F = self.E.pr.facts

        def sq(x):
            s = T.sqrt(x)
            return [le(0, s)] + ([implies(le(0, x), eq(s * s, x))] if False else [])
        F['sqrt'] = sq
        F['exp'] = lambda x: [lt(0, app('exp', x))]
        F['randint'] = lambda G, lo, hi, n, k: [le(lo, app('randint', G, lo, hi, n, k, sort='i')), lt(app('randint', G, lo, hi, n, k, sort='i'), hi)]
        F['nth_true'] = self.nth_true_facts
        F['uniqlen'] = lambda l: [le(0, app('uniqlen', l, sort='i')), le(app('uniqlen', l, sort='i'), l.dims[0])] + ([implies(lt(0, l.dims[0]), lt(0, app('uniqlen', l, sort='i')))])
        F['flatlen'] = lambda l: [le(0, app('flatlen', l, sort='i'))]
        F['argmax'] = lambda l: [le(0, app('argmax', l, sort='i')), implies(lt(0, l.dims[0]), lt(app('argmax', l, sort='i'), l.dims[0]))] if len(l.dims) == 1 else []
        F['round6'] = lambda x: [le(app('round6', x) - x, Fraction(1, 2000000)), le(x - app('round6', x), Fraction(1, 2000000)), implies(le(0, x), le(0, app('round6', x)))]
        F['geom'] = lambda lo, hi, n, k: [implies(conj(lt(0, lo), lt(0, hi)), lt(0, app('geom', lo, hi, n, k))),
                                          implies(conj(lt(0, lo), le(lo, hi)), conj(le(lo, app('geom', lo, hi, n, k)), le(app('geom', lo, hi, n, k), hi))),
                                          implies(conj(lt(0, hi), le(hi, lo)), conj(le(hi, app('geom', lo, hi, n, k)), le(app('geom', lo, hi, n, k), lo)))]
        F['abs'] = lambda x: [le(0, app('abs', x)), le(x, app('abs', x)), le(-x, app('abs', x)), disj(eq(x, app('abs', x)), eq(-x, app('abs', x)))]

    def nth_true_facts(self, j, lam):
        r = app('nth_true', j, lam, sort='i')
        _, body = T.open_lam(lam, [r])
        k = app('count', lam, sort='i')
        return [implies(conj(le(0, j), lt(j, k)), conj(le(0, r), lt(r, lam.dims[0]), body))]

    # ------------------------------------------------------------------------------------------------ modules
    def module(self, name):
        return Mod(name, {})

    def module_attr(self, mod, name):
        full = mod + '.' + name
        if mod == 'typing':
            if name in ('List', 'Tuple', 'Dict'):
                return TypeV('type:' + name.lower(), lambda a, k: self.unsup('typing call'))
            return TypeV('type:any', lambda a, k: self.unsup('typing call'))
        if mod in ('scipy.constants', 'scipy.constants.codata') and name in CONST:
            return CONST[name]
        if mod == 'numpy':
            if name == 'pi':
                return PI
            if name == 'inf':
                return INF
            if name == 'newaxis':
                return None
            if name == 's_':
                return Builtin('np.s_', None)
            if name in ('ndarray', 'generic', 'integer', 'floating', 'number', 'bool_', 'float64', 'int64', 'float32', 'int32', 'float16'):
                return TypeV('type:' + name, lambda a, k: self.np_array(a[0]) if not is_num(a[0]) else a[0])
            if name in ('random', 'linalg', 'mtrand'):
                return Mod('numpy.' + name, {})
            f = getattr(self, 'np_' + name, None)
            if f is not None:
                return Builtin('np.' + name, lambda a, k: f(*a, **k) if 'out' not in k else self.into(f, a, k))
            raise Unsupported(f'numpy.{name}')
        f = getattr(self, 'x_' + full.replace('.', '_'), None)
        if f is not None:
            return Builtin(full, lambda a, k: f(*a, **k))
        if full in ('numpy.random.mtrand', 'scipy.stats', 'scipy.linalg', 'scipy.optimize', 'scipy.constants', 'os.path', 'h5py._hl', 'h5py._hl.dataset', 'h5py._hl.group',
                    'sklearn.utils', 'statsmodels.stats', 'pymatgen.io', 'pymatgen.io.vasp'):
            return Mod(full, {})
        if full in ('h5py._hl.dataset.Dataset', 'h5py._hl.group.Group', 'h5py.Dataset', 'h5py.Group'):
            return TypeV('type:h5' + name, None)
        if full == 'uravu.distribution.Distribution':
            return TypeV('type:Distribution', lambda a, k: self.x_Distribution(*a, **k))
        if full == 'uravu.relationship.Relationship':
            return TypeV('type:Relationship', lambda a, k: self.unsup('Relationship'))
        if full in ('tqdm.tqdm', 'tqdm.std.tqdm', 'tqdm.auto.tqdm'):
            return Builtin('tqdm', lambda a, k: a[0] if a else k['iterable'])
        if full == 'warnings.warn':
            def w(a, k):
                self.E.events.append(('warn', ))
                return None
            return Builtin('warnings.warn', w)
        if mod in ('MDAnalysis', 'pyblock', 'warnings'):
            return Builtin(full, lambda a, k: self.unsup(full))
        raise Unsupported(full)

    def into(self, f, a, k):
        """A numpy function with out=: the result is written there."""
        E = self.E
        k = dict(k)
        out = k.pop('out')
        if isinstance(out, tuple) and len(out) == 1:
            out = out[0]
        r = f(*a, **k)
        if out is None:
            return r
        if not isinstance(out, SArr):
            raise Unsupported('out= something that is not an array')
        if not isinstance(r, SArr) or len(r.axes) != len(out.axes) or any(not E.same_len(axlen(p), axlen(q)) for p, q in zip(r.axes, out.axes)):
            E.touch(out.store, 'out=')
            raise Unsupported('out= an array of another shape')
        g = r.getter()
        if out.vmap is not None or (out.dtype == 'i') != (r.dtype == 'i'):
            E.touch(out.store, 'out=')
            raise Unsupported('out= a view or an array of another type')
        E.write_store(out.store, g, 'out=')
        return out

    def row(self, a, i):
        """a[i] for a position known to be in range."""
        E, i = self.E, num(i)
        keep = E.pc
        E.pc = keep + [le(0, i), lt(i, axlen(a.axes[0]))]
        try:
            return self.arr_get(a, i)
        finally:
            E.pc = keep

    # ------------------------------------------------------------------------------------------------ rng
    def rng_get(self, rs=None):
        if rs is None:
            g = self.E.ghost['G']
            if isinstance(g, Poison):
                raise PoisonRead(g.loc)
            return g.term
        if isinstance(rs, Obj) and rs.cls == 'RandomState':
            return self.E.getattr(rs, 'state').term
        raise Unsupported('random state of unknown type')

    def rng_next(self, what, *args, rs=None):
        s = self.rng_get(rs)
        new = Opq(app('rng_next', s, K(what), *args, sort='o'), 'rng')
        if rs is None:
            self.E.set(self.E.ghost, 'G', new)
        else:
            self.E.set(rs.attrs, 'state', new)
        return s

    def x_numpy_random_seed(self, seed=None):
        self.E.events.append(('seed', toarg(seed)))
        self.E.set(self.E.ghost, 'G', Opq(app('seeded', toarg(seed), sort='o'), 'rng'))
        return None

    def x_numpy_random_randn(self, *dims):
        ds = [num(d) for d in dims]
        s = self.rng_next('randn', *ds)
        return SArr(simple(*ds), lambda idx: app('randn', s, *ds, *idx))

    def x_numpy_random_randint(self, lo, hi=None, size=None, dtype=None):
        if hi is None:
            lo, hi = 0, lo
        lo, hi = num(lo), num(hi)
        if size is None:
            s = self.rng_next('randint', lo, hi, ONE)
            return app('randint', s, lo, hi, ONE, ZERO, sort='i')
        if not is_num(size):
            raise Unsupported('randint shape')
        n = num(size)
        s = self.rng_next('randint', lo, hi, n)
        return SArr(simple(n), lambda idx: app('randint', s, lo, hi, n, idx[0], sort='i'), 'i')

    def x_numpy_random_get_state(self):
        return Opq(app('getstate', self.rng_get(), sort='o'), 'obj')

    def new_rs(self, seed=None):
        # an unseeded generator takes entropy from the operating system
        t = app('seeded', toarg(seed), sort='o') if seed is not None else fresh('entropy', 'o')
        return Obj('RandomState', {'state': Opq(t, 'rng')})

    def x_numpy_random_RandomState(self, seed=None):
        return self.new_rs(seed)
    x_numpy_random_mtrand_RandomState = x_numpy_random_RandomState
    x_numpy_mtrand_RandomState = x_numpy_random_RandomState

    # ------------------------------------------------------------------------------------------------ library functions
    def x_Distribution(self, samples, name='Distribution', random_state=None):
        if random_state is None:
            self.rng_next('Distribution')
        a = self.np_array(samples)
        if not isinstance(a, SArr):
            a = SArr(simple(1), lambda idx, a=a: num(a))
        return Obj('Distribution', {'samples': self.flatten(a), 'name': name})

    def distribution_attr(self, o, name):
        if name == 'size':
            return self.arr_attr(self.E.getattr(o, 'samples'), 'size')
        if name == 'to_dict':
            def f(a, k):
                return PyDict({'name': o.attrs['name'], 'samples': o.attrs['samples']})
            return Builtin('Distribution.to_dict', f)
        if name in ('min', 'max'):
            return self.reduce_opq(name, self.E.getattr(o, 'samples'))
        if name in ('n', 's', 'v', 'normal'):
            return app('dist_' + name, toarg(self.E.getattr(o, 'samples')))
        raise Unsupported(f'Distribution.{name}')

    def distribution_from_dict(self, d):
        E = self.E
        if isinstance(d, Opq):
            return Obj('Distribution', {'samples': Opq(app('getkey', d.term, K('samples'), sort='o')), 'name': Opq(app('getkey', d.term, K('name'), sort='o'))})
        return self.x_Distribution(E.getitem(d, 'samples'), name=E.getitem(d, 'name'))

    def x_scipy_stats_normaltest(self, a, *r, **k):
        if r or k:
            raise Unsupported('normaltest options')
        t = toarg(self.np_array(a))
        return (app('normaltest_s', t), app('normaltest_p', t))

    def x_scipy_stats_linregress(self, x, y):
        tx, ty = toarg(self.np_array(x)), toarg(self.np_array(y))
        return Obj('linregress', {k: app('linregress_' + k, tx, ty) for k in ('slope', 'intercept', 'rvalue', 'pvalue', 'stderr')})

    def x_scipy_stats_multivariate_normal(self, mean=None, cov=1, allow_singular=False, seed=None, **k):
        if seed is not None or k:
            raise Unsupported('multivariate_normal options')
        return Obj('mvn', {'mean': mean, 'cov': cov, 'allow_singular': allow_singular})

    def mvn_rvs(self, o, size=1, random_state=None):
        mean = self.np_array(o.attrs['mean'])
        n, d = num(size), axlen(mean.axes[0])
        tm, tc = toarg(mean), toarg(o.attrs['cov'])
        s = self.rng_next('mvn', tm, tc, toarg(o.attrs['allow_singular']), n, rs=random_state)
        return SArr(simple(n, d), lambda idx: app('mvn_rvs', s, tm, tc, toarg(o.attrs['allow_singular']), n, *idx))

    def x_scipy_linalg_pinvh(self, m, *a, **k):
        if a or k:
            raise Unsupported('pinvh options')
        return self.mat_fn('pinvh', m)

    def mat_fn(self, head, m, *extra):
        t = toarg(m)
        return SArr(m.axes, lambda idx: app(head, t, *extra, *idx))

    def x_statsmodels_stats_correlation_tools_cov_nearest(self, m, *a, **k):
        ex = [toarg(x) for x in a] + [x for kk in sorted(k) for x in (K(kk), toarg(k[kk]))]
        return self.mat_fn('cov_nearest', m, *ex)

    def x_sklearn_utils_resample(self, a, replace=True, n_samples=None, random_state=None, stratify=None):
        a = self.np_array(a)
        if a.ndim != 1 or stratify is not None:
            raise Unsupported('resample')
        n = num(n_samples) if n_samples is not None else axlen(a.axes[0])
        N = axlen(a.axes[0])
        r = toarg(replace)
        s = self.rng_next('resample', N, n, r, rs=random_state)
        flat = self.oneaxis(a)
        g = flat.getter()
        self.E.pr.facts['resample_idx'] = lambda s, N, n, r, k: [le(0, app('resample_idx', s, N, n, r, k, sort='i')), lt(app('resample_idx', s, N, n, r, k, sort='i'), N)]
        return SArr(simple(n), lambda idx: g([app('resample_idx', s, N, n, r, idx[0], sort='i')]))

    def fnterm(self, f, kinds):
        """A callable as a term: its value on fresh arguments.  kinds: list of None (scalar) or array lengths."""
        vs, args = [], []
        for n in kinds:
            if n is None:
                v = fresh('th')
                vs.append(v)
                args.append(v)
            else:
                comp = [fresh('th') for _ in range(n)]
                vs += comp
                args.append(SArr(simple(n), lambda idx, comp=comp: self.pick(comp, idx[0])))
        val = self.E.local_value(lambda: self.E.call(f, args), vs)
        self.E.events.append(('fn', vs, val))
        if isinstance(val, (int, Fraction)):
            val = num(val)
        body = toarg(val)
        return mklam(vs, [ZERO] * len(vs), body, 'fn'), vs, val

    def pick(self, items, i):
        v = num(items[-1])
        for j in range(len(items) - 2, -1, -1):
            v = ite(eq(i, j), items[j], v)
        return v

    def const_len(self, a):
        n = axlen(a.axes[0])
        if not n.is_const():
            raise Unsupported('parameter vector of unknown length')
        return int(n.const())

    def x_scipy_optimize_minimize(self, f, x0, *a, **k):
        x0 = self.np_array(x0)
        n = self.const_len(x0)
        lam, vs, val = self.fnterm(f, [n])
        ex = [toarg(x) for x in a] + [x for kk in sorted(k) for x in (K(kk), toarg(k[kk]))]
        t0 = toarg(x0)
        return Obj('OptimizeResult', {'x': SArr(simple(n), lambda idx: app('minimize', lam, t0, *ex, idx[0])), 'fun': app('minimize_fun', lam, t0, *ex)})

    def x_scipy_optimize_curve_fit(self, f, x, y, *a, **k):
        node = f.node if isinstance(f, Func) else self.unsup('curve_fit')
        npar = len(node.args.args) - 1
        x = self.np_array(x)
        vs = [fresh('th') for _ in range(npar)]
        val = self.E.local_value(lambda: self.E.call(f, [x] + vs), vs)
        lam = mklam(vs, [ZERO] * npar, toarg(val), 'fn')
        ex = [toarg(z) for z in a] + [z for kk in sorted(k) for z in (K(kk), toarg(k[kk]))]
        tx, ty = toarg(x), toarg(self.np_array(y))
        self.E.events.append(('curve_fit', vs, val))
        return (SArr(simple(npar), lambda idx: app('curve_fit', lam, tx, ty, *ex, idx[0])), Opq(app('curve_fit_cov', lam, tx, ty, *ex, sort='o')))

    def x_emcee_EnsembleSampler(self, nwalkers, ndim, log_prob_fn, **k):
        if not isinstance(ndim, int):
            raise Unsupported('number of parameters')
        ex = [x for kk in sorted(k) for x in (K(kk), toarg(k[kk]))]
        lam, vs, val = self.fnterm(log_prob_fn, [ndim])
        return Obj('EnsembleSampler', {'nwalkers': num(nwalkers), 'ndim': ndim, 'lam': lam, 'logp': (vs, val), 'state': Opq(self.rng_get(), 'rng'), 'chain': None, 'ex': ex})

    def sampler_attr(self, o, name):
        if name == 'run_mcmc':
            def run(a, k):
                a = list(a)
                pos, n = a[0], num(a[1]) if len(a) > 1 else num(k.pop('nsteps'))
                if o.attrs['chain'] is not None:
                    raise Unsupported('second run of a sampler')
                ex = [x for kk in sorted(k) if kk not in ('progress', 'progress_kwargs') for x in (K(kk), toarg(k[kk]))]
                self.E.set(o.attrs, 'chain', (toarg(pos), n, ex + o.attrs['ex']))
                self.E.set(o.attrs, 'pos', pos)
                self.E.set(o.attrs, 'nsteps', n)
                return None
            return Builtin('run_mcmc', run)
        if name in ('get_chain', 'flatchain'):
            def chain(a, k):
                if a or set(k) - {'flat', 'thin', 'discard'}:
                    raise Unsupported('get_chain options')
                flat, thin, disc = k.get('flat', False), num(k.get('thin', 1)), num(k.get('discard', 0))
                if flat is not True:
                    raise Unsupported('unflattened chain')
                p, n, ex = o.attrs['chain']
                self.E.set(o.attrs, 'kept', (thin, disc))
                nw = o.attrs['nwalkers']
                length = floor((n - disc) / thin)
                return SArr(simple(length * nw, o.attrs['ndim']), lambda idx: app('emcee', o.attrs['state'].term, nw, num(o.attrs['ndim']), o.attrs['lam'], p, n, thin, disc, *ex, *idx))
            return Builtin('get_chain', chain) if name == 'get_chain' else chain([], {'flat': True})
        raise Unsupported(f'EnsembleSampler.{name}')

    def x_numpy_linalg_inv(self, m):
        m = self.np_array(m)
        if not self.E.same_len(axlen(m.axes[-1]), 3) or not self.E.same_len(axlen(m.axes[-2]), 3):
            return self.mat_fn('matinv', m)
        g = m.getter()

        def el(idx):
            pre, i, j = idx[:-2], idx[-2], idx[-1]
            es = [g(list(pre) + [num(a), num(b)]) for a in range(3) for b in range(3)]
            return self.pick2(lambda a, b: app('inv3', *es, num(a), num(b)), i, j)
        return SArr(m.axes, el)

    def pick2(self, f, i, j):
        """f(a, b) for indices i, j in 0..2."""
        def cases(x):
            x = num(x)
            return [(TRUE, int(x.const()))] if x.is_const() else [(eq(x, 0), 0), (eq(x, 1), 1), (TRUE, 2)]
        out = None
        for ci, a in reversed(cases(i)):
            row = None
            for cj, b in reversed(cases(j)):
                row = f(a, b) if row is None else ite(cj, f(a, b), row)
            out = row if out is None else ite(ci, row, out)
        return out

    def x_numpy_linalg_slogdet(self, m):
        t = toarg(m)
        return (app('slogdet_sign', t), app('slogdet_logdet', t))

    def x_numpy_linalg_eigh(self, m):
        t = toarg(m)
        n = m.axes[0]
        return Obj('eigh', {'eigenvalues': SArr((n, ), lambda idx: app('eigval', t, *idx)), 'eigenvectors': SArr((n, n), lambda idx: app('eigvec', t, *idx))})

    def x_os_path_splitext(self, s):
        return (Opq(app('splitext0', toarg(s), sort='o'), 'str'), Opq(app('splitext1', toarg(s), sort='o'), 'str'))

    def x_os_path_exists(self, s):
        return bapp('exists', toarg(s))

    def x_h5py_File(self, name, mode='r', **k):
        if k:
            raise Unsupported('h5py options')
        return h5model.open_file(self.E, name, mode)

    def x_pymatgen_io_vasp_Xdatcar(self, f, *a, **k):
        if a or k:
            raise Unsupported('Xdatcar options')
        return Opq(app('Xdatcar', toarg(f), sort='o'), 'xdatcar')

    def enter(self, v):
        if isinstance(v, Obj) and v.cls in ('h5file', 'h5node'):
            return v
        raise Unsupported('with statement')

    def exit_(self, v):
        pass

    # ------------------------------------------------------------------------------------------------ builtins
    def b_len(self, a, k):
        v = a[0]
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, PyList):
            return tidy(rep_len(self.E.rep(v)))
        if isinstance(v, Seq):
            return tidy(v.n)
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise RaiseEx(ExcV('TypeError'))
            return tidy(axlen(v.axes[0]))
        if isinstance(v, PyDict):
            if v.rest is not None:
                raise Unsupported('length of an unknown mapping')
            return len(v.items)
        if is_num(v) or isinstance(v, (bool, B)) or v is None:
            raise RaiseEx(ExcV('TypeError'))
        if isinstance(v, Opq):
            r = self.iter_opaque(v)
            return tidy(rep_len(r))
        if isinstance(v, Obj):
            if v.lazy is not None:
                return tidy(rep_len(self.iter_object(v)))
            raise RaiseEx(ExcV('TypeError'))
        raise Unsupported(f'len of {type(v).__name__}')

    def b_range(self, a, k):
        a = [self.as_index(x) for x in a]
        lo, hi, st = (ZERO, num(a[0]), ONE) if len(a) == 1 else (num(a[0]), num(a[1]), num(a[2]) if len(a) > 2 else ONE)
        if not st.is_const() or st.const() == 0:
            raise Unsupported('range step')
        s = st.const()
        n = hi - lo
        if s < 0:
            n, s2 = lo - hi, -s
        else:
            s2 = s
        if s2 != 1:
            n = floor((n + s2 - 1) / s2)
        E = self.E
        if not n.is_const() and not E.known(le(0, n)):
            if E.branch(lt(n, 0)):
                n = ZERO
        if n.is_const() and n.const() < 0:
            n = ZERO
        return PyList(E.fold(Seq(n, lambda i: tidy(lo + num(i) * s))))

    def as_index(self, x):
        if isinstance(x, (Fraction, )) or (isinstance(x, P) and not x.is_int()):
            raise RaiseEx(ExcV('TypeError')) if isinstance(x, Fraction) else Unsupported('real number as an integer')
        return x

    def toseq(self, it):
        """('items', list) or ('seq', Seq)"""
        rep = self.E.seqof(it)
        if rep[0] in ('items', 'seq'):
            return rep
        if rep[0] == 'cat' and all(r[0] in ('items', 'seq') for r in rep[1]):
            return ('seq', Seq(rep_len(rep), lambda i: self.E.rep_at(rep, num(i))))
        raise Unsupported('sequence of unknown positions')

    def b_enumerate(self, a, k):
        st = num(a[1] if len(a) > 1 else k.get('start', 0))
        rep = self.E.seqof(a[0])
        if rep[0] == 'items':
            return PyList.of([(tidy(st + i), x) for i, x in enumerate(rep[1])])
        rep = self.toseq(a[0])
        s = rep[1]
        return PyList(('seq', Seq(s.n, lambda i: (tidy(st + num(i)), s.get(i)))))

    def b_zip(self, a, k):
        reps = [self.toseq(x) for x in a]
        if all(r[0] == 'items' for r in reps):
            return PyList.of(list(zip(*[r[1] for r in reps])))
        n = None
        for r in reps:
            m = rep_len(r)
            if n is None:
                n = m
            elif not self.E.same_len(n, m):
                if not self.E.branch(le(n, m)):
                    n = m
        return PyList(self.E.fold(Seq(n, lambda i: tuple(self.E.rep_at(r, num(i)) for r in reps))))

    def b_list(self, a, k):
        if not a:
            return PyList.of([])
        return PyList(self.E.seqof(a[0]))

    def b_tuple(self, a, k):
        if not a:
            return ()
        r = self.E.seqof(a[0])
        if r[0] != 'items':
            return PyList(r)
        return tuple(r[1])

    def b_set(self, a, k):
        return PySet(self.E.seqof(a[0]) if a else ('items', []))

    def b_dict(self, a, k):
        d = PyDict({})
        if a:
            if isinstance(a[0], PyDict):
                d.items.update(a[0].items)
                d.rest = a[0].rest
            elif isinstance(a[0], Opq):
                d.rest = a[0]
            else:
                raise Unsupported('dict()')
        k = dict(k)
        if '**' in k:
            if d.rest is not None:
                raise Unsupported('two unknown mappings')
            d.rest = k.pop('**')
        d.items.update(k)
        return d

    def b_int(self, a, k):
        v = a[0]
        if isinstance(v, SArr):
            v = self.scalar(v)
        if isinstance(v, (bool, B)):
            return tidy(ite(boolc(v), ONE, ZERO))
        if is_num(v):
            p = num(v)
            if p.is_int():
                return tidy(p)
            if not p.is_const() and self.E.known(le(0, p)):
                return tidy(floor(p))
            return tidy(trunc(p))
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise RaiseEx(ExcV('ValueError'))
        if isinstance(v, Opq):
            if v.tag == 'str' and h5model.number(v) is not None:
                return h5model.number(v)
            return app('int', v.term, sort='i')
        raise Unsupported('int()')

    def b_float(self, a, k):
        v = a[0]
        if isinstance(v, SArr):
            v = self.scalar(v)
        if is_num(v):
            return v
        raise Unsupported('float()')

    def b_bool(self, a, k):
        return self.E.truthb(a[0])

    def b_str(self, a, k):
        v = a[0]
        if isinstance(v, str):
            return v
        if isinstance(v, int) and not isinstance(v, bool):
            return str(v)
        if isinstance(v, P) and v.is_int() and self.E.known(le(0, v)):
            return h5model.text([h5model.dec(v)])
        return Opq(app('str', toarg(v), sort='o'), 'str')

    def b_type(self, a, k):
        v = a[0]
        if isinstance(v, Obj):
            return v.cls if isinstance(v.cls, Cls) else TypeV('type:' + str(v.cls), None)
        ts = self.types(v)
        return TypeV('type:' + (ts[0] if ts else 'object'), None)

    def types(self, v):
        if isinstance(v, (bool, B)):
            return ['bool', 'int']
        if isinstance(v, int):
            return ['int']
        if isinstance(v, Fraction):
            return ['float']
        if isinstance(v, P):
            return None
        if isinstance(v, str):
            return ['str']
        if isinstance(v, bytes):
            return ['bytes']
        if isinstance(v, tuple):
            return ['tuple']
        if isinstance(v, PyList):
            return ['list']
        if isinstance(v, PyDict):
            return ['dict']
        if isinstance(v, SArr):
            return ['ndarray']
        if v is None:
            return ['NoneType']
        if isinstance(v, Obj):
            return ['Obj']
        if isinstance(v, SliceV):
            return ['slice']
        if isinstance(v, (Func, Builtin, Bound)):
            return ['function']
        return None

    def b_isinstance(self, a, k):
        v, t = a
        ts = list(t) if isinstance(t, tuple) else [t]
        names, classes = [], []
        for x in ts:
            if isinstance(x, Builtin) and x.name.startswith('type:'):
                names.append(x.name[5:])
            elif isinstance(x, Cls):
                classes.append(x)
            else:
                raise Unsupported('isinstance with an unknown type')
        if 'object' in names or 'any' in names:
            return True
        if isinstance(v, Obj):
            if isinstance(v.cls, Cls):
                return any(c in v.cls.mro() for c in classes)
            return v.cls in names
        if isinstance(v, Opq):
            tag = {'str': 'str'}.get(v.tag)
            if tag:
                return tag in names
            return bapp('isinstance', v.term, K(','.join(sorted(names))))
        vt = self.types(v)
        if vt is None:
            if isinstance(v, P):
                numeric = {'int', 'float', 'generic', 'integer', 'floating', 'number', 'float64', 'int64'}
                if numeric & set(names):
                    if {'int', 'float'} <= set(names) or 'number' in names:
                        return True
                    raise Unsupported('type of a number')
                return False
            raise Unsupported('isinstance')
        return any(n in names for n in vt)

    def b_abs(self, a, k):
        return self.E.unary(a[0], lambda x: self.absf(num(x)))

    def absf(self, x):
        return app('abs', x)

    def b_min(self, a, k, f=le):
        xs = a
        if len(a) == 1:
            r = self.toseq(a[0])
            if r[0] != 'items':
                return self.reduce_opq('min' if f is le else 'max', self.np_array(a[0]))
            xs = r[1]
        if k or not all(is_num(x) for x in xs):
            raise Unsupported('min/max')
        v = num(xs[0])
        for x in xs[1:]:
            v = ite(f(v, num(x)), v, num(x))
        return tidy(v)

    def b_max(self, a, k):
        return self.b_min(a, k, ge)

    def b_sum(self, a, k):
        r = self.toseq(a[0])
        start = a[1] if len(a) > 1 else k.get('start', 0)
        if r[0] == 'items':
            v = start
            import ast as _a
            for x in r[1]:
                v = self.E.binop(_a.Add(), v, x)
            return v
        i = fresh('s', 'i')
        e = r[1].get(i)
        if isinstance(e, (B, bool)):
            e = ite(boolc(e), ONE, ZERO)
        if is_num(e):
            return tidy(num(start) + Sum(i, r[1].n, num(e)))
        if isinstance(e, SArr):
            g = e.getter()
            a0 = atom_of(i)
            if any(a0 in d.fv for d in e.comps()):
                raise Unsupported('sum of arrays of different shapes')
            return SArr(e.axes, lambda idx: num(start) + Sum(i, r[1].n, num(g(idx))))
        raise Unsupported('sum')

    def b_sorted(self, a, k):
        key = k.pop('key', None)
        if k:
            raise Unsupported('sorted with options')
        r = self.E.seqof(a[0])
        h = h5model.sorted_by(self.E, r, (lambda x: x) if key is None else (lambda x: self.E.call(key, [x])))
        if h is not None:
            return h
        if key is not None:
            if r[0] == 'items':
                ks = [self.E.call(key, [x]) for x in r[1]]
                if all(isinstance(x, int) for x in ks) or all(isinstance(x, str) for x in ks):
                    return PyList.of([x for _, x in sorted(zip(ks, r[1]), key=lambda t: t[0])])
            raise Unsupported('sorted with options')
        if r[0] == 'items' and all(isinstance(x, (int, str)) for x in r[1]):
            return PyList.of(sorted(r[1]))
        if r[0] in ('seq', 'filt'):
            n = rep_len(r)
            t = reparg(r)
            return PyList(('seq', Seq(n, lambda i: Opq(app('sorted', t, num(i), sort='o')))))
        raise Unsupported('sorted')

    def b_print(self, a, k):
        return None

    def b_any(self, a, k):
        return tidy(self.E.rep_contains_true(self.E.seqof(a[0])))

    def b_all(self, a, k):
        return tidy(self.E.rep_all_true(self.E.seqof(a[0])))

    def b_round(self, a, k):
        if len(a) > 1 and a[1] == 6:
            return app('round6', num(a[0]))
        raise Unsupported('round')

    def b_reversed(self, a, k):
        r = self.toseq(a[0])
        if r[0] == 'items':
            return PyList.of(list(reversed(r[1])))
        s = r[1]
        return PyList(('seq', Seq(s.n, lambda i: s.get(s.n - 1 - num(i)))))

    def b_map(self, a, k):
        f = a[0]
        r = self.toseq(a[1])
        out = PyList.of([])

        def body(x):
            self.E.write_list(out, cat(self.E.rep(out), ('items', [self.E.call(f, [x])])), 'map')
        self.E._iterate(r, body)
        return out

    def b_hasattr(self, a, k):
        try:
            self.E.getattr(a[0], a[1])
            return True
        except RaiseEx as e:
            if e.exc.name == 'AttributeError':
                return False
            raise

    def b_getattr(self, a, k):
        try:
            return self.E.getattr(a[0], a[1])
        except RaiseEx as e:
            if e.exc.name == 'AttributeError' and len(a) > 2:
                return a[2]
            raise

    def b_setattr(self, a, k):
        self.E.setattr(*a)

    # ------------------------------------------------------------------------------------------------ arrays: building
    def scalar(self, v):
        if isinstance(v, SArr):
            n = ONE
            for d in v.dims():
                n = n * d
            if n is not ONE:
                raise RaiseEx(ExcV('TypeError'))
            return tidy(v.at(*[ZERO] * len(v.comps())))
        return v

    def from_rep(self, rep):
        """1-d array with the elements of a list representation (numbers)."""
        E = self.E
        if rep[0] == 'items' and not rep[1]:
            return SArr(simple(0), lambda idx: ZERO, 'f', meta={'rep': rep})
        if rep[0] == 'hole':
            key = rep[1]
            n = rep[2]
            if n is None:
                n = app(key + '_len', sort='i')
            return SArr(simple(n), lambda idx: app(key, idx[0]), 'f', meta={'rep': rep})
        if rep[0] == 'filt':
            i = fresh('l', 'i')
            n, c, val = rep[1], rep[2], rep[3]
            lc = mklam([i], [n], c(i), 'cond')
            return SArr(simple(rep_len(rep)), lambda idx: num(val(app('nth_true', num(idx[0]), lc, sort='i'))), dt_of(num(val(i))), meta={'rep': rep})
        if rep[0] == 'cat' and any(r[0] in ('filt', 'hole') for r in rep[1]):
            parts = [(r, self.from_rep(r)) for r in rep[1]]
            hole = any(r[0] == 'hole' and r[2] is None for r, _ in parts)
            n = ZERO
            for _, p in parts:
                n = n + axlen(p.axes[0])

            def el(idx):
                off, segs = ZERO, []
                for _, p in parts:
                    segs.append((off, p))
                    off = off + axlen(p.axes[0])
                v = segs[-1][1].at(idx[0] - segs[-1][0])
                for o, p in reversed(segs[:-1]):
                    c = lt(idx[0], o + axlen(p.axes[0]))
                    v = ite(c, p.at(idx[0] - o), v)
                return v
            return SArr(simple(n), el, 'f', meta={'rep': rep})
        n = rep_len(rep)
        return SArr(simple(n), lambda idx: self.bn(self.E.rep_at(rep, idx[0])), 'f', meta={'rep': rep})

    def bn(self, x):
        if isinstance(x, SArr):
            x = self.scalar(x)
        if isinstance(x, B):
            return x
        if isinstance(x, bool):
            return boolc(x)
        return num(x)

    def np_array(self, v=None, dtype=None, copy=True, **kw):
        E = self.E
        if isinstance(v, SArr):
            g = v.getter()
            r = SArr(v.axes, g, v.dtype, meta=v.keep('rep', 'itemsize'))
        elif is_num(v) or isinstance(v, (bool, B)):
            return tidy(trunc(v)) if dtype is not None and is_num(v) and self.isint(dtype) else v
        elif isinstance(v, Obj):
            r = self.obj_array(v)
        elif isinstance(v, (tuple, PyList, Seq)):
            r = self.stack(v)
        elif isinstance(v, Opq):
            return self.opaque_array(v)
        else:
            raise Unsupported(f'np.array of {type(v).__name__}')
        if dtype is not None:
            r = self.astype(r, dtype)
        return r

    def isint(self, dtype):
        return isinstance(dtype, Builtin) and dtype.name in ('type:int', 'type:int64')

    def astype(self, a, dtype):
        if self.isint(dtype):
            g = a.getter()

            def f(idx):
                v = g(idx)
                if isinstance(v, B):
                    return ite(v, ONE, ZERO)
                if v.is_int():
                    return v
                return floor(v) if not v.is_const() and self.E.known(le(0, v)) else trunc(v)
            return SArr(a.axes, f, 'i')
        if isinstance(dtype, Builtin) and dtype.name in ('type:float', 'type:float64'):
            g = a.getter()
            return SArr(a.axes, lambda idx: self.E.bnum(g(idx)), 'f', meta=a.keep('rep'))
        raise Unsupported('dtype')

    def stack(self, v):
        E = self.E
        rep = E.seqof(v)
        if rep[0] == 'items' and not rep[1]:
            return self.from_rep(rep)
        if rep[0] in ('filt', ) or (rep[0] == 'cat' and any(r[0] in ('filt', 'hole') for r in rep[1])) or rep[0] == 'hole':
            return self.from_rep(rep)
        if rep[0] == 'items':
            xs = rep[1]
            if all(is_num(x) or isinstance(x, (bool, B)) for x in xs):
                dt = 'b' if all(isinstance(x, (bool, B)) for x in xs) else 'f' if any(dt_of(x) == 'f' for x in xs) else 'i'
                ys = [boolc(x) if dt == 'b' else E.bnum(x) for x in xs]

                def el(idx):
                    i = num(idx[0])
                    if i.is_const():
                        return ys[int(i.const())]
                    r = ys[-1]
                    for j in range(len(ys) - 2, -1, -1):
                        r = ite(eq(i, j), ys[j], r)
                    return r
                return SArr(simple(len(xs)), el, dt, meta={'rep': rep})
            subs = [self.np_array(x) for x in xs]
            if any(not isinstance(s, SArr) for s in subs):
                if all(is_num(s) for s in subs):
                    return self.stack(PyList.of(subs))
                raise RaiseEx(ExcV('ValueError'))
            a0 = subs[0]
            for s in subs[1:]:
                if s.ndim != a0.ndim:
                    raise RaiseEx(ExcV('ValueError'))
                for p, q in zip(s.axes, a0.axes):
                    if not E.same_len(axlen(p), axlen(q)):
                        if not E.branch(eq(axlen(p), axlen(q))):
                            raise RaiseEx(ExcV('ValueError'))
            subs = [s if all(x == y for x, y in zip(s.axes, a0.axes)) else self.realign(s, a0.axes) for s in subs]
            gs = [s.getter() for s in subs]

            def el2(idx):
                i = num(idx[0])
                if i.is_const():
                    return gs[int(i.const())](idx[1:])
                r = gs[-1](idx[1:])
                for j in range(len(gs) - 2, -1, -1):
                    r = ite(eq(i, j), gs[j](idx[1:]), r)
                return r
            dt = 'f' if any(s.dtype == 'f' for s in subs) else subs[0].dtype
            return SArr(simple(len(xs)) + a0.axes, el2, dt)
        n = rep_len(rep)
        i = fresh('l', 'i')
        get = (lambda j: E.rep_at(rep, num(j)))
        e = get(i)
        if is_num(e) or isinstance(e, (B, bool)):
            return SArr(simple(n), lambda idx: self.bn(get(idx[0])), 'b' if isinstance(e, (B, bool)) else dt_of(e), meta={'rep': rep})
        if isinstance(e, Opq):
            if e.tag == 'num':
                return SArr(simple(n), lambda idx: get(idx[0]).term)
            sub = self.opaque_array(e)
        else:
            sub = self.np_array(e)
        if not isinstance(sub, SArr):
            raise Unsupported('array of scalars')
        ia = atom_of(i)
        axes = []
        for ax in sub.axes:
            if any(ia in d.fv for d in ax):
                L = axlen(ax)
                L0 = T.subst(L, {ia: ZERO})
                j = fresh('e', 'i')
                bad = exists(j, n, ne(T.subst(L, {ia: j}), L0))
                if E.branch(bad):
                    raise RaiseEx(ExcV('ValueError'))
                ax = (L0, )
            axes.append(ax)

        def el3(idx):
            s = get(idx[0])
            s = self.np_array(s) if not isinstance(s, Opq) else self.opaque_array(s)
            return s.getter()(idx[1:])
        return SArr(simple(n) + tuple(axes), el3, sub.dtype)

    def realign(self, a, axes):
        m = self.E.align(a, axes)
        g = a.getter()
        return SArr(axes, lambda idx: g(m(idx)), a.dtype)

    def np_asarray(self, v, dtype=None):
        if isinstance(v, SArr) and dtype is None:
            return v
        return self.np_array(v, dtype)

    def np_copy(self, v):
        return self.np_array(v)

    def filled(self, axes, el, dtype, default='f'):
        """New array with elements el(idx), of a number type the semantics knows."""
        dt = default
        if dtype is not None:
            if self.isint(dtype):
                dt = 'i'
            elif isinstance(dtype, Builtin) and dtype.name in ('type:float', 'type:float64'):
                dt = 'f'
            elif isinstance(dtype, Builtin) and dtype.name == 'type:bool':
                dt = 'b'
            else:
                raise Unsupported('dtype')
        if dt == 'b':
            return SArr(axes, lambda idx: ne(el(idx), 0), 'b')
        if dt == 'i':
            return SArr(axes, lambda idx: el(idx) if num(el(idx)).is_int() else trunc(num(el(idx))), 'i')
        return SArr(axes, lambda idx: self.bn(el(idx)), 'f')

    def np_zeros(self, shape, dtype=None):
        return self.filled(simple(*self.shape_of(shape)), lambda idx: ZERO, dtype)

    def np_ones(self, shape, dtype=None):
        return self.filled(simple(*self.shape_of(shape)), lambda idx: ONE, dtype)

    def np_empty(self, shape, dtype=None):
        key = f'uninit{fresh("u").t[0][0][0][0].id}'
        dims = self.shape_of(shape)
        return self.filled(simple(*dims), lambda idx: app(key, *idx), dtype)

    def np_full(self, shape, v, dtype=None):
        x = num(v)
        return self.filled(simple(*self.shape_of(shape)), lambda idx: x, dtype, 'i' if x.is_int() else 'f')

    def np_zeros_like(self, a, dtype=None):
        a = self.np_array(a)
        return self.filled(a.axes, lambda idx: ZERO, dtype, a.dtype)

    def np_ones_like(self, a, dtype=None):
        a = self.np_array(a)
        return self.filled(a.axes, lambda idx: ONE, dtype, a.dtype)

    def shape_of(self, shape):
        if is_num(shape):
            return [num(shape)]
        r = self.E.seqof(shape)
        if r[0] != 'items':
            raise Unsupported('symbolic rank')
        return [num(x) for x in r[1]]

    def full(self, shape, v):
        return SArr(simple(*self.shape_of(shape)), lambda idx: v)

    def np_eye(self, n, dtype=None):
        if dtype is not None and isinstance(dtype, Builtin) and dtype.name == 'type:bool':
            return SArr(simple(n, n), lambda idx: eq(idx[0], idx[1]), 'b')
        if dtype is not None and not (isinstance(dtype, Builtin) and dtype.name in ('type:float', 'type:float64', 'type:int')):
            raise Unsupported('eye dtype')
        return SArr(simple(n, n), lambda idx: ite(eq(idx[0], idx[1]), ONE, ZERO))

    def np_arange(self, *a):
        r = self.b_range(list(a), {})
        return self.np_array(r)

    def np_linspace(self, lo, hi, n=50, endpoint=True, dtype=None):
        n, lo, hi = num(n), num(lo), num(hi)
        if endpoint is not True:
            raise Unsupported('linspace')
        if self.E.branch(le(n, 1)):
            f = lambda idx: lo     # noqa
        else:
            f = lambda idx: lo + num(idx[0]) * (hi - lo) / (n - 1)     # noqa
        if dtype is not None:
            if not self.isint(dtype):
                raise Unsupported('linspace dtype')
            g = f
            f = lambda idx: floor(g(idx))     # noqa
        return SArr(simple(n), f, 'i' if dtype is not None else 'f')

    def np_geomspace(self, lo, hi, n=50, endpoint=True, dtype=None):
        n, lo, hi = num(n), num(lo), num(hi)
        if dtype is not None or endpoint is not True:
            raise Unsupported('geomspace')

        def f(idx):
            k = num(idx[0])
            mid = app('geom', lo, hi, n, k)
            return ite(eq(k, 0), lo, ite(eq(k, n - 1), hi, mid))
        return SArr(simple(n), f)

    def np_unique(self, a):
        a = self.oneaxis(self.np_array(a))
        t = toarg(a)
        return SArr(simple(app('uniqlen', t, sort='i')), lambda idx: app('uniq', t, idx[0], sort='i' if a.dtype == 'i' else 'r'), a.dtype)

    # ------------------------------------------------------------------------------------------------ arrays: shape
    def oneaxis(self, a):
        """Flattened to one axis of one component."""
        if a.ndim == 1 and len(a.axes[0]) == 1:
            return a
        comps = tuple(a.comps())
        n = axlen(comps)
        g = a.getter()
        from .interp import recomp
        return SArr(simple(n), lambda idx: g(recomp([idx[0]], (n, ), comps)), a.dtype)

    def flatten(self, a):
        g = a.getter()
        comps = tuple(d for d in a.comps())
        if not comps:
            return SArr(simple(1), lambda idx: g([]), a.dtype)
        keep = [k for k, d in enumerate(comps) if d is not ONE]
        if not keep:
            return SArr(simple(1), lambda idx: g([ZERO] * len(comps)), a.dtype)
        if len(keep) == len(comps):
            return SArr((comps, ), g, a.dtype, meta=a.keep('rep'))

        def f(idx):
            out, p = [], 0
            for k in range(len(comps)):
                if k in keep:
                    out.append(idx[p])
                    p += 1
                else:
                    out.append(ZERO)
            return g(out)
        return SArr((tuple(comps[k] for k in keep), ), f, a.dtype)

    def maybe_view(self, src, dst):
        if src.store.owner:
            dst.store.owner = '?' + src.store.owner.lstrip('?')
        dst.store.base = src.store
        return dst

    def reshape(self, a, shape):
        E = self.E
        dims = self.shape_of(shape)
        comps = a.comps()
        total = axlen(comps)
        neg_ = [k for k, d in enumerate(dims) if d.is_const() and d.const() == -1]
        if neg_:
            other = ONE
            for k, d in enumerate(dims):
                if k not in neg_:
                    other = other * d
            dims[neg_[0]] = total / other
        real = [k for k, d in enumerate(comps) if d is not ONE]
        groups, p = [], 0
        for d in dims:
            if d is ONE:
                groups.append([])
                continue
            grp, prod = [], ONE
            while True:
                if grp and E.same_len(prod, d):
                    break
                if p >= len(real):
                    # lengths may differ: numpy refuses
                    if E.branch(eq(axlen(dims), total)):
                        raise Unsupported('reshape that regroups axes')
                    raise RaiseEx(ExcV('ValueError'))
                grp.append(real[p])
                prod = prod * comps[real[p]]
                p += 1
            groups.append(grp)
        if p != len(real):
            raise RaiseEx(ExcV('ValueError')) if not E.same_len(axlen(dims), total) else Unsupported('reshape')
        axes = [tuple(comps[k] for k in g) if g else (ONE, ) for g in groups]
        get = a.getter()

        def f(idx):
            out = [ZERO] * len(comps)
            q = 0
            for g in groups:
                if not g:
                    q += 1
                for k in g:
                    out[k] = idx[q]
                    q += 1
            return get(out)
        return self.maybe_view(a, SArr(axes, f, a.dtype))

    def transpose(self, a, perm=None):
        n = a.ndim
        perm = list(range(n))[::-1] if perm is None else perm
        axes = [a.axes[p] for p in perm]
        spans, q = [], 0
        for ax in a.axes:
            spans.append((q, q + len(ax)))
            q += len(ax)
        total = q

        def vm(idx):
            out = [None] * total
            p = 0
            for k in perm:
                lo, hi = spans[k]
                out[lo:hi] = idx[p:p + hi - lo]
                p += hi - lo
            return out
        base = a.vmap
        return SArr(axes, None, a.dtype, store=a.store, vmap=vm if base is None else (lambda idx: base(vm(idx))))

    def np_transpose(self, a, axes=None):
        return self.transpose(self.np_array(a) if not isinstance(a, SArr) else a, None if axes is None else [int(x) for x in self.E.seqof(axes)[1]])

    def np_swapaxes(self, a, i, j):
        p = list(range(a.ndim))
        p[i], p[j] = p[j], p[i]
        return self.transpose(a, p)

    def norm_axis(self, ax, n):
        if not isinstance(ax, int):
            raise Unsupported('axis')
        if not -n <= ax < n:
            raise RaiseEx(ExcV('ValueError'))
        return ax % n

    def np_squeeze(self, a, axis=None):
        a = a if isinstance(a, SArr) else self.np_array(a)
        if axis is None:
            drop = [k for k, ax in enumerate(a.axes) if self.E.same_len(axlen(ax), 1)]
        else:
            drop = [self.norm_axis(axis, a.ndim)]
            for k in drop:
                if not self.E.same_len(axlen(a.axes[k]), 1):
                    if not self.E.branch(eq(axlen(a.axes[k]), 1)):
                        raise RaiseEx(ExcV('ValueError'))
        ix = tuple(0 if k in drop else SliceV(None, None, None) for k in range(a.ndim))
        return self.arr_get(a, ix)

    def np_expand_dims(self, a, axis):
        a = a if isinstance(a, SArr) else self.np_array(a)
        axis = self.norm_axis(axis, a.ndim + 1)
        ix = [SliceV(None, None, None)] * a.ndim
        ix.insert(axis, None)
        return self.arr_get(a, tuple(ix))

    def np_reshape(self, a, shape):
        return self.reshape(a if isinstance(a, SArr) else self.np_array(a), shape)

    def np_ravel(self, a):
        return self.maybe_view(a, self.flatten(a))

    def np_tile(self, a, reps):
        a = self.np_array(a)
        reps = [num(r) for r in (self.E.seqof(reps)[1] if not is_num(reps) else [reps])]
        n = max(a.ndim, len(reps))
        axes = ((ONE, ), ) * (n - a.ndim) + a.axes
        reps = [ONE] * (n - len(reps)) + reps
        pad = n - a.ndim
        g = a.getter()
        out = []
        for ax, r in zip(axes, reps):
            if r is ONE:
                out.append(ax)
            elif axlen(ax) is ONE:
                out.append((r, ))
            else:
                out.append((r, ) + tuple(ax))

        def f(idx):
            res, p = [], 0
            for k, (ax, r) in enumerate(zip(axes, reps)):
                if r is ONE:
                    part = idx[p:p + len(ax)]
                    p += len(ax)
                elif axlen(ax) is ONE:
                    part = [ZERO] * len(ax)
                    p += 1
                else:
                    part = idx[p + 1:p + 1 + len(ax)]
                    p += 1 + len(ax)
                if k >= pad:
                    res += part
            return g(res)
        return SArr(out, f, a.dtype)

    def single(self, a, axis):
        """The same array with the given axis as one component."""
        if len(a.axes[axis]) == 1:
            return a
        from .interp import recomp
        pos = sum(len(ax) for ax in a.axes[:axis])
        ax = a.axes[axis]
        n = axlen(ax)
        g = a.getter()
        axes = a.axes[:axis] + ((n, ), ) + a.axes[axis + 1:]
        return SArr(axes, lambda idx: g(list(idx[:pos]) + recomp([idx[pos]], (n, ), ax) + list(idx[pos + 1:])), a.dtype)

    def pos_of(self, a, axis):
        return sum(len(ax) for ax in a.axes[:axis])

    def np_concatenate(self, seq, axis=0):
        E = self.E
        if isinstance(seq, SArr):
            rep = E.fold(Seq(axlen(seq.axes[0]), lambda i: self.row(seq, i)))
        else:
            rep = E.seqof(seq)
        if rep[0] == 'items':
            arrs = [x if isinstance(x, SArr) else self.np_array(x) for x in rep[1]]
            if not arrs or any(not isinstance(x, SArr) or x.ndim == 0 for x in arrs):
                raise RaiseEx(ExcV('ValueError'))
            k = self.norm_axis(axis, arrs[0].ndim)
            a0 = arrs[0]
            for x in arrs[1:]:
                if x.ndim != a0.ndim:
                    raise RaiseEx(ExcV('ValueError'))
                for m in range(a0.ndim):
                    if m != k and not E.same_len(axlen(x.axes[m]), axlen(a0.axes[m])):
                        if not E.branch(eq(axlen(x.axes[m]), axlen(a0.axes[m]))):
                            raise RaiseEx(ExcV('ValueError'))
            arrs = [self.single(x, k) for x in arrs]
            tmpl = arrs[0].axes
            arrs = [self.realign(x, tuple(x.axes[m] if m == k else tmpl[m] for m in range(x.ndim))) for x in arrs]
            pos = self.pos_of(arrs[0], k)
            if a0.ndim == 1:
                return self.from_rep(cat(*[x.listrep() or self.rep_of(x) for x in arrs]))
            gs, off, segs = [x.getter() for x in arrs], ZERO, []
            for x, g in zip(arrs, gs):
                segs.append((off, axlen(x.axes[k]), g))
                off = off + axlen(x.axes[k])
            total = off

            def f(idx):
                i = idx[pos]
                v = None
                for o, n, g in reversed(segs):
                    w = g(list(idx[:pos]) + [i - o] + list(idx[pos + 1:]))
                    v = w if v is None else ite(lt(i, o + n), w, v)
                return v
            axes = tuple((total, ) if m == k else tmpl[m] for m in range(a0.ndim))
            return SArr(axes, f, 'f' if any(x.dtype == 'f' for x in arrs) else arrs[0].dtype)
        n = rep_len(rep)
        i = fresh('l', 'i')
        e = E.rep_at(rep, i)
        e = self.np_array(e)
        k = self.norm_axis(axis, e.ndim)
        ia = atom_of(i)
        if any(ia in d.fv for d in e.comps()):
            raise Unsupported('concatenation of arrays of different shapes')
        L = e.axes[k]
        pos = self.pos_of(e, k)
        one = axlen(L) is ONE
        axes = e.axes[:k] + (((n, ) if one else (n, ) + tuple(L)), ) + e.axes[k + 1:]

        def g(idx):
            s = self.np_array(E.rep_at(rep, idx[pos]))
            rest = list(idx[pos + 1:])
            if one:
                return s.getter()(list(idx[:pos]) + [ZERO] * len(L) + rest)
            return s.getter()(list(idx[:pos]) + rest)
        return SArr(axes, g, e.dtype)

    def np_stack(self, seq, axis=0):
        r = self.stack(seq)
        k = self.norm_axis(axis, r.ndim)
        if k == 0:
            return r
        p = list(range(1, r.ndim))
        return self.transpose(r, p[:k] + [0] + p[k:])

    def np_vstack(self, seq):
        if isinstance(seq, SArr):
            if seq.ndim < 3:
                raise Unsupported('vstack')
            return self.np_concatenate(seq, axis=0)
        rep = self.E.seqof(seq)
        one = rep[1][0] if rep[0] == 'items' and rep[1] else self.E.rep_at(rep, fresh('l', 'i'))
        one = one if isinstance(one, SArr) else self.np_array(one)
        if not isinstance(one, SArr) or one.ndim == 0:
            raise Unsupported('vstack')
        return self.stack(seq) if one.ndim == 1 else self.np_concatenate(seq, axis=0)

    def rep_of(self, a):
        if a.listrep() is not None:
            return a.listrep()
        a1 = self.oneaxis(a)
        g = a1.getter()
        n = axlen(a1.axes[0])
        if n.is_const():
            return ('items', [g([num(i)]) for i in range(int(n.const()))])
        s = Seq(n, lambda i: g([num(i)]))
        if a1 is not a:
            s.arr = SArr(a.axes, a.getter(), a.dtype)
        return ('seq', s)

    def np_append(self, arr, values, axis=None):
        if axis is not None:
            raise Unsupported('append axis')
        a = arr if isinstance(arr, SArr) else self.np_array(arr)
        if isinstance(values, SArr) or isinstance(values, (PyList, tuple)):
            v = values if isinstance(values, SArr) else self.np_array(values)
            if v.ndim == 0:
                r = ('items', [v.at()])
            else:
                r = self.rep_of(v)
        else:
            r = ('items', [values if is_num(values) or isinstance(values, (bool, B)) else self.unsup('append')])
        return self.from_rep(cat(self.rep_of(a), r))

    def np_insert(self, *a, **k):
        raise Unsupported('np.insert')

    # ------------------------------------------------------------------------------------------------ arrays: arithmetic
    def ew(self, f, dtype=None):
        def g(v, *r, **k):
            if r or k:
                raise Unsupported('ufunc options')
            return self.E.unary(v, lambda x: f(self.E.bnum(x)), dtype)
        return g

    def np_floor(self, v):
        return self.ew(floor)(v)

    def np_ceil(self, v):
        return self.ew(lambda x: -floor(-x))(v)

    def np_sqrt(self, v):
        return self.ew(T.sqrt, 'f')(v)

    def np_exp(self, v):
        return self.ew(lambda x: app('exp', x), 'f')(v)

    def np_log(self, v):
        return self.ew(lambda x: app('log', x), 'f')(v)

    def np_cos(self, v):
        return self.ew(lambda x: app('cos', x), 'f')(v)

    def np_sin(self, v):
        return self.ew(lambda x: app('sin', x), 'f')(v)

    def np_abs(self, v):
        return self.ew(self.absf)(v)

    def np_square(self, v):
        return self.ew(lambda x: x * x)(v)

    def np_negative(self, v):
        return self.ew(lambda x: -x)(v)

    def np_real(self, v):
        return v

    def np_logical_not(self, v):
        return self.E.unary(v, lambda x: neg(boolc(x)), 'b')

    def np_arctan2(self, a, b):
        return self.E.arith(a, b, lambda x, y: app('arctan2', x, y), div=True)

    def np_round(self, v, decimals=0):
        if decimals == 6:
            def r6(x):
                return x if x.is_int() else app('round6', x)
            return self.ew(r6)(v)
        if decimals == 0:
            def r0(x):
                return x if x.is_int() else app('round0', x)
            return self.ew(r0)(v)
        raise Unsupported('round')
    np_around = np_round
    np_rint = np_round

    def _bin(name):
        def f(self, a, b, *out):
            if len(out) == 1:
                return self.into(lambda x, y: f(self, x, y), (a, b), {'out': out[0]})
            import ast as _a
            return self.E.binop(getattr(_a, name)(), self.aslist(a), self.aslist(b))
        return f
    np_add, np_subtract, np_multiply, np_divide, np_true_divide = _bin('Add'), _bin('Sub'), _bin('Mult'), _bin('Div'), _bin('Div')
    np_power, np_mod, np_remainder, np_floor_divide = _bin('Pow'), _bin('Mod'), _bin('Mod'), _bin('FloorDiv')

    def aslist(self, a):
        return self.np_array(a) if isinstance(a, (PyList, tuple, Seq)) else a

    def np_minimum(self, a, b):
        return self.E.arith(self.aslist(a), self.aslist(b), lambda x, y: ite(le(x, y), x, y))

    def np_maximum(self, a, b):
        return self.E.arith(self.aslist(a), self.aslist(b), lambda x, y: ite(ge(x, y), x, y))

    def np_clip(self, a, lo, hi):
        r = a
        if lo is not None:
            r = self.np_maximum(r, lo)
        if hi is not None:
            r = self.np_minimum(r, hi)
        return r

    def np_logical_and(self, a, b):
        return self.E.arith(a, b, lambda x, y: conj(boolc(x), boolc(y)), dtype='b')

    def red_axes(self, a, axis):
        if axis is None:
            return list(range(a.ndim))
        if isinstance(axis, tuple):
            return [self.norm_axis(x, a.ndim) for x in axis]
        return [self.norm_axis(axis, a.ndim)]

    def fold_sum(self, a, ks, f=None, keepdims=False):
        """Sum over the axes ks of f(element)."""
        f = f or (lambda x, idx: x)
        spans, q = [], 0
        for ax in a.axes:
            spans.append((q, q + len(ax)))
            q += len(ax)
        total = q
        comps = a.comps()
        keep = [k for k in range(a.ndim) if k not in ks]
        g = a.getter()
        cache = {}

        def el(idx):
            full = [None] * total
            p = 0
            for k in range(a.ndim):
                lo, hi = spans[k]
                if k in keep:
                    full[lo:hi] = idx[p:p + hi - lo]
                    p += hi - lo
                elif keepdims:
                    p += 1
            bs = []
            for k in ks:
                for c in range(*spans[k]):
                    if comps[c].is_const() and comps[c].const() == 1:
                        full[c] = ZERO
                    else:
                        full[c] = fresh('s', 'i')
                        bs.append((full[c], comps[c]))
            v = f(self.E.bnum(g(full)), full)
            for x, n in reversed(bs):
                v = Sum(x, n, v)
            return v
        if keepdims:
            axes = [a.axes[k] if k in keep else (ONE, ) for k in range(a.ndim)]
        else:
            axes = [a.axes[k] for k in keep]
        if not axes:
            return tidy(el([]))
        return SArr(axes, el, a.dtype if a.dtype != 'b' else 'i')

    def red_n(self, a, ks):
        n = ONE
        for k in ks:
            n = n * axlen(a.axes[k])
        return n

    def np_sum(self, a, axis=None, keepdims=False, **kw):
        if kw:
            raise Unsupported('sum options')
        a = a if isinstance(a, SArr) else self.np_array(a)
        if not isinstance(a, SArr):
            return a
        return self.fold_sum(a, self.red_axes(a, axis), keepdims=keepdims)

    def np_mean(self, a, axis=None, keepdims=False):
        a = a if isinstance(a, SArr) else self.np_array(a)
        if not isinstance(a, SArr):
            return a
        ks = self.red_axes(a, axis)
        n = self.red_n(a, ks)
        return self.E.arith(self.fold_sum(a, ks, keepdims=keepdims), n, lambda x, y: x / y, div=True)

    def np_average(self, a, axis=None, weights=None, keepdims=False):
        a = a if isinstance(a, SArr) else self.np_array(a)
        if weights is None:
            return self.np_mean(a, axis, keepdims)
        w = weights if isinstance(weights, SArr) else self.np_array(weights)
        ks = self.red_axes(a, axis)
        if len(ks) != 1 or w.ndim != 1:
            raise Unsupported('weights')
        if not self.E.same_len(axlen(w.axes[0]), axlen(a.axes[ks[0]])):
            raise Unsupported('weights of another length')
        a = self.single(a, ks[0])
        w = self.oneaxis(w)
        gw = w.getter()
        pos = self.pos_of(a, ks[0])
        top = self.fold_sum(a, ks, lambda x, idx: x * gw([idx[pos]]), keepdims)
        v = fresh('s', 'i')
        bot = Sum(v, axlen(w.axes[0]), gw([v]))
        return self.E.arith(top, bot, lambda x, y: x / y, div=True)

    def np_var(self, a, axis=None, ddof=0):
        a = a if isinstance(a, SArr) else self.np_array(a)
        ks = self.red_axes(a, axis)
        n = self.red_n(a, ks)
        s1 = self.fold_sum(a, ks)
        s2 = self.fold_sum(a, ks, lambda x, idx: x * x)
        return self.E.arith(s2, self.E.arith(s1, s1, lambda x, y: x * y), lambda p, q: (p - q / n) / (n - num(ddof)), div=True)

    def np_std(self, a, axis=None, ddof=0):
        return self.np_sqrt(self.np_var(a, axis, ddof))

    def np_prod(self, a, axis=None):
        a = a if isinstance(a, SArr) else self.np_array(a)
        if axis is not None or not all(d.is_const() for d in a.comps()):
            raise Unsupported('prod')
        rep = self.rep_of(a)
        if rep[0] != 'items':
            raise Unsupported('prod')
        v = ONE
        for x in rep[1]:
            v = v * num(x)
        return tidy(v)

    def reduce_opq(self, head, a, axis=None, sort=None):
        a = a if isinstance(a, SArr) else self.np_array(a)
        if axis is not None:
            raise Unsupported(head + ' along an axis')
        return app(head, toarg(self.oneaxis(a)), sort=sort or ('i' if a.dtype == 'i' else 'r'))

    def np_max(self, a, axis=None):
        return self.reduce_opq('max', a, axis)
    np_amax = np_max

    def np_min(self, a, axis=None):
        return self.reduce_opq('min', a, axis)
    np_amin = np_min

    def np_argmax(self, a, axis=None):
        return self.reduce_opq('argmax', a, axis, 'i')

    def np_argmin(self, a, axis=None):
        return self.reduce_opq('argmin', a, axis, 'i')

    def np_median(self, a, axis=None):
        return self.reduce_opq('median', a, axis)

    def np_isclose(self, *a, **k):
        raise Unsupported('isclose')

    def np_any(self, a, axis=None):
        a = a if isinstance(a, SArr) else self.np_array(a)
        if not isinstance(a, SArr):
            return self.E.truthb(a)
        if axis is not None:
            raise Unsupported('any along an axis')
        idx = a.fresh_idx()
        body = boolc(a.at(*idx))
        for v, n in reversed(list(zip(idx, a.comps()))):
            body = exists(v, n, body)
        return tidy(body)

    def np_all(self, a, axis=None):
        r = self.np_any(self.np_logical_not(a if isinstance(a, SArr) else self.np_array(a)), axis)
        return tidy(neg(boolc(r)))

    def np_diff(self, a, n=1, axis=-1):
        if n != 1:
            raise Unsupported('diff')
        a = a if isinstance(a, SArr) else self.np_array(a)
        k = self.norm_axis(axis, a.ndim)
        a = self.single(a, k)
        pos = self.pos_of(a, k)
        g = a.getter()
        m = axlen(a.axes[k]) - 1
        axes = a.axes[:k] + ((m, ), ) + a.axes[k + 1:]
        up = lambda idx: list(idx[:pos]) + [idx[pos] + 1] + list(idx[pos + 1:])      # noqa
        return SArr(axes, lambda idx: g(up(idx)) - g(list(idx)), a.dtype)

    def np_cumsum(self, a, axis=None):
        a = a if isinstance(a, SArr) else self.np_array(a)
        if axis is None:
            a = self.oneaxis(a)
            axis = 0
        k = self.norm_axis(axis, a.ndim)
        a = self.single(a, k)
        pos = self.pos_of(a, k)
        g = a.getter()

        def f(idx):
            v = fresh('s', 'i')
            return Sum(v, num(idx[pos]) + 1, num(g(list(idx[:pos]) + [v] + list(idx[pos + 1:]))))
        return SArr(a.axes, f, a.dtype)

    def np_einsum(self, spec, *ops):
        if not isinstance(spec, str) or '->' not in spec:
            raise Unsupported('einsum')
        ins, out = spec.replace(' ', '').split('->')
        ins = ins.split(',')
        ops = [o if isinstance(o, SArr) else self.np_array(o) for o in ops]
        if len(ins) != len(ops):
            raise RaiseEx(ExcV('ValueError'))
        dims = {}
        for s, o in zip(ins, ops):
            if len(s) != o.ndim:
                raise RaiseEx(ExcV('ValueError'))
            for c, ax in zip(s, o.axes):
                n = axlen(ax)
                if c in dims:
                    if not self.E.same_len(dims[c], n):
                        if not self.E.branch(eq(dims[c], n)):
                            raise RaiseEx(ExcV('ValueError'))
                else:
                    dims[c] = n
        ops = [self.allsingle(o) for o in ops]
        gs = [o.getter() for o in ops]
        inner = [c for c in dims if c not in out]

        def f(idx):
            e = dict(zip(out, idx))
            bs = []
            for c in inner:
                e[c] = fresh('s', 'i')
                bs.append((e[c], dims[c]))
            v = ONE
            for s, g in zip(ins, gs):
                v = v * g([e[c] for c in s])
            for x, n in reversed(bs):
                v = Sum(x, n, v)
            return v
        if not out:
            return tidy(f([]))
        return SArr(simple(*[dims[c] for c in out]), f)

    def allsingle(self, o):
        for k in range(o.ndim):
            o = self.single(o, k)
        return o

    def matmul(self, a, b):
        a, b = (x if isinstance(x, SArr) else self.np_array(x) for x in (a, b))
        if not isinstance(a, SArr) or not isinstance(b, SArr):
            raise RaiseEx(ExcV('ValueError'))
        a, b = self.allsingle(a), self.allsingle(b)
        la = axlen(a.axes[-1])
        lb = axlen(b.axes[0 if b.ndim == 1 else -2])
        if not self.E.same_len(la, lb):
            if not self.E.branch(eq(la, lb)):
                raise RaiseEx(ExcV('ValueError'))
        ga, gb = a.getter(), b.getter()
        if a.ndim > 2 or b.ndim > 2:
            if a.ndim == 3 and b.ndim in (2, 3):
                def f3(idx):
                    v = fresh('s', 'i')
                    left = ga([idx[0], idx[1], v])
                    right = gb([v, idx[2]]) if b.ndim == 2 else gb([idx[0], v, idx[2]])
                    return Sum(v, la, left * right)
                if b.ndim == 3 and not self.E.same_len(axlen(a.axes[0]), axlen(b.axes[0])):
                    raise Unsupported('matmul broadcasting')
                return SArr(a.axes[:2] + b.axes[-1:], f3)
            raise Unsupported('matmul rank')

        def f(idx):
            idx = list(idx)
            v = fresh('s', 'i')
            i = idx[:a.ndim - 1]
            j = idx[a.ndim - 1:]
            return Sum(v, la, ga(i + [v]) * gb(([v] + j) if b.ndim == 2 else [v]))
        axes = a.axes[:-1] + (b.axes[1:] if b.ndim == 2 else ())
        if not axes:
            return tidy(f([]))
        return SArr(axes, f)

    def np_matmul(self, a, b):
        return self.matmul(a, b)

    def np_dot(self, a, b):
        if is_num(a) or is_num(b):
            return self.np_multiply(a, b)
        return self.matmul(a, b)

    def np_outer(self, a, b):
        a, b = self.oneaxis(self.np_array(a)), self.oneaxis(self.np_array(b))
        ga, gb = a.getter(), b.getter()
        return SArr(a.axes + b.axes, lambda idx: ga([idx[0]]) * gb([idx[1]]))

    def np_diag(self, a):
        a = self.np_array(a)
        g = a.getter()
        if a.ndim == 1:
            a = self.oneaxis(a)
            g = a.getter()
            return SArr(a.axes + a.axes, lambda idx: ite(eq(idx[0], idx[1]), g([idx[0]]), ZERO))
        return SArr(a.axes[:1], lambda idx: g([idx[0], idx[0]]))

    def np_ndim(self, a):
        return 0 if is_num(a) else self.np_array(a).ndim

    def np_identity(self, n, dtype=None):
        return self.np_eye(n, dtype)

    def np_tril(self, a, k=0):
        g = a.getter()
        return SArr(a.axes, lambda idx: ite(le(idx[1], num(idx[0]) + num(k)), g(list(idx)), ZERO))

    def fixed_items(self, xs):
        r = self.E.seqof(xs)
        if r[0] != 'items':
            raise Unsupported('unknown number of arrays')
        return r[1]

    def np_column_stack(self, xs):
        xs = [x if isinstance(x, SArr) else self.np_array(x) for x in self.fixed_items(xs)]
        if any(x.ndim != 1 for x in xs):
            raise Unsupported('column_stack of matrices')
        return self.np_stack(PyList.of(xs), axis=1)

    def np_triu(self, a, k=0):
        g = a.getter()
        return SArr(a.axes, lambda idx: ite(le(num(idx[0]) + num(k), idx[1]), g(list(idx)), ZERO))

    def np_where(self, c, a=None, b=None):
        c = c if isinstance(c, SArr) else self.np_array(c)
        if a is None:
            if isinstance(c, B) or isinstance(c, bool):
                raise Unsupported('where of a scalar')
            if c.ndim == 1:
                return (self.np_flatnonzero(c), )
            return tuple(MaskIdx(c, k) for k in range(c.ndim))
        r = self.E.arith(c, a, lambda x, y: y)            # shape check
        g = [self.E.arith(c, x, lambda p, q: q) if isinstance(c, SArr) or isinstance(x, SArr) else x for x in (a, b)]
        if not isinstance(c, SArr):
            raise Unsupported('where')
        return self.where3(c, a, b)

    def where3(self, c, a, b):
        E = self.E
        one = E.arith(c, a, lambda x, y: y)
        two = E.arith(c, b, lambda x, y: y)
        ax, ma, mb = E.broadcast(one, two)
        ax2, mc, mr = E.broadcast(c, SArr(ax, lambda idx: ZERO))
        gc, g1, g2 = c.getter(), one.getter(), two.getter()
        dt = max((x.dtype if isinstance(x, SArr) else dt_of(x) for x in (a, b)), key='bif'.find)
        if dt == 'b':
            return SArr(ax, lambda idx: disj(conj(boolc(gc(mc(idx))), boolc(g1(ma(idx)))), conj(neg(boolc(gc(mc(idx)))), boolc(g2(mb(idx))))), 'b')
        return SArr(ax, lambda idx: ite(boolc(gc(mc(idx))), self.E.bnum(g1(ma(idx))), self.E.bnum(g2(mb(idx)))), dt)

    def np_nonzero(self, c):
        return self.np_where(c)

    def np_argwhere(self, c):
        c = c if isinstance(c, SArr) else self.np_array(c)
        if c.ndim != 1:
            raise Unsupported('argwhere')
        lam, n = self.masklam(c)
        return SArr(simple(n, 1), lambda idx: app('nth_true', num(idx[0]), lam, sort='i'), 'i')

    def np_flatnonzero(self, c):
        c = c if isinstance(c, SArr) else self.np_array(c)
        lam, n = self.masklam(c)
        meta = {'mask': SArr(c.axes, c.getter(), 'b')} if c.ndim == 1 else None
        return SArr(simple(n), lambda idx: app('nth_true', num(idx[0]), lam, sort='i'), 'i', meta=meta)

    def masklam(self, c):
        c = self.oneaxis(c)
        i = fresh('l', 'i')
        n = axlen(c.axes[0])
        lam = mklam([i], [n], boolc(c.at(i)), 'cond')
        return lam, app('count', lam, sort='i')

    # ------------------------------------------------------------------------------------------------ arrays: attributes
    def obj_array(self, o):
        if o.cls == 'Distribution':
            s = self.E.getattr(o, 'samples')
            if isinstance(s, SArr):
                return s
        raise Unsupported('object in arithmetic')

    def arr_attr(self, a, name):
        if name == 'shape':
            return tuple(tidy(d) for d in a.dims())
        if name == 'size':
            return tidy(axlen(a.comps()))
        if name == 'ndim':
            return a.ndim
        if name == 'T':
            return self.transpose(a)
        if name == 'itemsize':
            return a.meta.get('itemsize', 8)
        if name == 'nbytes':
            return tidy(axlen(a.comps()) * num(a.meta.get('itemsize', 8)))
        if name == 'real':
            return a
        if name == 'dtype':
            return Opq(app('dtype', K(a.dtype), sort='o'), 'dtype')
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            return Builtin('ndarray.' + name, lambda ar, k: m(a, *ar, **k))
        if name in ('mean', 'sum', 'var', 'std', 'max', 'min', 'argmax', 'argmin', 'any', 'all', 'cumsum', 'squeeze', 'round', 'dot', 'prod', 'nonzero', 'swapaxes', 'clip'):
            f = getattr(self, 'np_' + name)
            return Builtin('ndarray.' + name, lambda ar, k: f(a, *ar, **k))
        raise Unsupported(f'ndarray.{name}')

    def m_flatten(self, a):
        return self.flatten(a)

    def m_ravel(self, a):
        return self.maybe_view(a, self.flatten(a))

    def m_copy(self, a):
        return self.np_array(a)

    def m_tolist(self, a):
        return PyList(self.rep_of(a)) if a.ndim == 1 else self.unsup('tolist')

    def m_astype(self, a, dtype):
        return self.astype(a, dtype)

    def m_reshape(self, a, *shape):
        return self.reshape(a, shape[0] if len(shape) == 1 else tuple(shape))

    def m_transpose(self, a, *axes):
        return self.transpose(a, list(axes) or None)

    def m_item(self, a):
        return self.scalar(a)

    def m_fill(self, a, v):
        if a.vmap is not None:
            raise Unsupported('fill of a view')
        self.E.write_store(a.store, lambda idx: num(v), 'fill')

    def m_sort(self, a, *r):
        self.E.touch(a.store, 'sort')
        raise Unsupported('in-place sort')

    # ------------------------------------------------------------------------------------------------ arrays: indexing
    def index_plan(self, a, ix):
        """Normalised index items, one per source axis (plus new axes)."""
        items = list(ix) if isinstance(ix, tuple) else [ix]
        items = [self.aslist(x) if isinstance(x, (PyList, Seq)) else x for x in items]
        items = [self.scalar(x) if isinstance(x, SArr) and x.ndim == 0 else x for x in items]
        if any(isinstance(x, SArr) and x.dtype == 'b' for x in items):
            items = [y for x in items for y in (self.positions(x) if isinstance(x, SArr) and x.dtype == 'b' else [x])]
        real = sum(1 for x in items if x is not None and x is not Ellipsis)
        if Ellipsis in [x for x in items if not isinstance(x, (SArr, P, B))]:
            k = next(i for i, x in enumerate(items) if x is Ellipsis)
            items[k:k + 1] = [SliceV(None, None, None)] * (a.ndim - real)
        elif real < a.ndim:
            items += [SliceV(None, None, None)] * (a.ndim - real)
        if sum(1 for x in items if x is not None) > a.ndim:
            raise RaiseEx(ExcV('IndexError'))
        plan, k = [], 0
        adv = any(isinstance(x, SArr) for x in items)
        for x in items:
            if x is None:
                plan.append(('new', ))
                continue
            ax = a.axes[k]
            n = axlen(ax)
            if isinstance(x, SliceV):
                if x.lo is None and x.hi is None and x.step is None:
                    plan.append(('keep', k))
                else:
                    lo, cnt, st = self.E.slice_range(x, n)
                    if lo is ZERO and cnt is n and st is ONE:
                        plan.append(('keep', k))
                    else:
                        plan.append(('slice', k, lo, cnt, st))
            elif is_num(x):
                if not num(x).is_int():
                    if isinstance(x, Fraction):
                        raise RaiseEx(ExcV('IndexError'))
                    raise Unsupported('real number as an index')
                plan.append(('int', k, self.E.norm_index(x, n)))
            elif isinstance(x, SArr):
                plan.append(('adv', k, x))
            else:
                raise Unsupported(f'array index of type {type(x).__name__}')
            k += 1
        return plan, adv

    def positions(self, m):
        """The index arrays a mask inside a tuple of indices stands for."""
        if m.ndim == 1:
            return [self.np_flatnonzero(m)]
        if m.ndim != 2:
            raise Unsupported('mask of more than two axes')
        dims = m.dims()
        if all(d.is_const() for d in dims) and dims[0].const() * dims[1].const() <= 64:
            at = [(i, j) for i in range(int(dims[0].const())) for j in range(int(dims[1].const()))]
            vals = [boolc(self.allsingle(m).at(num(i), num(j))) for i, j in at]
            if all(b is TRUE or b is FALSE for b in vals):
                at = [p for p, b in zip(at, vals) if b is TRUE]
                return [self.np_array(PyList.of([num(p[k]) for p in at])) for k in (0, 1)]
        lam, n = self.masklam(m)
        nth = lambda i: app('nth_true', num(i), lam, sort='i')        # noqa
        row = lambda i: floor(nth(i) / dims[1])        # noqa
        return [SArr(simple(n), lambda idx: row(idx[0]), 'i'), SArr(simple(n), lambda idx: nth(idx[0]) - dims[1] * row(idx[0]), 'i')]

    def is_mask(self, ix):
        if isinstance(ix, tuple) and len(ix) == 1 and isinstance(ix[0], SArr):
            ix = ix[0]
        if isinstance(ix, SArr):
            return ix if ix.dtype == 'b' else ix.maskrep()
        if isinstance(ix, tuple) and ix and all(isinstance(x, MaskIdx) for x in ix):
            if len(ix) == ix[0].mask.ndim and all(x.mask is ix[0].mask and x.k == k for k, x in enumerate(ix)):
                return ix[0].mask
            raise Unsupported('mixed mask index')
        return None

    def arr_get(self, a, ix):
        from .interp import recomp
        E = self.E
        m = self.is_mask(ix)
        if m is not None:
            if m.ndim != a.ndim:
                if m.ndim == 1 and a.ndim > 1:
                    lam, n = self.masklam(m)
                    g = self.single(a, 0).getter()
                    return SArr(((n, ), ) + a.axes[1:], lambda idx: g([app('nth_true', num(idx[0]), lam, sort='i')] + list(idx[1:])), a.dtype)
                raise Unsupported('mask of lower rank')
            if a.ndim == 1:
                lam, n = self.masklam(m)
                g = self.oneaxis(a).getter()
                return SArr(simple(n), lambda idx: g([app('nth_true', num(idx[0]), lam, sort='i')]), a.dtype)
            # all selected elements in row-major order
            lam, n = self.masklam(m)
            ga = self.oneaxis(a).getter()
            return SArr(simple(n), lambda idx: ga([app('nth_true', num(idx[0]), lam, sort='i')]), a.dtype)
        plan, adv = self.index_plan(a, ix)
        spans, q = [], 0
        for ax in a.axes:
            spans.append((q, q + len(ax)))
            q += len(ax)
        total = q
        if not adv:
            axes = []
            for p in plan:
                if p[0] == 'new':
                    axes.append((ONE, ))
                elif p[0] == 'keep':
                    axes.append(a.axes[p[1]])
                elif p[0] == 'slice':
                    axes.append((p[3], ))

            def vm(idx):
                out = [None] * total
                pos = 0
                for p in plan:
                    if p[0] == 'new':
                        pos += 1
                        continue
                    lo, hi = spans[p[1]]
                    ax = a.axes[p[1]]
                    if p[0] == 'keep':
                        out[lo:hi] = idx[pos:pos + len(ax)]
                        pos += len(ax)
                    elif p[0] == 'slice':
                        out[lo:hi] = recomp([p[2] + num(idx[pos]) * p[4]], (axlen(ax), ), ax)
                        pos += 1
                    else:
                        out[lo:hi] = recomp([p[2]], (axlen(ax), ), ax)
                return out
            base = a.vmap
            if not axes:
                return E.lift(a.getter()(vm([])))
            meta = {}
            if all(p[0] == 'keep' for p in plan):
                meta = a.keep('rep', 'itemsize')
            elif 'itemsize' in a.meta:
                meta = {'itemsize': a.meta['itemsize']}
            return SArr(axes, None, a.dtype, store=a.store, vmap=vm if base is None else (lambda idx: base(vm(idx))), meta=meta)
        # advanced indexing: a copy
        kinds = [p[0] in ('adv', 'int') for p in plan]
        first = kinds.index(True)
        last = len(kinds) - 1 - kinds[::-1].index(True)
        together = all(kinds[first:last + 1])
        arrs = [p[2] for p in plan if p[0] == 'adv']
        shape = arrs[0].axes
        for x in arrs[1:]:
            if x.ndim != arrs[0].ndim or not all(E.same_len(axlen(p), axlen(q)) for p, q in zip(x.axes, shape)):
                raise Unsupported('broadcast of index arrays')
        advlen = sum(len(ax) for ax in shape)
        axes, where = [], None
        if not together:
            axes += list(shape)
            where = 0
        for k, p in enumerate(plan):
            if kinds[k]:
                if together and k == first:
                    where = sum(len(ax) for ax in axes)
                    axes += list(shape)
                continue
            axes.append((ONE, ) if p[0] == 'new' else a.axes[p[1]] if p[0] == 'keep' else (p[3], ))
        g = a.getter()
        ags = {id(x): self.realign(x, shape).getter() for x in arrs}

        def el(idx):
            idx = list(idx)
            ad = idx[where:where + advlen]
            rest = idx[:where] + idx[where + advlen:]
            out = [None] * total
            pos = 0
            for p in plan:
                if p[0] == 'new':
                    pos += 1
                    continue
                lo, hi = spans[p[1]]
                ax = a.axes[p[1]]
                n = axlen(ax)
                if p[0] == 'keep':
                    out[lo:hi] = rest[pos:pos + len(ax)]
                    pos += len(ax)
                elif p[0] == 'slice':
                    out[lo:hi] = recomp([p[2] + num(rest[pos]) * p[4]], (n, ), ax)
                    pos += 1
                elif p[0] == 'int':
                    out[lo:hi] = recomp([p[2]], (n, ), ax)
                else:
                    v = num(ags[id(p[2])](ad))
                    if not (v.is_const() and v.const() >= 0) and not self.nonneg(v):
                        v = ite(lt(v, 0), v + n, v)
                    out[lo:hi] = recomp([v], (n, ), ax)
            return g(out)
        return SArr(axes, el, a.dtype, meta=a.keep('itemsize'))

    def nonneg(self, v):
        """Index arrays given by the user hold valid non-negative positions (facts of the inputs)."""
        return self.E.known(le(0, v))

    def arr_set(self, a, ix, v):
        E = self.E
        from .interp import recomp
        if a.vmap is not None:
            E.touch(a.store, 'assignment')
            raise Unsupported('assignment through a view')
        old = a.store.fn
        if isinstance(old, Poison):
            raise PoisonRead(old.loc)
        if a.dtype == 'b' and not (isinstance(v, (bool, B)) or isinstance(v, SArr) and v.dtype == 'b'):
            raise Unsupported('numbers stored in an array of truth values')
        if a.dtype == 'i' and (isinstance(v, (PyList, tuple)) or isinstance(v, SArr) and v.dtype == 'f'):
            v = self.astype(self.np_array(v), Builtin('type:int', None)) if isinstance(v, SArr) or self.np_array(v).dtype == 'f' else v
        elif a.dtype == 'i' and is_num(v) and not num(v).is_int():
            v = trunc(num(v))
        m = self.is_mask(ix)
        if m is not None:
            if m.ndim != a.ndim:
                raise Unsupported('mask of lower rank')
            if isinstance(v, SArr):
                raise Unsupported('mask assignment of an array')
            gm = self.realign(m, a.axes).getter()
            E.write_store(a.store, lambda idx: ite(boolc(gm(idx)), num(v), old(idx)), 'mask assignment')
            return
        plan, adv = self.index_plan(a, ix)
        if adv:
            E.touch(a.store, 'item assignment')
            raise Unsupported('assignment to an index array')
        spans, q = [], 0
        for ax in a.axes:
            spans.append((q, q + len(ax)))
            q += len(ax)
        axes = []
        for p in plan:
            if p[0] == 'new':
                axes.append((ONE, ))
            elif p[0] == 'keep':
                axes.append(a.axes[p[1]])
            elif p[0] == 'slice':
                axes.append((p[3], ))
        if isinstance(v, (PyList, tuple)):
            v = self.np_array(v)
        if isinstance(v, SArr):
            tgt = SArr(axes, lambda idx: ZERO)
            bx, mt, mv = E.broadcast(tgt, v)
            if len(bx) != len(axes):
                lead = bx[:len(bx) - len(axes)]
                if not all(axlen(x) is ONE for x in lead):
                    raise RaiseEx(ExcV('ValueError'))
                raise Unsupported('leading axes of length one')
            for p, q in zip(bx, axes):
                if not E.same_len(axlen(p), axlen(q)):
                    raise RaiseEx(ExcV('ValueError'))
            gv = v.getter()
            bxl = [len(x) for x in bx]

            def val(idx):
                # idx over `axes`; recompose into bx
                out, p = [], 0
                for have, want in zip(axes, bx):
                    out += recomp(idx[p:p + len(have)], have, want)
                    p += len(have)
                return num(gv(mv(out)))
        else:
            val = lambda idx: num(v) if not isinstance(v, B) else v      # noqa

        def fn(idx):
            cond, sub = TRUE, []
            for p in plan:
                if p[0] == 'new':
                    sub.append(ZERO)
                    continue
                lo, hi = spans[p[1]]
                ax = a.axes[p[1]]
                part = list(idx[lo:hi])
                if p[0] == 'keep':
                    sub += part
                    continue
                flat = recomp(part, ax, (axlen(ax), ))[0] if len(ax) > 1 else part[0]
                if p[0] == 'int':
                    cond = conj(cond, eq(flat, p[2]))
                else:
                    lo_, n_, st = p[2], p[3], p[4]
                    if st is not ONE:
                        cond = conj(cond, le(lo_, flat), eq(mod(flat - lo_, st), 0), lt(floor((flat - lo_) / st), n_))
                        sub.append(floor((flat - lo_) / st))
                    else:
                        cond = conj(cond, le(lo_, flat), lt(flat, lo_ + n_))
                        sub.append(flat - lo_)
            if cond is FALSE:
                return old(idx)
            return ite(cond, val(sub), old(idx))
        E.write_store(a.store, fn, 'item assignment')

    # ------------------------------------------------------------------------------------------------ methods of builtins
    def list_attr(self, l, name):
        E = self.E
        if name == 'append':
            return Builtin('list.append', lambda a, k: E.write_list(l, cat(E.rep(l), ('items', [a[0]])), 'append'))
        if name == 'extend':
            return Builtin('list.extend', lambda a, k: E.write_list(l, cat(E.rep(l), E.seqof(a[0])), 'extend'))
        if name == 'insert':
            def ins(a, k):
                if a[0] != 0:
                    raise Unsupported('insert position')
                E.write_list(l, cat(('items', [a[1]]), E.rep(l)), 'insert')
            return Builtin('list.insert', ins)
        if name == 'copy':
            return Builtin('list.copy', lambda a, k: PyList(E.rep(l)))
        if name == 'clear':
            return Builtin('list.clear', lambda a, k: E.write_list(l, ('items', []), 'clear'))
        if name == 'pop':
            def pop(a, k):
                r = E.rep(l)
                if r[0] != 'items' or not all(isinstance(x, int) for x in a):
                    raise Unsupported('pop')
                xs = list(r[1])
                if not xs:
                    raise RaiseEx(ExcV('IndexError'))
                v = xs.pop(*a)
                E.write_list(l, ('items', xs), 'pop')
                return v
            return Builtin('list.pop', pop)
        if name in ('sort', 'reverse', 'remove'):
            def w(a, k):
                E.touch(l, name)
                raise Unsupported(f'list.{name}')
            return Builtin('list.' + name, w)
        self.no_attr(list, name)

    def dict_attr(self, d, name):
        E = self.E
        if name == 'get':
            def get(a, k):
                kk = E.key(a[0])
                if kk in d.items:
                    return E.getitem(d, kk)
                dflt = a[1] if len(a) > 1 else None
                if d.rest is not None:
                    if E.branch(bapp('haskey', d.rest.term, K(kk))):
                        return E.getitem(d, kk)
                return dflt
            return Builtin('dict.get', get)
        if name in ('items', 'keys', 'values'):
            if d.rest is not None:
                raise Unsupported('iteration over an unknown mapping')
            f = {'items': lambda: [(k, v) for k, v in d.items.items()], 'keys': lambda: list(d.items), 'values': lambda: list(d.items.values())}[name]
            return Builtin('dict.' + name, lambda a, k: PyList.of(f()))
        if name == 'copy':
            return Builtin('dict.copy', lambda a, k: PyDict(d.items, rest=d.rest))
        if name == 'update':
            def upd(a, k):
                E.touch(d, 'update')
                for src in list(a) + ([PyDict({x: y for x, y in k.items() if x != '**'}, rest=k.get('**'))] if k else []):
                    if not isinstance(src, PyDict):
                        raise Unsupported('dict.update')
                    for kk, v in src.items.items():
                        E.set(d.items, kk, v)
                    if src.rest is not None:
                        if d.rest is not None:
                            raise Unsupported('two unknown mappings')
                        E.set(d, 'rest', src.rest)
            return Builtin('dict.update', upd)
        if name in ('pop', 'setdefault', 'popitem', 'clear'):
            def w(a, k):
                E.touch(d, name)
                if name == 'setdefault' and E.key(a[0]) in d.items:
                    return d.items[a[0]]
                if name == 'pop' and E.key(a[0]) in d.items:
                    v = d.items[a[0]]
                    E.trail.append((d.items, a[0], v, True))
                    del d.items[a[0]]
                    return v
                if d.rest is not None:
                    raise Unsupported(f'dict.{name}')
                if name == 'setdefault':
                    E.set(d.items, E.key(a[0]), a[1] if len(a) > 1 else None)
                    return d.items[a[0]]
                if name == 'pop':
                    if len(a) > 1:
                        return a[1]
                    raise RaiseEx(ExcV('KeyError'))
                raise Unsupported(f'dict.{name}')
            return Builtin('dict.' + name, w)
        self.no_attr(dict, name)

    def str_attr(self, s, name):
        if name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'encode', 'decode', 'rstrip', 'lstrip', 'join', 'format'):
            def f(a, k):
                if any(not isinstance(x, (str, bytes, int)) for x in a) or k:
                    return Opq(app('str.' + name, toarg(s), *[toarg(x) for x in a], sort='o'), 'str')
                r = getattr(s, name)(*a)
                return PyList.of(r) if isinstance(r, list) else r
            return Builtin('str.' + name, f)
        self.no_attr(type(s), name)

    def num_attr(self, v, name):
        if name == 'shape':
            return ()
        if name == 'size':
            return 1
        if name in ('flatten', 'ravel'):
            return Builtin(name, lambda a, k: SArr(simple(1), lambda idx: num(v)))
        if name in ('mean', 'item', 'copy', 'sum'):
            return Builtin(name, lambda a, k: v)
        if name == 'T' or name == 'real':
            return v
        self.no_attr(NUMPY_SCALAR, name)

    def builtin_attr(self, b, name):
        if b.name == 'type:Distribution' and name == 'from_dict':
            return Builtin('Distribution.from_dict', lambda a, k: self.distribution_from_dict(a[0]))
        if name == '__name__':
            return b.name.split(':')[-1]
        raise Unsupported(f'{b.name}.{name}')

    def builtin_item(self, b, ix):
        if b.name == 'np.s_':
            return ix
        if isinstance(b, TypeV):
            return b                     # typing subscripts
        raise Unsupported(f'{b.name}[...]')

    # ------------------------------------------------------------------------------------------------ objects
    def obj_attr(self, o, name):
        if o.cls == 'Distribution':
            return self.distribution_attr(o, name)
        if isinstance(o.cls, str) and o.cls.startswith('h5'):
            return h5model.attr(self, o, name)
        if o.cls == 'EnsembleSampler':
            return self.sampler_attr(o, name)
        if o.cls == 'mvn':
            if name == 'rvs':
                return Builtin('rvs', lambda a, k: self.mvn_rvs(o, *a, **k))
            raise Unsupported('mvn.' + name)
        if o.cls == 'RandomState':
            if name == 'get_state':
                return Builtin('get_state', lambda a, k: Opq(app('getstate', self.rng_get(o), sort='o')))
            if name in ('randint', ):
                raise Unsupported('RandomState.' + name)
            raise Unsupported('RandomState.' + name)
        if isinstance(o.cls, Cls):
            m = o.cls.mro()
            if any(isinstance(c, Builtin) and c.name == 'type:Relationship' for c in m):
                return self.relationship_attr(o, name)
            if o.assumed or name.startswith('__'):
                raise Unsupported(f'attribute {name} is not part of the state the contract describes')
            raise RaiseEx(ExcV('AttributeError'))
        raise Unsupported(f'attribute {name} of {o.cls}')

    def relationship_attr(self, o, name):
        E = self.E
        if name == 'x':
            return E.getattr(o, 'abscissa')
        if name == 'y':
            return E.getattr(o, 'ordinate')
        if name == 'flatchain':
            vs = E.getattr(o, 'variables')
            return self.transpose(self.np_array(PyList(('items', [E.getattr(d, 'samples') for d in E.seqof(vs)[1]]))))
        if name in RELATIONSHIP or name.startswith('__'):
            raise Unsupported(f'Relationship.{name}')
        raise RaiseEx(ExcV('AttributeError'))

    def base_init(self, o, base, args, kw):
        return self.base_call(o, base, '__init__', args, kw)

    def base_call(self, o, base, name, args, kw):
        E = self.E
        if base is None and name == '__init__':
            return None
        if isinstance(base, Builtin) and base.name == 'type:Relationship' and name == '__init__':
            names = ['function', 'abscissa', 'ordinate', 'bounds', 'ordinate_error']
            vals = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names or k in vals:
                    raise RaiseEx(ExcV('TypeError'))
                vals[k] = v
            for n in names:
                E.setattr(o, n, vals.get(n))
            return None
        raise Unsupported(f'external base class method {name}')

    def obj_item(self, o, ix):
        if o.cls == 'h5Dataset':
            return h5model.read(self.E, o, ix)
        if o.cls in ('h5Group', 'h5node'):
            return h5model.lookup(self.E, o, ix)
        if o.lazy is not None:
            r = self.iter_object(o)
            return self.E.list_get(r, ix, o)
        if o.cls == 'eigh' and isinstance(ix, int):
            return o.attrs[['eigenvalues', 'eigenvectors'][ix]]
        raise Unsupported(f'item of {o.cls}')

    def iter_object(self, o):
        if o.cls in ('h5Group', 'h5node'):
            return self.E.seqof(h5model.column(self.E, o, 0))
        if o.cls == 'eigh':
            return ('items', [o.attrs['eigenvalues'], o.attrs['eigenvectors']])
        f = o.lazy('__iter__') if o.lazy is not None else None
        if f is not None:
            return f
        raise Unsupported(f'iteration over {o.cls}')

    # ------------------------------------------------------------------------------------------------ opaque values
    def opaque_attr(self, o, name):
        h = OPAQUE.get((o.tag, name))
        if h is not None:
            return h(self, o)
        if (o.tag, name) in MUTATORS:
            def change(a, k):
                self.E.wrote(f'{name} changes a user object')
                raise Unsupported(f'{name} of {o.tag}')
            return Builtin(name, change)
        if o.tag == 'str':
            def f(a, k):
                r = h5model.method(o, name, a)
                return r if r is not NotImplemented else Opq(app('str.' + name, o.term, *[toarg(x) for x in a], sort='o'), 'str')
            return Builtin('str.' + name, f)
        if o.tag == 'obj':
            return Opq(app('attr.' + name, o.term, sort='o'), 'obj')
        raise Unsupported(f'attribute {name} of {o.tag}')

    def opaque_item(self, o, ix):
        if o.tag == 'str' and isinstance(ix, SliceV) and ix.step is None and all(x is None or isinstance(x, int) for x in (ix.lo, ix.hi)):
            r = h5model.slice_text(o, ix.lo, ix.hi)
            if r is not None:
                return r
        if o.tag in ITEM_TAGS:
            return ITEM_TAGS[o.tag](self, o, ix)
        if isinstance(ix, SliceV) and o.tag in SEQ_TAGS:
            return self.E.list_get(self.iter_opaque(o), ix, o)
        if is_num(ix) and o.tag in SEQ_TAGS:
            return self.E.list_get(self.iter_opaque(o), ix, o)
        if isinstance(ix, (str, int)) or isinstance(ix, P):
            return Opq(app('item', o.term, toarg(ix), sort='o'), 'obj')
        raise Unsupported(f'item of {o.tag}')

    def user_tags(self):
        return USER_TAGS

    def opaque_setitem(self, o, ix, v):
        if o.tag not in USER_TAGS:
            raise Unsupported(f'item assignment on {o.tag}')
        self.E.wrote('item of a user object is written')

    def call_opaque(self, f, a, k):
        if f.tag in ('obj', ):
            ex = [toarg(x) for x in a] + [x for kk in sorted(k) for x in (K(kk), toarg(k[kk]))]
            return Opq(app('call', f.term, *ex, sort='o'), 'obj')
        raise Unsupported('call of an opaque value')

    def iter_opaque(self, o):
        if o.tag in ITER_TAGS:
            return ITER_TAGS[o.tag](self, o)
        t = SEQ_TAGS.get(o.tag)
        if t is None:
            raise Unsupported(f'iteration over {o.tag}')
        self.E.pr.facts.setdefault('olen', lambda x: [le(0, app('olen', x, sort='i'))])
        n = LEN_TAGS[o.tag](self, o) if o.tag in LEN_TAGS else app('olen', o.term, sort='i')
        return ('seq', Seq(n, lambda i: Opq(app('oitem', o.term, num(i), sort='o'), t)))

    def opaque_array(self, o):
        h = ARRAY_TAGS.get(o.tag)
        if h is None:
            raise Unsupported(f'array from {o.tag}')
        return h(self, o)


# attribute models of opaque user objects: (tag, name) -> function(ext, opq)
OPAQUE = {}
ITEM_TAGS = {}         # tag -> function(ext, opq, index)
ITER_TAGS = {}         # tag -> function(ext, opq) -> representation
LEN_TAGS = {}          # tag -> function(ext, opq) -> length
SEQ_TAGS = {}          # tag of a sequence -> tag of its elements
USER_TAGS, MUTATORS = set(), set()          # the user's objects; methods that change them
ARRAY_TAGS = {}        # tag -> function(ext, opq) -> SArr

from . import extmodel        # noqa
