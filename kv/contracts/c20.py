"""C20 Arrhenius and VTF laws."""
from ..verify import *          # noqa
from ..npmodel import KB, QE

KAPPA = KB / QE          # eV per kelvin


def law(E_, A, T_, T0=0):
    return A * app('exp', -E_ / (KAPPA * (T_ - T0)))


def check(v, tier):
    for kind in ('scalar', 'array'):
        def build(v, kind=kind):
            n = v.int_('n', 0)
            x = v.arr('T', n) if kind == 'array' else v.real('T')
            a, b = v.real('Ea'), v.real('A')
            return [x, a, b], {}, (x, a, b)

        def build3(v):
            a, _, c = build(v)
            t = v.real('T0')
            return a + [t], {}, c + (t, )

        def spec(v, c):
            x, a, b = c[:3]
            t0 = c[3] if len(c) > 3 else 0
            if isinstance(x, SArr):
                return SArr(x.axes, lambda idx: law(a, b, app('in_T', *idx), t0))
            return law(a, b, x, t0)
        v.fn(f'arrhenius[{kind}]', 'arrhenius:arrhenius', build, spec)
        v.fn(f'super_arrhenius[{kind}]', 'arrhenius:super_arrhenius', build3, spec)

    # the objects
    def dist(v, name, m):
        return Obj('Distribution', {'samples': v.arr(name, m, owner=False), 'name': name})

    def obj(v, cls, open_bound, errors=True):
        e = v.E
        n, m = v.int_('n', 1), v.int_('draws', 1)
        x, y = v.arr('T', n), v.arr('D', n)
        err = v.arr('err', n)
        kw = {}
        b = None
        if cls == 'SuperArrhenius':
            if open_bound == 'given':
                b = ((v.real('b0'), v.real('b1')), (v.real('b2'), v.real('b3')), (v.real('b4'), v.real('b5')))
            elif open_bound == 'open':
                b = ((v.real('b0'), v.real('b1')), (v.real('b2'), v.real('b3')), (0, None))
            elif open_bound == 'openlist':
                b = PyList.of([(v.real('b0'), v.real('b1')), (v.real('b2'), v.real('b3')), (0, None)])
                b.owner = 'bounds'
        elif open_bound == 'given':
            b = ((v.real('b0'), v.real('b1')), (v.real('b2'), v.real('b3')))
        if b is not None:
            kw['bounds'] = b
        if errors:
            kw['diffusion_error'] = err
        c = e.get('arrhenius:' + cls)
        out = v.call(c, [x, y], kw)
        return c, x, y, err if errors else None, b, out, m

    def flat(b):
        if isinstance(b, PyList):
            return [flat(z) for z in b.rep[1]]
        if isinstance(b, tuple):
            return [flat(z) for z in b]
        return b

    for cls, npar, modes in (('StandardArrhenius', 2, ('default', 'given')), ('SuperArrhenius', 3, ('default', 'given', 'open', 'openlist'))):
        for mode in modes:
            def run(v, cls=cls, npar=npar, mode=mode):
                def path():
                    e = v.E
                    c, x, y, err, b, out, m = obj(v, cls, mode, e.branch(bapp('in_witherr')))
                    if out.kind != 'ret':
                        v.mismatch('returns', str(out))
                        return
                    o = out.value
                    for nm, w in (('abscissa', x), ('ordinate', y)):
                        g = o.attrs.get(nm)
                        if g is w:
                            v.ok(nm)
                        else:
                            v.same(nm, g, w)
                    v.same('ordinate_error', o.attrs.get('ordinate_error'), err)
                    got = flat(o.attrs.get('bounds'))
                    if cls == 'StandardArrhenius':
                        want = flat(b) if b is not None else [[0, 1], [0, 10**20]]
                    else:
                        want = flat(b) if b is not None else [[0, 1], [0, 10**20], [0, None]]
                        if want[2][1] is None:
                            want[2] = [want[2][0], app('in_T', ZERO)]
                    shape = isinstance(got, list) and [len(z) if isinstance(z, list) else None for z in got] == [2] * npar
                    if not shape:
                        v.mismatch('bounds', f'bounds {got}')
                    else:
                        for g, w in zip([z for p in got for z in p], [z for p in want for z in p]):
                            v.same('bounds', g, w)
                    # evaluation with arbitrary posterior draws
                    names = ['pE', 'pA', 'pT0'][:npar]
                    ds_ = [dist(v, nm, m) for nm in names]
                    e.set(o.attrs, 'variables', PyList.of(ds_))
                    par = lambda k: [app('in_' + nm, k) for nm in names]        # noqa
                    v.same('activation_energy', e.getattr(o, 'activation_energy'), ds_[0])
                    v.same('preexponential_factor', e.getattr(o, 'preexponential_factor'), ds_[1])
                    if npar == 3:
                        v.same('T0', e.getattr(o, 'T0'), ds_[2])
                    n = axlen(x.axes[0])
                    v.same('distribution', e.getattr(o, 'distribution'), SArr(simple(n, m), lambda idx: law(par(idx[1])[0], par(idx[1])[1], app('in_T', idx[0]), *par(idx[1])[2:])))
                    t = v.real('Tx')
                    v.same('extrapolate', e.call(e.getattr(o, 'extrapolate'), [t]), SArr(simple(m), lambda idx: law(par(idx[0])[0], par(idx[0])[1], t, *par(idx[0])[2:])))
                    # a second object is not influenced by the first (and vice versa)
                    b1 = flat(o.attrs.get('bounds'))
                    x2, y2 = v.arr('Tsecond', n), v.arr('Dsecond', n)
                    o2 = v.call(c, [x2, y2])
                    if o2.kind != 'ret':
                        v.mismatch('second-object', str(o2))
                    else:
                        w2 = [[0, 1], [0, 10**20]] + ([[0, app('in_Tsecond', ZERO)]] if npar == 3 else [])
                        g2 = flat(o2.value.attrs.get('bounds'))
                        if not isinstance(g2, list) or len(g2) != npar:
                            v.mismatch('second-object', f'bounds {g2}')
                        else:
                            for g, w in zip([z for p in g2 for z in p], [z for p in w2 for z in p]):
                                v.same('second-object', g, w)
                        if shape:
                            for g, w in zip([z for p in flat(o.attrs.get('bounds')) for z in p], [z for p in b1 for z in p]):
                                v.same('second-object', g, w)
                    v.frame()
                v.paths(path)
            v.group(f'{cls}[{mode} bounds]', run)
    v.trusted.add('uravu.relationship.Relationship: the constructor stores function, abscissa, ordinate, bounds and ordinate error; variables is the list of parameter distributions and flatchain has their samples as columns')
    v.trusted.add('scipy.constants: R = k_B N_A and eV = e (exact SI definitions)')
