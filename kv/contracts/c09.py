"""C09 several trajectories are combined as declared."""
from ..verify import *          # noqa
from .. import extmodel          # noqa

A, NINT = var('in_natoms_sel', 'i'), var('in_nint', 'i')
KINDS = {'pymatgen': ('PymatgenParser', 'pmg_traj'), 'ase': ('ASEParser', 'ase_traj'), 'Xdatcar': ('PymatgenParser', 'xdatcar'), 'file': ('PymatgenParser', 'str'), 'universe': ('MDAnalysisParser', 'mda_universe')}
FRONTS = {'Diffusion': ('diffusion_analyzer', 'MSDBootstrap'), 'JumpDiffusion': ('jump_diffusion_analyzer', 'MSTDBootstrap'), 'Conductivity': ('conductivity_analyzer', 'MSCDBootstrap')}


def parsed(cls, t):
    """What the parser class makes of the trajectory t: functions of class and trajectory; equally sized trajectories."""
    w = lambda i: app('in_par_windows', num(i), sort='i')          # noqa

    def disp(i):
        i = num(i)
        return SArr(simple(A, w(i), 3), lambda ix: app('in_par_disp_' + cls, t, i, *[num(x) for x in ix]), 'f')
    return {'delta_t': SArr(simple(NINT), lambda ix: app('in_par_dt_' + cls, t, num(ix[0])), 'f'), 'disp_3d': PyList(('seq', Seq(NINT, disp))),
            '_n_o': SArr(simple(NINT), lambda ix: app('in_par_no_' + cls, t, num(ix[0])), 'f'), 'volume': app('in_par_volume_' + cls, t)}


def material(x):
    """Term of the frames handed to a parser."""
    return x.term if isinstance(x, Opq) else toarg(x)


def setup(v, kind):
    e = v.E
    e.assume(le(1, A))
    e.assume(le(1, NINT))
    e.pr.facts['in_par_windows'] = lambda i: [le(1, app('in_par_windows', i, sort='i'))]
    pp = PyDict({'specie': Opq(var('in_specie', 'o'), 'str'), 'time_step': v.real('ts', 0, True), 'step_skip': v.int_('skip', 1), 'n_steps': v.int_('nsteps', 1)}, owner='parser_params')
    made = []
    for c in ('PymatgenParser', 'ASEParser', 'MDAnalysisParser'):
        def h(e, cls, args, kw, c=c):
            f, _ = cls.lookup('__init__')
            o = state(e, cls)
            b = e.bind(f, [o] + list(args), kw)
            first = f.node.args.args[1].arg
            want = e.bind(f, [o, b[first]], dict(pp.items))
            for k in want:
                if k not in ('self', first):
                    v.same('parser-options', b[k], want[k])
            at = parsed(c, material(b[first]))
            o.attrs.update(at)
            give(e, o, '_volume', at['volume'])
            give(e, o, '_n_o', at['_n_o'])
            made.append(c)
            return o
        e.contracts[c + '.__new__'] = h
    return pp, made


def expected(v, cls, tag, kind, n, seq):
    def frames(t):
        if kind == 'Xdatcar':
            return app('xdatcar_structures', t, sort='o')
        if kind == 'file':
            return app('xdatcar_structures', app('Xdatcar', t, sort='o'), sort='o')
        return t
    return frames


def outcome_of(v, cls, frames, dtype, kind):
    T1 = var('in_traj', 'o')
    if dtype is None:
        return parsed(cls, frames(T1))
    n = v.int_('ntraj', 1)
    t = lambda k: frames(app('in_traj', num(k), sort='o'))          # noqa
    if dtype == 'identical':
        first = parsed(cls, t(ZERO))

        def disp(i):
            i = num(i)
            return SArr([[n, A], [app('in_par_windows', i, sort='i')], [num(3)]], lambda ix: app('in_par_disp_' + cls, t(ix[0]), i, ix[1], ix[2], ix[3]), 'f')
        s = fresh('k', 'i')
        no = SArr(simple(NINT), lambda ix: T.Sum(s, n, app('in_par_no_' + cls, t(s), num(ix[0]))), 'f')
        return dict(first, disp_3d=PyList(('seq', Seq(NINT, disp))), _n_o=no)
    whole = v.E.flatten_seq(Seq(n, lambda k: Opq(t(k), 'ase_traj' if kind == 'ase' else 'pmg_traj')))
    return parsed(cls, toarg(PyList(whole)))


def check(v, tier):
    for front, (mod, boot) in FRONTS.items():
        for kind, (cls, tag) in KINDS.items():
            for dtype in (None, 'identical', 'consecutive', 'other'):
                def run(v, front=front, mod=mod, boot=boot, kind=kind, cls=cls, tag=tag, dtype=dtype):
                    def path():
                        e = v.E
                        pp, made = setup(v, kind)
                        rec = []

                        def h(e, c, args, kw, name=boot):
                            o = state(e, c)
                            rec.append((o, c.name, e.bind(c.lookup('__init__')[0], [o] + list(args), kw)))
                            return o
                        for b in ('MSDBootstrap', 'MSTDBootstrap', 'MSCDBootstrap'):
                            e.contracts[b + '.__new__'] = h
                        if dtype in ('identical', 'consecutive'):
                            n = v.int_('ntraj', 1)
                            traj = PyList(('seq', Seq(n, lambda k: Opq(app('in_traj', num(k), sort='o'), tag))), owner='trajectory')
                        else:
                            traj = Opq(var('in_traj', 'o'), tag)
                        up = PyDict({'n_resamples': v.int_('nres'), 'dimension': 'xy', 'sub_sample_dt': v.int_('sub', 1)}, owner='uncertainty_params') if e.branch(bapp('in_with_options')) else None
                        kw = {'dtype': dtype}
                        if up is not None:
                            kw['uncertainty_params'] = up
                        q = None
                        if front == 'Conductivity':
                            q = v.arr('charge', A) if e.branch(bapp('in_with_charge')) else None
                            if q is not None:
                                kw['ionic_charge'] = q
                        out = v.call(e.getattr(e.get(f'{mod}:{front}Analyzer'), 'from_' + kind), [traj, pp], kw)
                        if dtype == 'other' or (dtype == 'consecutive' and kind == 'universe'):
                            v.outcome('refused', out, Out('raise', ExcV('ValueError')))
                            v.frame()
                            return
                        if out.kind != 'ret':
                            v.mismatch('returns', str(out))
                            return
                        o = out.value
                        if not isinstance(o, Obj) or not isinstance(o.cls, Cls) or o.cls.name != front + 'Analyzer':
                            raise Unsupported('object returned')
                        want = outcome_of(v, cls, expected(v, cls, tag, kind, None, None), dtype, kind)
                        attrs = {'_delta_t': want['delta_t'], '_disp_3d': want['disp_3d'], '_n_o': want['_n_o'], 'volume': want['volume']}
                        for k, w in attrs.items():
                            v.same(k.strip('_'), e.getattr(o, k), w)
                        d = o.attrs.get('_diff')
                        mine = [r for r in rec if r[0] is d]
                        if len(mine) != 1:
                            raise Unsupported('the estimator is not constructed by the front end')
                        _, cname, b = mine[0]
                        if cname != boot:
                            v.mismatch('estimator', f'{cname} instead of {boot}')
                            return
                        pos = [want['delta_t'], want['disp_3d']] + ([q if q is not None else 1] if front == 'Conductivity' else []) + [want['_n_o']]
                        full = e.bind(e.get(f'diffusion:{boot}.__init__'), [d] + pos, dict(up.items) if up is not None else {})
                        for k in full:
                            if k != 'self':
                                v.same('estimator-' + k, b[k], full[k])
                        v.frame()
                    v.paths(path)
                v.group(f'{front}Analyzer.from_{kind}[{dtype}]', run)
    v.trusted.add('the parser classes are functions of the frames and options they are given (decided by C01-C08); trajectories given as repeats are equally sized')
