"""Parser.__init__ against the contracts of the functions it calls."""
from ..verify import *          # noqa
from . import parser_specs as ps


class Call(dict):
    def __missing__(self, k):
        raise Unsupported(f'the function called has no parameter {k}')


class Rec:
    """A callee replaced by its contract: the arguments are recorded, the result is arbitrary."""

    def __init__(self, e, qual, result):
        self.calls = []

        def h(e, f, args, kw):
            b = Call(e.bind(f, args, kw))
            b['%self'] = dict(b['self'].attrs) if isinstance(b.get('self'), Obj) else None
            self.calls.append(b)
            return result(b) if callable(result) else result
        e.contracts[qual] = h


def init(v, want):
    """want: subset of {'drift', 'grid', 'windows'}"""
    for mind in (None, 'given'):
        for maxd in (None, 'given'):
            for spacing in ('linear', 'logarithmic', 'neither'):
                if 'grid' not in want and (spacing != 'linear' or (mind is None) != (maxd is None)):
                    continue

                def run(v, mind=mind, maxd=maxd, spacing=spacing):
                    def path():
                        e = v.E
                        n, N = v.int_('atoms', 1), v.int_('steps', 1)
                        disp = v.arr('disp', n, N, 3)
                        sel, fr = v.intlist('sel', v.int_('nsel', 1), 0, n), v.intlist('framework', v.int_('nframe', 0), 0, n)
                        ts, skip, ns = v.real('ts', 0, True), v.int_('skip', 1), v.int_('nsteps', 1)
                        lo = v.real('mindt', 0, True) if mind else None
                        hi = v.real('maxdt', 0, True) if maxd else None
                        unit = skip * ts
                        lim = v.real('limit')
                        dc = v.arr('dc', n, N, 3, owner=False)
                        tau = SArr(simple(v.int_('nint', 1)), lambda idx: app('in_tau', idx[0], sort='i'), 'i')
                        rd = Rec(e, 'Parser.correct_drift', dc)
                        res = (Opq(var('in_times', 'o')), Opq(var('in_windows', 'o')), Opq(var('in_nobs', 'o')))
                        rw = Rec(e, 'Parser.get_disps', res)
                        if 'grid' not in want:
                            rg = Rec(e, 'Parser.get_time_intervals', tau)
                        cls = e.get('parser:Parser')
                        progress = e.branch(bapp('in_progress'))
                        kw = dict(min_dt=lo, max_dt=hi, n_steps=ns, spacing=spacing, sampling='multi-origin', memory_limit=lim, progress=progress)
                        if hi is not None:
                            e.assume(le(1, ps.whole_steps(hi, unit)))        # a maximum below one step is outside the property
                        out = v.call(cls, [disp, sel, fr, ts, skip], kw)
                        low = ONE if lo is None else ps.whole_steps(lo, unit)
                        high = N if hi is None else ps.whole_steps(hi, unit)

                        def expected():
                            if e.branch(le(N, low)):
                                raise RaiseEx(ExcV('ValueError'))
                            if 'grid' not in want:
                                return None
                            m = N - low + 1
                            num_ = m if e.branch(lt(m, ns)) else ns
                            return ps.grid(e, low, high, num_, spacing)
                        exp = v.out_of(expected)
                        if out.kind != exp.kind or out.kind == 'raise':
                            if 'grid' in want:
                                v.outcome('refuses', out, exp)
                            return
                        o = out.value
                        if 'drift' in want:
                            if len(rd.calls) != 1 or len(rw.calls) != 1:
                                raise Unsupported('correct_drift or get_disps not called once')
                            v.same('framework-passed', rd.calls[0]['drift_indices'], fr)
                            v.same('displacements-passed', rd.calls[0]['disp'], disp)
                            v.same('corrected-displacements-analysed', rw.calls[0]['drift_corrected'], dc)
                            v.same('corrected-displacements-kept', o.attrs.get('dc'), dc)
                        if 'grid' in want:
                            if len(rw.calls) != 1:
                                raise Unsupported('get_disps not called once')
                            g = o.attrs.get('time_intervals')
                            v.same('intervals-used', rw.calls[0]['time_intervals'], g)
                            same_grid(v, 'intervals', g, exp.value)
                        if 'windows' in want:
                            if len(rw.calls) != 1 or len(rg.calls) != 1:
                                raise Unsupported('get_disps not called once')
                            b = rw.calls[0]
                            v.same('intervals', b['time_intervals'], tau)
                            v.same('displacements', b['drift_corrected'], dc)
                            for k, w in (('indices', sel), ('time_step', ts), ('step_skip', skip), ('sampling', 'multi-origin'), ('memory_limit', lim)):
                                v.same('passes-' + k, b['%self'].get(k), w)
                            for k, w in zip(('delta_t', 'disp_3d', '_n_o'), res):
                                v.same('keeps-' + k, o.attrs.get(k), w)
                            v.same('keeps-indices', o.attrs.get('indices'), sel)
                            v.same('keeps-framework', o.attrs.get('drift_indices'), fr)
                        v.frame()
                    v.paths(path)
                v.group(f'Parser.__init__[min_dt {mind}, max_dt {maxd}, {spacing}]', run)


def same_grid(v, label, got, want):
    """Two results of numpy.unique: equal because they are taken of the same grid."""
    if not isinstance(got, SArr) or got.ndim != 1:
        return v.mismatch(label, show(got))
    k = fresh('k', 'i')
    a, b = atom_of(got.at(k)), atom_of(want.at(k))
    if a is None or a.kind != 'app' or a.data[0] != 'uniq':
        raise Unsupported('intervals are not made distinct by numpy.unique')
    v.eq(label, a.data[1][1], b.data[1][1])
    return v.arg_eq(label, a.data[1][0], b.data[1][0])


# ------------------------------------------------------------------------------------------------------------------
# ASEParser, PymatgenParser, MDAnalysisParser: __init__ against the contracts of what they call
# ------------------------------------------------------------------------------------------------------------------
KINDS = {'ASE': ('ASEParser', 'ase_traj', 'ase_atoms'), 'pymatgen': ('PymatgenParser', 'pmg_traj', 'pmg_structure'), 'MDAnalysis': ('MDAnalysisParser', 'mda_universe', 'mda_ag')}
SELECT = ('species', 'list of species', 'list of atoms', 'tuple of atoms', 'molecules', 'tuple of molecules', 'nothing')


def selection(v, how):
    """(specie, specie_indices)"""
    n = v.int_('nsel', 1)
    if how == 'species':
        return Opq(var('in_specie', 'o'), 'str'), None
    if how == 'list of species':
        return PyList(('seq', Seq(n, lambda i: Opq(app('in_species', num(i), sort='o'), 'str'))), owner='specie'), None
    if how == 'list of atoms':
        return None, v.intlist('sel', n, 0)
    if how == 'tuple of atoms':
        return None, (v.int_('sel0', 0), v.int_('sel1', 0))
    if how.endswith('molecules'):
        m = v.int_('molsize', 1)
        v.E.pr.facts['in_mol'] = lambda i, j: [le(1, app('in_mol', i, j, sort='i'))]
        mol = lambda i: PyList(('seq', Seq(m, lambda j: app('in_mol', num(i), num(j), sort='i'))), owner='molecule')        # noqa
        if how == 'molecules':
            return None, PyList(('seq', Seq(n, mol)), owner='molecules')
        return None, (mol(0), mol(1))
    return None, None


def flow(v, want):
    """want: subset of 'options', 'limits', 'sampling', 'memory', 'selection', 'molecules', 'reading'"""
    for kind in KINDS:
        for how in SELECT:
            if 'selection' not in want and how in ('tuple of atoms', 'tuple of molecules', 'nothing', 'list of species'):
                continue
            if want == {'molecules'} and how != 'molecules':
                continue

            def run(v, kind=kind, how=how):
                v.paths(lambda: flow_path(v, kind, how, want))
            v.group(f'{KINDS[kind][0]}.__init__[{how}]', run)


def flow_path(v, kind, how, want):
    e = v.E
    cname, ttag, stag = KINDS[kind]
    src = Opq(var('in_trajectory', 'o'), ttag)
    struct = Opq(var('in_structure', 'o') if kind != 'MDAnalysis' else app('mda_atoms', src.term, sort='o'), stag)
    F, A = v.int_('frames', 1), v.int_('atoms', 1)
    coords = v.arrlist('coords', F + 1, lambda i: [A, 1, 3], owner=False)
    latt = v.arrlist('latt', F + 1, lambda i: [num(3), num(3)], owner=False)
    vol = v.real('volume')
    rr = Rec(e, cname + '.get_structure_coords_latt', (struct, coords, latt) + ((vol, ) if kind == 'MDAnalysis' else ()))
    A2 = v.int_('sites', 1)
    mcoords = v.arr('molcoords', F + 1, A2, 1, 3, owner=False)
    ids = {k: (v.intlist(k + 'sel', v.int_('n' + k, 1), owner=False), v.intlist(k + 'frame', v.int_('m' + k, 0), owner=False)) for k in ('species', 'flat', 'mol')}
    ri = Rec(e, cname + '.get_indices', ids['species'])
    rf = Rec(e, '_get_framework', ids['flat'])
    rm = Rec(e, '_get_molecules', (mcoords, ids['mol']))
    disp = v.arr('disp', A, F, 3, owner=False)
    rd = Rec(e, 'Parser.get_disp', disp)
    times = v.arr('times', v.int_('nint', 1), owner=False)
    base = {k: Opq(var('in_' + k, 'o')) for k in ('disp_3d', '_n_o', 'time_intervals')}

    def construct(b):
        for k, x in base.items():
            give(e, b['self'], k, x)
        e.setattr(b['self'], 'delta_t', times)
    rp = Rec(e, 'Parser.__init__', construct)
    specie, sel = selection(v, how)
    fr = None if e.branch(bapp('in_noframework')) else v.intlist('framework', v.int_('nframework', 0), 0)
    masses = None if e.branch(bapp('in_nomasses')) else v.arr('masses', v.int_('nmasses', 1))
    ts, skip, k = v.real('ts', 0, True), v.int_('skip', 1), v.int_('every', 1)
    opts = dict(min_dt=v.real('mindt'), max_dt=v.real('maxdt'), n_steps=v.int_('nsteps', 1), spacing=Opq(var('in_spacing', 'o'), 'str'),
                sampling=Opq(var('in_sampling', 'o'), 'str'), memory_limit=v.real('limit'), progress=e.branch(bapp('in_progress')))
    given = e.branch(bapp('in_optionsgiven'))
    kw = dict(specie=specie, specie_indices=sel, masses=masses, framework_indices=fr, time_step=ts, step_skip=skip, sub_sample_traj=k)
    kw.update(opts if given else {'progress': opts['progress']})
    j = None
    if kind == 'MDAnalysis':
        j = v.int_('atomevery', 1)
        kw['sub_sample_atoms'] = j
    out = v.call(e.get('parser:' + cname), [src], kw)

    def expected():
        if kind == 'MDAnalysis' and sel is not None and e.branch(ne(j, 1)):
            raise RaiseEx(ExcV('ValueError'))
        if how == 'nothing':
            raise RaiseEx(ExcV('TypeError'))
    exp = v.out_of(expected)
    if out.kind != exp.kind or out.kind == 'raise':
        if 'selection' in want:
            v.outcome('refuses', out, exp)
        return
    o = out.value
    if len(rr.calls) != 1 or len(rd.calls) != 1 or len(rp.calls) != 1:
        raise Unsupported('reader, get_disp or Parser.__init__ not called once')
    which = 'species' if how in ('species', 'list of species') else 'flat' if how.endswith('atoms') else 'mol'
    used = {'species': ri, 'flat': rf, 'mol': rm}
    for n_, r in used.items():
        if len(r.calls) != (1 if n_ == which else 0):
            if any(x.calls for x in used.values()) and not used[which].calls:
                return v.mismatch('selected-by', f'{how} is handled by another function') if want & {'selection', 'molecules'} else None
            raise Unsupported('the selection is not made by one call')
    call = used[which].calls[0]
    p = rp.calls[0]
    if want & {'selection', 'molecules'}:
        v.same('selection-from-the-first-frame', call['structure'], struct)
        v.same('framework-option', call['framework_indices'], fr)
        if which == 'species':
            v.same('species', call['specie'], specie)
        else:
            v.same('atoms', call['indices'], sel)
        if which == 'mol':
            v.same('coordinates', call['coords'], coords)
            v.same('masses', call['masses'], masses)
        v.same('analysed-atoms', p['indices'], ids[which][0])
        v.same('framework', p['drift_indices'], ids[which][1])
    if want & {'molecules', 'reading'}:
        v.same('coordinates-used', rd.calls[0]['coords'], mcoords if which == 'mol' else coords)
        v.same('displacements-used', p['disp'], disp)
    if 'reading' in want:
        r = rr.calls[0]
        v.same('whole-trajectory-read', r[{'ASE': 'atoms', 'pymatgen': 'structures', 'MDAnalysis': 'universe'}[kind]], src)
        v.same('sub-sampling', r['sub_sample_traj'], k)
        if j is not None:
            v.same('atom-sub-sampling', r['sub_sample_atoms'], j)
        v.same('cells-used', rd.calls[0]['latt'], latt)
        v.same('time-step', p['time_step'], ts)
        v.same('steps-between-frames', p['step_skip'], skip * k)
        v.same('volume', e.getattr(o, 'volume'), {'ASE': app('ase_volume', struct.term), 'pymatgen': app('pmg_volume', struct.term), 'MDAnalysis': vol}[kind])
        f = num(Fraction(1, 1000)) if kind == 'pymatgen' else ONE
        v.same('reported-times', o.attrs.get('delta_t'), SArr(times.axes, lambda idx: app('in_times', num(idx[0])) * f))
        for n_, x in base.items():
            v.same('keeps-' + n_, o.attrs.get(n_), x)
    for w, names in (('limits', ('min_dt', 'max_dt')), ('options', ('n_steps', 'spacing')), ('sampling', ('sampling', )), ('memory', ('memory_limit', ))):
        if w in want and (given or w == 'limits'):
            for n_ in names:
                v.same('passes-' + n_, p[n_], opts[n_] if given else None)
    v.frame()
