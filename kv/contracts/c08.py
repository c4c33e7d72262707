"""C08 reading of trajectories."""
from ..verify import *          # noqa
from ..extmodel import NATOMS
from . import parser_specs as ps
from . import parser_flow as pf

KINDS = {'ASE': ('ASEParser', 'ase_traj'), 'pymatgen': ('PymatgenParser', 'pmg_traj'), 'MDAnalysis': ('MDAnalysisParser', 'mda_universe')}


def trajectory(v, kind):
    """An arbitrary non-empty trajectory: (user object, sequence of frames, number of frames)"""
    e = v.E
    src = Opq(var('in_trajectory', 'o'), KINDS[kind][1])
    frames = src if kind != 'MDAnalysis' else Opq(app('mda_traj', src.term, sort='o'), 'mda_traj')
    n = app('olen', frames.term, sort='i')
    e.assume(le(1, n), le(1, NATOMS))
    return src, frames, n


def frame_spec(kind, frames, f, j):
    """(number of atoms, fractional coordinate of (atom, axis), cell entry of (row, column)) of frame f"""
    t = app('oitem', frames.term, f, sort='o')
    if kind == 'ASE':
        return lambda a, x: app('ase_scaled', t, a, x), lambda p, q: app('ase_cell', t, p, q)
    if kind == 'pymatgen':
        return lambda a, x: app('pmg_frac', t, a, x), lambda p, q: app('pmg_cell', t, p, q)
    cell = lambda p, q: app('mda_cell', t, num(p), num(q))        # noqa
    es = [cell(p, q) for p in range(3) for q in range(3)]
    return lambda a, x: sum((app('mda_pos', t, a * j, num(m)) * app('inv3', *es, num(m), x) for m in range(3)), ZERO), cell


def reader(v, kind):
    def path():
        e = v.E
        src, frames, n = trajectory(v, kind)
        k = v.int_('every', 1)
        j = v.int_('atomevery', 1)
        progress = e.branch(bapp('in_progress'))
        cls = e.get('parser:' + KINDS[kind][0])
        args = [src, k, progress] if kind != 'MDAnalysis' else [src, j, k, progress]
        out = v.call(e.getattr(cls, 'get_structure_coords_latt'), args)
        if out.kind != 'ret':
            return v.mismatch('returns', show(out))
        got = out.value
        if not isinstance(got, tuple) or len(got) != (4 if kind == 'MDAnalysis' else 3):
            raise Unsupported('result of get_structure_coords_latt')
        structure, coords, latt = got[:3]
        A = NATOMS if kind != 'MDAnalysis' else floor((NATOMS + j - 1) / j)
        F = floor((n + k - 1) / k)

        def of(i, what):
            c, l = frame_spec(kind, frames, ite(le(i, 0), 0, (i - 1) * k), j)
            if what == 'c':
                return SArr(simple(A, 1, 3), lambda idx: c(num(idx[0]), num(idx[2])))
            return SArr(simple(3, 3), lambda idx: l(num(idx[0]), num(idx[1])))
        first = app('oitem', frames.term, ZERO, sort='o')
        v.same('coordinates', coords, PyList(('seq', Seq(F + 1, lambda i: of(i, 'c')))))
        v.same('cells', latt, PyList(('seq', Seq(F + 1, lambda i: of(i, 'l')))))
        if kind != 'MDAnalysis':
            v.same('atoms-of-the-first-frame', structure, Opq(first, KINDS[kind][1].replace('traj', 'atoms' if kind == 'ASE' else 'structure')))
        else:
            i = fresh('i', 'i')
            v.eq('number-of-atoms', e.ext.b_len([structure], {}), A)
            el = e.rep_at(e.seqof(structure), i)
            v.same('every-jth-atom', el, Opq(app('mda_atom', src.term, i * j, sort='o'), 'mda_atom'))
            v.same('volume', got[3], app('mda_volume', first))
        v.frame()
    v.paths(path)


def check(v, tier):
    for kind in KINDS:
        v.group(f'{KINDS[kind][0]}.get_structure_coords_latt', lambda v, kind=kind: reader(v, kind))
    pf.flow(v, {'reading'})
