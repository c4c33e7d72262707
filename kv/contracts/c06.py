"""C06 selection of atoms and framework."""
from ..verify import *          # noqa
from ..extmodel import NATOMS
from . import parser_flow as pf

NAME = {'ASE': lambda s, i: app('ase_symbol', s, i, sort='o'), 'pymatgen': lambda s, i: app('str', app('pmg_specie', s, i, sort='o'), sort='o')}


def structure(v, kind):
    e = v.E
    e.assume(le(1, NATOMS))
    if kind != 'MDAnalysis':
        s = Opq(var('in_structure', 'o'), pf.KINDS[kind][2])
        return s, NATOMS, lambda i: Opq(NAME[kind](s.term, num(i)), 'str')
    u = var('in_universe', 'o')
    j = v.int_('atomevery', 1)
    n = floor((NATOMS + j - 1) / j)
    ag = app('mda_slice', app('mda_atoms', u, sort='o'), ZERO, n, j, sort='o')
    return Opq(ag, 'mda_ag'), n, lambda i: Opq(app('mda_type', u, num(i) * j, sort='o'), 'str')


def by_species(v, kind):
    for several in (False, True):
        def run(v, several=several):
            def path():
                e = v.E
                s, n, name = structure(v, kind)
                specie, _ = pf.selection(v, 'list of species' if several else 'species')
                fr = None if e.branch(bapp('in_noframework')) else v.intlist('framework', v.int_('nframework', 0), 0)
                if fr is not None and e.branch(bapp('in_frameworktuple')):
                    fr = (v.int_('f0', 0), v.int_('f1', 0))
                cls = e.get('parser:' + pf.KINDS[kind][0])
                out = v.call(e.getattr(cls, 'get_indices'), [s, specie, fr])
                rep = e.seqof(specie) if several else ('items', [specie])
                chosen = lambda i: e.rep_contains(rep, name(i))        # noqa
                sel = ('filt', n, chosen, lambda i: num(i))
                rest = ('filt', n, lambda i: neg(chosen(i)), lambda i: num(i))

                def expected():
                    if e.branch(eq(rep_len(sel), 0)):
                        raise RaiseEx(ExcV('ValueError'))
                exp = v.out_of(expected)
                if out.kind != exp.kind or out.kind == 'raise':
                    return v.outcome('no-such-atom', out, exp)
                got = out.value
                if not isinstance(got, tuple) or len(got) != 2:
                    raise Unsupported('result of get_indices')
                v.same('analysed-atoms', got[0], PyList(sel))
                want = PyList(rest) if fr is None else PyList(e.seqof(fr))
                v.same('framework', got[1], want)
                v.frame()
            v.paths(path)
        v.group(f'{pf.KINDS[kind][0]}.get_indices[{"several" if several else "one"} species]', run)


def by_index(v):
    for kind in pf.KINDS:
        def run(v, kind=kind):
            def path():
                e = v.E
                s, n, name = structure(v, kind)
                sel = v.intlist('sel', v.int_('nsel', 1), 0, n)
                fr = None if e.branch(bapp('in_noframework')) else v.intlist('framework', v.int_('nframework', 0), 1)
                if fr is not None and e.branch(bapp('in_frameworktuple')):
                    fr = (v.int_('f0', 1), v.int_('f1', 1))
                out = v.call(e.get('parser:_get_framework'), [s, sel, fr])
                if out.kind != 'ret' or not isinstance(out.value, tuple) or len(out.value) != 2:
                    return v.mismatch('returns', show(out))
                v.same('analysed-atoms', out.value[0], sel)
                got = out.value[1]
                if fr is None:
                    rep = e.seqof(sel)
                    v.same('framework', got, PyList(('filt', n, lambda i: neg(e.rep_contains(rep, num(i))), lambda i: num(i))))
                else:
                    r = e.seqof(fr)
                    v.same('framework-one-based', e.ext.np_array(got), SArr(simple(rep_len(r)), lambda idx: num(e.rep_at(r, num(idx[0]))) - 1, 'i'))
                v.frame()
            v.paths(path)
        v.group(f'_get_framework[{kind}]', run)


def check(v, tier):
    for kind in pf.KINDS:
        by_species(v, kind)
    by_index(v)
    pf.flow(v, {'selection'})
