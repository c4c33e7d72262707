"""Assumed contracts of the user's trajectory objects (ASE Atoms, pymatgen Structure and Xdatcar, MDAnalysis Universe).

Every read of such an object is an uninterpreted function of the object, of the frame it belongs to and of the index, so a
proof holds for all trajectories.  All frames hold the same number of atoms.  A MDAnalysis universe has a current frame: the
one last yielded by its trajectory, the first again when an iteration has come to its end."""
from .term import *          # noqa
from .sval import *          # noqa
from . import npmodel as M
from . import interp

NATOMS = var('in_natoms', 'i')


def arr(head, o, *dims, owner=True):
    a = SArr(simple(*dims), lambda idx: app(head, o.term, *[num(x) for x in idx]), 'f', meta={'itemsize': num(8)})
    if owner:
        a.store.owner = head
    return a


def method(f):
    return lambda x, o: Builtin('method', lambda a, k: f(x, o, a, k))


def prop(tag, name):
    def reg(f):
        M.OPAQUE[(tag, name)] = f
        return f
    return reg


def pure(a, k):
    if a or k:
        raise Unsupported('options of an external method')


def string(head, *args):
    return Opq(app(head, *args, sort='o'), 'str')


# methods that change the user's object
USER = ('ase_traj', 'ase_atoms', 'ase_atom', 'ase_cell', 'pmg_traj', 'pmg_structure', 'pmg_site', 'pmg_lattice', 'xdatcar', 'mda_universe', 'mda_traj', 'mda_ts', 'mda_ag', 'mda_atom')
for _t, _names in {'ase_atoms': ('wrap', 'set_positions', 'set_cell', 'set_scaled_positions', 'translate', 'center', 'rotate', 'set_pbc', 'append', 'extend', 'pop', 'rattle'),
                   'pmg_structure': ('translate_sites', 'perturb', 'sort', 'append', 'insert', 'remove_sites', 'remove_species', 'replace_species', 'apply_operation', 'make_supercell'),
                   'ase_traj': ('pop', 'clear', 'append', 'reverse', 'sort', 'insert'), 'pmg_traj': ('pop', 'clear', 'append', 'reverse', 'sort', 'insert'),
                   'mda_ag': ('wrap', 'unwrap', 'translate', 'rotate', 'pack_into_box'), 'mda_traj': ('add_transformations', ), 'mda_universe': ('transfer_to_memory', )}.items():
    for _n in _names:
        M.MUTATORS.add((_t, _n))
M.USER_TAGS.update(USER)


# ---- ASE: a trajectory is a sequence of Atoms
M.SEQ_TAGS['ase_traj'] = 'ase_atoms'
M.SEQ_TAGS['ase_atoms'] = 'ase_atom'


def ase_scaled(x, o, a, k):
    if not a and not k or a == [True] and not k or k == {'wrap': True} and not a:
        return arr('ase_scaled', o, NATOMS, 3, owner=False)
    if a == [False] or k == {'wrap': False}:
        return arr('ase_scaled_unwrapped', o, NATOMS, 3, owner=False)
    raise Unsupported('get_scaled_positions')


M.OPAQUE[('ase_atoms', 'get_scaled_positions')] = method(ase_scaled)
M.OPAQUE[('ase_atoms', 'positions')] = lambda x, o: arr('ase_pos', o, NATOMS, 3)
M.OPAQUE[('ase_atoms', 'get_positions')] = method(lambda x, o, a, k: pure(a, k) or arr('ase_pos', o, NATOMS, 3, owner=False))
M.OPAQUE[('ase_atoms', 'cell')] = lambda x, o: Opq(app('ase_cellobj', o.term, sort='o'), 'ase_cell')
M.OPAQUE[('ase_atoms', 'get_cell')] = method(lambda x, o, a, k: pure(a, k) or Opq(app('ase_cellobj', o.term, sort='o'), 'ase_cellcopy'))
M.OPAQUE[('ase_cell', 'array')] = lambda x, o: M.ARRAY_TAGS['ase_cell'](x, o)
M.ARRAY_TAGS['ase_cell'] = lambda x, o: arr('ase_cell', Opq(atom_of(o.term).data[1][0]), 3, 3)
M.ARRAY_TAGS['ase_cellcopy'] = lambda x, o: arr('ase_cell', Opq(atom_of(o.term).data[1][0]), 3, 3, owner=False)
M.OPAQUE[('ase_cellcopy', 'array')] = lambda x, o: M.ARRAY_TAGS['ase_cellcopy'](x, o)
M.OPAQUE[('ase_cell', 'volume')] = M.OPAQUE[('ase_cellcopy', 'volume')] = lambda x, o: app('ase_volume', atom_of(o.term).data[1][0])
M.OPAQUE[('ase_atoms', 'get_volume')] = method(lambda x, o, a, k: pure(a, k) or app('ase_volume', o.term))
M.OPAQUE[('ase_atom', 'symbol')] = lambda x, o: string('ase_symbol', *atom_of(o.term).data[1])
M.OPAQUE[('ase_atoms', 'get_chemical_symbols')] = method(lambda x, o, a, k: pure(a, k) or PyList(('seq', Seq(NATOMS, lambda i: string('ase_symbol', o.term, num(i))))))
M.OPAQUE[('ase_atoms', 'get_global_number_of_atoms')] = method(lambda x, o, a, k: pure(a, k) or NATOMS)

# ---- pymatgen
M.SEQ_TAGS['pmg_traj'] = 'pmg_structure'
M.SEQ_TAGS['pmg_structure'] = 'pmg_site'
M.OPAQUE[('pmg_structure', 'frac_coords')] = lambda x, o: arr('pmg_frac', o, NATOMS, 3, owner=False)
M.OPAQUE[('pmg_structure', 'cart_coords')] = lambda x, o: arr('pmg_cart', o, NATOMS, 3, owner=False)
M.OPAQUE[('pmg_structure', 'volume')] = lambda x, o: app('pmg_volume', o.term)
M.OPAQUE[('pmg_structure', 'lattice')] = lambda x, o: Opq(app('pmg_latticeobj', o.term, sort='o'), 'pmg_lattice')
M.OPAQUE[('pmg_structure', 'sites')] = lambda x, o: PyList(x.iter_opaque(o), owner='sites')
M.OPAQUE[('pmg_structure', 'num_sites')] = lambda x, o: NATOMS
M.OPAQUE[('pmg_lattice', 'matrix')] = lambda x, o: arr('pmg_cell', Opq(atom_of(o.term).data[1][0]), 3, 3)
M.OPAQUE[('pmg_lattice', 'volume')] = lambda x, o: app('pmg_volume', atom_of(o.term).data[1][0])
M.OPAQUE[('pmg_site', 'specie')] = lambda x, o: Opq(app('pmg_specie', *atom_of(o.term).data[1], sort='o'), 'pmg_specie')
M.OPAQUE[('pmg_specie', '__str__')] = method(lambda x, o, a, k: pure(a, k) or Opq(app('str', o.term, sort='o'), 'str'))
M.OPAQUE[('pmg_site', 'species_string')] = lambda x, o: Opq(app('str', app('pmg_specie', *atom_of(o.term).data[1], sort='o'), sort='o'), 'str')
M.OPAQUE[('xdatcar', 'structures')] = lambda x, o: Opq(app('xdatcar_structures', o.term, sort='o'), 'pmg_traj')

# ---- MDAnalysis
M.SEQ_TAGS['mda_traj'] = 'mda_ts'
M.OPAQUE[('mda_universe', 'trajectory')] = lambda x, o: Opq(app('mda_traj', o.term, sort='o'), 'mda_traj')
M.OPAQUE[('mda_universe', 'atoms')] = lambda x, o: Opq(app('mda_atoms', o.term, sort='o'), 'mda_ag')
M.OPAQUE[('mda_ts', 'volume')] = lambda x, o: app('mda_volume', o.term)
M.OPAQUE[('mda_ts', 'triclinic_dimensions')] = lambda x, o: arr('mda_cell', o, 3, 3, owner=False)
M.OPAQUE[('mda_ts', 'positions')] = lambda x, o: arr('mda_pos', o, NATOMS, 3)
M.OPAQUE[('mda_traj', 'n_frames')] = lambda x, o: app('olen', o.term, sort='i')
M.OPAQUE[('mda_traj', 'ts')] = lambda x, o: current(x, o.term)


def group(t):
    """(universe, length, index of member i) of an atom group term"""
    h, args = atom_of(t).data
    if h == 'mda_atoms':
        return args[0], NATOMS, lambda i: num(i)
    u, n, f = group(args[0])
    lo, k, step = args[1:]
    return u, k, lambda i: f(lo + num(i) * step)


def current(x, traj):
    c = x.E.ghost.get('mda')
    if c is None:
        return Opq(app('oitem', traj, ZERO, sort='o'), 'mda_ts')
    if atom_of(c.term) is None or atom_of(c.term).data[1][0] is not traj:
        raise Unsupported('current frame of another universe')
    return c


@prop('mda_ag', 'positions')
def positions(x, o):
    u, n, f = group(o.term)
    ts = current(x, app('mda_traj', u, sort='o'))
    return SArr(simple(n, 3), lambda idx: app('mda_pos', ts.term, f(idx[0]), num(idx[1])), 'f')


M.OPAQUE[('mda_ag', 'n_atoms')] = lambda x, o: group(o.term)[1]


def ag_item(x, o, ix):
    u, n, f = group(o.term)
    if isinstance(ix, SliceV):
        lo, k, step = x.E.slice_range(ix, n)
        if lo is ZERO and k is n and step is ONE:
            return o
        return Opq(app('mda_slice', o.term, lo, k, step, sort='o'), 'mda_ag')
    raise Unsupported('item of an atom group')


def ag_iter(x, o):
    u, n, f = group(o.term)
    return ('seq', Seq(n, lambda i: Opq(app('mda_atom', u, f(num(i)), sort='o'), 'mda_atom')))


M.ITEM_TAGS['mda_ag'] = ag_item
M.ITER_TAGS['mda_ag'] = ag_iter
M.OPAQUE[('mda_atom', 'type')] = lambda x, o: string('mda_type', *atom_of(o.term).data[1])


def cell_item(x, o, ix):
    return x.arr_get(M.ARRAY_TAGS[o.tag](x, o), ix)


M.ITEM_TAGS['ase_cell'] = M.ITEM_TAGS['ase_cellcopy'] = cell_item
M.LEN_TAGS['ase_atoms'] = lambda x, o: NATOMS
M.LEN_TAGS['pmg_structure'] = lambda x, o: NATOMS


def on_elem(E, v):
    """A frame is fetched from a trajectory: it becomes the current one."""
    if isinstance(v, Opq) and v.tag == 'mda_ts':
        E.set(E.ghost, 'mda', v)
        return True
    if isinstance(v, tuple):
        return any([on_elem(E, x) for x in v])
    return False


def rewound(E):
    E.set(E.ghost, 'mda', None)


interp.HOOKS.update(elem=on_elem, end=rewound)
