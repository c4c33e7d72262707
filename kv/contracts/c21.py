"""C21 frame conditions: nothing a user hands over is written.

Every contract of the other properties runs here once more with one question: which stores does the body write, and does
any of them belong to the user?  Data a caller gives is owned by the user; what a callee replaced by its contract returns,
and what an object in an arbitrary state holds, may be (a view of) the user's data for lack of a proof to the contrary.
Where code writes into such a value, freshness is proved (`fresh`).  Results are functions of the arguments alone (the other
properties) and the arguments stay as they are, hence any interleaving of analyses gives what each gives alone."""
import importlib, multiprocessing, os, re
from ..verify import *          # noqa
from . import diffusion_specs as ds, parser_flow as pf
from .c04 import parser, intervals
from .c10 import data_args

MODULES = ('c18', 'c09', 'c16', 'c11', 'c06', 'c04', 'c05', 'c03', 'c10', 'c08', 'c07', 'c01', 'c02', 'c12', 'c13', 'c14', 'c15', 'c20')
KEEP = ('frame', '*', 'precondition-satisfiable')
PUBLIC = re.compile(r'.*Parser\.(__init__|get_structure_coords_latt)|MS[TC]?DBootstrap|.*Analyzer|(Standard|Super)Arrhenius|(super_)?arrhenius|user: ')
FRESH = {'times'}          # Parser.__init__ keeps what get_disps returns (C04, keeps-delta_t), which is fresh (below)


class FrameV(V):
    def public(self, group):
        return bool(PUBLIC.match(group))

    def arr(self, name, *dims, owner=True, **kw):
        a = super().arr(name, *dims, owner=owner, **kw)
        if not owner and name not in FRESH:
            a.store.owner = '?' + name
        return a

    def fresh(self, label, x):
        """No store reachable from x belongs to the user."""
        bad = owned(x)
        if bad:
            return self.soft(label, f'may share memory with {bad}')
        self.ok(label)


MADE = {'?' + INSTANCE, '?an element of a list', '?one of two arrays', '?one of two objects'}          # made by the code itself


def owned(x):
    o = x.store.owner if isinstance(x, SArr) else getattr(x, 'owner', None)
    if o and o not in MADE:
        return [o]
    if isinstance(x, tuple):
        return [o for y in x for o in owned(y)]
    if isinstance(x, PyList):
        return owned_rep(x.rep)
    if isinstance(x, PyDict):
        return [o for y in x.items.values() for o in owned(y)]
    if isinstance(x, Obj):
        return [o for y in x.attrs.values() for o in owned(y)]
    return []


def owned_rep(r):
    if r[0] == 'items':
        return [o for y in r[1] for o in owned(y)]
    if r[0] == 'cat':
        return [o for y in r[1] for o in owned_rep(y)]
    if r[0] == 'seq':
        return owned(r[1].get(fresh('k', 'i')))
    if r[0] == 'filt':
        return owned(r[3](fresh('k', 'i')))
    return [f'a list of kind {r[0]}']


def run_module(args):
    mod, tier, deadline, repo = args
    v = FrameV('C21', deadline, repo)
    try:
        if mod == 'own':
            own(v)
        else:
            importlib.import_module('kv.contracts.' + mod).check(v, tier)
    except Deadline:
        v.put(mod, '*', 'unknown', 'time limit')
    except Exception as x:          # noqa
        v.put(mod, '*', 'unsupported', f'{type(x).__name__}: {x}')
    obs = [v.obs[k] for k in v.order]
    if mod != 'own':
        obs = [dict(o, id=f'{mod}: {o["id"]}') for o in obs if any(o['id'].endswith('.' + k) for k in KEEP)]
    return obs, v.functions, v.assumptions, v.notes, v.backends, v.solver_s, v.modular, v.framewrites


def check(v, tier):
    jobs = [(m, tier, v.deadline, v.repo) for m in ('own', ) + MODULES]
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 2), maxtasksperchild=1) as pool:
        for obs, fn, ass, notes, back, sec, mod, fw in pool.imap(run_module, jobs, chunksize=1):
            for o in obs:
                v.obs[o['id']] = o
                v.order.append(o['id'])
            v.functions |= fn
            v.assumptions |= ass
            v.modular |= mod
            v.notes += notes
            v.framewrites += fw
            v.solver_s += sec
            for b, n in back.items():
                v.backends[b] = v.backends.get(b, 0) + n
    v.trusted.add('numpy, scipy, sklearn, uravu, emcee, statsmodels, pymatgen, ASE, MDAnalysis and h5py calls do not write their arguments; which of them return views is modelled (kv/npmodel.py, kv/extmodel.py)')
    v.trusted.add('a RandomState given by the user advances: that is its purpose')


# ------------------------------------------------------------------------------------------------------------------
# through the public entry points with the bodies of everything that sees the user's data
# ------------------------------------------------------------------------------------------------------------------
def own(v):
    for sampling in ('multi-origin', 'single-origin'):
        for array in (False, True):
            def run(v, sampling=sampling, array=array):
                def path():
                    e = v.E
                    o, dc, idx, ts, skip, n, N = parser(v, sampling, array)
                    out = v.call(e.getattr(o, 'get_disps'), [intervals(v, N), dc, False])
                    if out.kind == 'ret':
                        v.fresh('results-share-no-memory-with-the-displacements', out.value)
                v.paths(path)
            v.group(f'get_disps[{sampling}, {"array" if array else "list"}]', run)

    for kind in pf.KINDS:
        for how in pf.SELECT:
            def run(v, kind=kind, how=how):
                v.paths(lambda: selected(v, kind, how))
            v.group(f'user: {pf.KINDS[kind][0]} selection [{how}]', run)

    def whole(v):
        def path():
            e = v.E
            n, N = v.int_('atoms', 1), v.int_('steps', 1)
            disp = v.arr('disp', n, N, 3)
            e.assume(le(1, disp.meta['itemsize']))
            sel, fr = v.intlist('sel', v.int_('nsel', 1), 0, n), v.intlist('framework', v.int_('nframe', 0), 0, n)
            tau = intervals(v, N)
            tau.store.owner = None
            pf.Rec(e, 'Parser.get_time_intervals', tau)
            out = v.call(e.get('parser:Parser'), [disp, sel, fr, v.real('ts', 0, True), v.int_('skip', 1)], dict(memory_limit=v.real('limit'), progress=False))
            if out.kind == 'ret':
                for k in ('delta_t', 'disp_3d', '_n_o'):
                    v.fresh('results-share-no-memory-with-the-displacements', out.value.attrs.get(k))
        v.paths(path)
    v.group('user: Parser', whole)

    for cls, meth, kind, charge in (('MSDBootstrap', 'diffusion', 'single', None), ('MSTDBootstrap', 'jump_diffusion', 'collective', None),
                                    ('MSCDBootstrap', 'conductivity', 'collective', 'array'), ('MSCDBootstrap', 'conductivity', 'collective', 'list')):
        for model in (False, True):
            def run(v, cls=cls, meth=meth, kind=kind, charge=charge, model=model):
                def path():
                    e = v.E
                    d, args, q = data_args(v, kind, charge)
                    out = v.call(e.get('diffusion:' + cls), args, dict(sub_sample_dt=d.k, dimension='xz', progress=False))
                    if out.kind != 'ret':
                        return
                    o = out.value
                    t0 = v.real('start')
                    dt = e.getattr(o, '_dt')
                    i = fresh('l', 'i')
                    late = mklam([i], [axlen(dt.axes[0])], le(t0, dt.at(i)), 'cond')
                    e.assume(lt(0, app('count', late, sort='i')))
                    extra = [v.real('T', 0, True), v.real('volume', 0, True)] if meth == 'conductivity' else []
                    out = v.call(e.getattr(o, meth), [t0] + extra, dict(model=model, progress=False))
                    if out.kind != 'ret':
                        return
                    v.call(e.getattr(o, 'posterior_predictive'), [], dict(n_posterior_samples=v.int_('npost', 1), n_predictive_samples=v.int_('npred', 1), progress=False))
                    dd = v.call(e.getattr(o, 'to_dict'), [])
                    if dd.kind == 'ret':
                        v.call(e.getattr(e.get('diffusion:' + cls), 'from_dict'), [dd.value])
                v.paths(path)
            v.group(f'user: {cls}.{meth}[model={model}{", charges as " + charge if charge else ""}]', run)


def selected(v, kind, how):
    """The parser of a trajectory with the bodies of the functions that are handed the selection."""
    e = v.E
    cname, ttag, stag = pf.KINDS[kind]
    src = Opq(var('in_trajectory', 'o'), ttag)
    struct = Opq(var('in_structure', 'o') if kind != 'MDAnalysis' else app('mda_atoms', src.term, sort='o'), stag)
    F, A = v.int_('frames', 1), v.int_('atoms', 1)
    coords = v.arrlist('coords', F + 1, lambda i: [A, 1, 3])
    latt = v.arrlist('latt', F + 1, lambda i: [num(3), num(3)])
    pf.Rec(e, cname + '.get_structure_coords_latt', (struct, coords, latt) + ((v.real('volume'), ) if kind == 'MDAnalysis' else ()))
    pf.Rec(e, 'Parser.get_disp', v.arr('disp', A, F, 3, owner=False))
    times = v.arr('times', v.int_('nint', 1), owner=False)
    pf.Rec(e, 'Parser.__init__', lambda b: e.setattr(b['self'], 'delta_t', times))
    specie, sel = pf.selection(v, how)
    fr = None if e.branch(bapp('in_noframework')) else v.intlist('framework', v.int_('nframework', 0), 0)
    masses = None if not how.endswith('molecules') or e.branch(bapp('in_nomasses')) else PyList(('seq', Seq(v.int_('nmasses', 1), lambda i: app('in_masses', num(i)))), owner='masses')
    v.call(e.get('parser:' + cname), [src], dict(specie=specie, specie_indices=sel, masses=masses, framework_indices=fr, time_step=v.real('ts', 0, True), step_skip=v.int_('skip', 1), progress=False))
