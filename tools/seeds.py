"""Planted bugs: edits of /repo/kinisi, and a demonstration that fails with the edit and passes without it."""
PRELUDE = '''import sys, warnings, os, tempfile, shutil
import numpy as np
warnings.simplefilter('ignore')


def check(ok, what):
    if not ok:
        print('BROKEN:', what)
        sys.exit(1)


def close(a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-10), what)


'''
SEEDS = [
    dict(id='C01-cell-of-previous-frame', property='C01',
         edits=[('kinisi/parser.py', "latt[1:])  # calc", "latt[:-1])  # calc")],
         needs='a cell that changes from frame to frame and an atom that crosses a boundary in the same step',
         breaks='the image correction is multiplied with the cell of the previous frame, so a boundary crossing in a breathing cell leaves a spurious displacement of the cell change',
         demo='''
from kinisi.parser import Parser
coords = [np.array([[[.95, .5, .5]]]), np.array([[[.02, .5, .5]]])]
latt = [np.eye(3) * 10, np.eye(3) * 11]
d = Parser.get_disp(coords, latt, progress=False)
close(d[0, 0], [.02 * 11 + 11 - 9.5, .5, .5], 'unwrapped displacement %s' % d[0, 0])
'''),
    dict(id='C02-single-framework-atom', property='C02',
         edits=[('kinisi/parser.py', "if len(drift_indices) > 0:", "if np.any(drift_indices):")],
         needs='a framework that consists of atom 0 alone',
         breaks='a truth test of the index values replaces the test for an empty list: a framework made of the atom with index 0 is ignored and the drift stays in',
         demo='''
from kinisi.parser import Parser
disp = np.array([[[1., 2, 3], [2, 3, 4.]], [[2., 2, 2], [3, 3, 3.]]])
r = Parser.correct_drift([0], disp)
close(r[0], 0 * r[0], 'framework atom still moves')
r = Parser.correct_drift([0, 1], disp)
close(r.mean(axis=0), 0 * r[0], 'framework still moves')
'''),
    dict(id='C04-first-window-by-position', property='C04',
         edits=[('kinisi/parser.py', "drift_corrected[self.indices, np.newaxis, time_interval - 1],", "drift_corrected[self.indices, np.newaxis, i],")],
         needs='a grid of intervals that does not start at one step or leaves steps out',
         breaks='the window that starts at the first frame is taken from the position of the interval in the grid instead of its length',
         demo='''
from kinisi.parser import Parser
rng = np.random.default_rng(0)
disp = np.cumsum(rng.normal(size=(3, 20, 3)), axis=1)
p = Parser(disp, [0, 1, 2], [], 1., 1, n_steps=5, progress=False)
for k, t in enumerate(p.time_intervals):
    close(p.disp_3d[k][:, 0], disp[:, t - 1], 'first window of interval %d' % t)
p = Parser(disp, [0, 1, 2], [], 1., 1, progress=False)
close(p.disp_3d[4][:, 0], disp[:, 4], 'first window')
'''),
    dict(id='C05-limit-counts-all-atoms', property='C05',
         edits=[('kinisi/parser.py', "np.prod(drift_corrected[self.indices, time_interval::].shape) * itemsize", "np.prod(drift_corrected[self.drift_indices or self.indices, time_interval::].shape) * itemsize")],
         needs='a framework with a number of atoms different from the number of selected atoms, and a memory limit near the need of the job',
         breaks='the memory estimate counts the framework atoms instead of the selected ones',
         demo='''
from kinisi.parser import Parser
disp = np.zeros((12, 30, 3))
disp += np.random.default_rng(1).normal(size=disp.shape)
for ind, drift in (([0], list(range(1, 12))), (list(range(11)), [11])):
    need = sum(len(ind) * (30 - t + 1) * 3 * 8 for t in range(1, 31)) * 1e-9
    for f, want in ((1.001, False), (.999, True)):
        try:
            Parser(disp, ind, drift, 1., 1, memory_limit=need * f, progress=False)
            got = False
        except MemoryError:
            got = True
        check(got == want, 'limit at %s of the need, %d atoms: raised %s' % (f, len(ind), got))
'''),
    dict(id='C06-substring-species', property='C06',
         edits=[('kinisi/parser.py', "if not isinstance(specie, List):", "if not isinstance(specie, (List, str)):")],
         needs='a system that contains an element whose symbol is part of the requested symbol (C and Cl)',
         breaks='the requested symbol is no longer put into a list, so membership becomes a substring test and carbon is analysed together with chlorine',
         demo='''
from kinisi.parser import ASEParser
from ase import Atoms
a = Atoms('ClCHCl', positions=np.random.default_rng(0).random((4, 3)) * 5, cell=[5, 5, 5], pbc=True)
i, d = ASEParser.get_indices(a, 'Cl', None)
check(list(i) == [0, 3] and list(d) == [1, 2], 'selected %s, framework %s' % (i, d))
i, d = ASEParser.get_indices(a, ['H'], None)
check(list(i) == [2], 'selected %s' % i)
'''),
    dict(id='C07-integer-masses', property='C07',
         edits=[('kinisi/parser.py', "masses = np.array(masses)", "masses = np.array(masses, dtype=int)")],
         needs='masses with a fractional part',
         breaks='the masses are cut to whole numbers, so the representative point is not the centre of mass',
         demo='''
from kinisi.parser import _get_molecules
c = np.array([[.1, .2, .3], [.3, .2, .3], [.15, .4, .3]])[:, None, :]
m = [1.5, 2.25, 4.75]
new, (i, d) = _get_molecules([0, 1, 2], np.array([c, c]), [[1, 2, 3]], m, None)
close(new[0][0, 0] if np.ndim(new[0]) == 3 else new[0][0], np.average(c[:, 0], axis=0, weights=m), 'centre of mass %s' % new[0])
'''),
    dict(id='C08-first-cell-inverse', property='C08',
         edits=[('kinisi/parser.py', "            inv_matrix = np.linalg.inv(matrix)\n", "            inv_matrix = np.linalg.inv(matrix) if not coords else inv_matrix\n")],
         needs='an MDAnalysis trajectory in which the box changes',
         breaks='the positions of every frame are scaled with the inverse of the first box',
         demo='''
import MDAnalysis as mda
from MDAnalysis.coordinates.memory import MemoryReader
from kinisi.parser import MDAnalysisParser
pos = np.random.default_rng(0).random((3, 2, 3)).astype(np.float32) * 8
dims = np.array([[10, 10, 10, 90, 90, 90], [11, 10, 10, 90, 90, 90], [12, 10, 10, 90, 90, 90]], np.float32)
u = mda.Universe.empty(2, trajectory=True)
u.load_new(pos, format=MemoryReader, dimensions=dims)
u.add_TopologyAttr('type', ['A', 'B'])
s, c, l, v = MDAnalysisParser.get_structure_coords_latt(u, progress=False)
check(len(c) == 4, 'frames')
for k in range(3):
    check(np.allclose(c[k + 1][:, 0], pos[k] / dims[k, :3], atol=1e-5), 'scaled positions of frame %d' % k)
'''),
    dict(id='C09-volume-of-last', property='C09', occ=3,
         edits=[('kinisi/analyzer.py', "n_o, u[0].volume, **kwargs)", "n_o, i.volume, **kwargs)")],
         needs='Xdatcar files given as repeats with cells of different volume',
         breaks='the volume of the last repeat is reported instead of that of the first',
         demo='''
from pymatgen.core import Structure, Lattice
from pymatgen.io.vasp import Xdatcar
from kinisi.diffusion_analyzer import DiffusionAnalyzer
rng = np.random.default_rng(0)
w = tempfile.mkdtemp()
try:
    names = []
    for a in (6., 7.):
        x0 = rng.random((4, 3))
        st = [Structure(Lattice.cubic(a), ['Li', 'Li', 'O', 'O'], (x0 + .02 * rng.normal(size=(4, 3))) % 1) for _ in range(12)]
        from pymatgen.core.trajectory import Trajectory
        f = os.path.join(w, 'XDATCAR%d' % a)
        Trajectory.from_structures(st, constant_lattice=True).write_Xdatcar(f)
        names.append(f)
    d = DiffusionAnalyzer.from_file(names, {'specie': __import__('pymatgen').core.Element('Li').symbol, 'time_step': 1., 'step_skip': 1, 'progress': False}, dtype='identical', uncertainty_params={'progress': False})
    check(abs(d.volume - 216) < 1e-6, 'volume %s' % d.volume)
finally:
    shutil.rmtree(w)
'''),
    dict(id='C12-observations-of-skipped-intervals', property='C12',
         edits=[('kinisi/diffusion.py', "_populate_covariance_matrix(self._model_v, self._n_o[diff_regime:])", "_populate_covariance_matrix(self._model_v, self._n_o[:self._model_v.size])")],
         needs='a start time later than the first interval',
         breaks='the numbers of observations of the first intervals are used for the covariance of the later, fitted ones',
         demo='''
from kinisi.diffusion import MSDBootstrap
rng = np.random.RandomState(0)
dt = np.arange(1., 9.)
disp = [np.cumsum(rng.randn(6, 40, 3), axis=1)[:, :40 - k] for k in range(8)]
n_o = 6 * 40 / dt
b = MSDBootstrap(dt, disp, n_o, progress=False)
b._model, b._cond_max = False, 1e16
b.generate_covariance_matrix(3)
v, n = b.v[3:], n_o[3:]
want = np.array([[v[min(i, j)] * n[min(i, j)] / n[max(i, j)] for j in range(5)] for i in range(5)])
close(b._npd_covariance_matrix, want, 'covariance')
'''),
    dict(id='C13-negative-gradient-without-intercept', property='C13',
         edits=[('kinisi/diffusion.py', "            if theta[0] < 0:", "            if theta[0] < 0 < theta.size - 1:")],
         needs='a fit without intercept of values whose uncertainty is larger than the values',
         breaks='negative gradients are rejected only when an intercept is fitted too',
         demo='''
from kinisi.diffusion import MSDBootstrap
rng = np.random.RandomState(0)
dt = np.arange(1., 6.)
disp = [rng.standard_cauchy(size=(4, 40 - k, 3)) for k in range(5)]
for icpt in (True, False):
    b = MSDBootstrap(dt, disp, 1. / dt, progress=False)
    b.bootstrap_GLS(1., fit_intercept=icpt, n_samples=200, n_burn=5, n_walkers=8, thin=1, progress=False, random_state=np.random.RandomState(1))
    check(b.gradient.samples.min() >= 0, 'negative gradient, fit_intercept=%s' % icpt)
'''),
    dict(id='C14-jump-dims', property='C14',
         edits=[('kinisi/diffusion.py', "(2e4 * self.dims * self._displacements[0].shape[0])", "(2e4 * self._displacements[0].shape[2] * self._displacements[0].shape[0])")],
         needs='a jump-diffusion analysis along one or two axes',
         breaks='the jump-diffusion coefficient is always divided by three dimensions',
         demo='''
from kinisi.diffusion import MSTDBootstrap
rng = np.random.RandomState(0)
dt = np.arange(1., 9.)
disp = [np.cumsum(rng.randn(6, 40, 3), axis=1)[:, :40 - k] for k in range(8)]
for dim in ('xyz', 'xy', 'z'):
    b = MSTDBootstrap(dt, disp, 6 * 40 / dt, dimension=dim, progress=False)
    b.jump_diffusion(1., n_samples=20, n_burn=5, n_walkers=8, progress=False, random_state=np.random.RandomState(1))
    close(b.D_J.samples, b.gradient.samples / (2e4 * len(dim) * 6), 'D_J for ' + dim)
'''),
    dict(id='C16-doubling-batches', property='C16',
         edits=[('kinisi/diffusion.py', "values += _bootstrap(array, n_samples, 100, random_state)", "values += _bootstrap(array, n_samples, max(100, len(values) // 20), random_state)")],
         needs='a bootstrap that is still not normal after more than two thousand resamples',
         breaks='the batches grow, so the number of resamples is no longer the requested one plus hundreds and overshoots the maximum',
         demo='''
from kinisi.diffusion import Bootstrap
a = np.concatenate([np.zeros(99), [1e3]])
d = Bootstrap.sample_until_normal(a, 2, 2200, 2350, alpha=.05, random_state=np.random.RandomState(0))
check(d.size == 2400, 'resamples %d' % d.size)
'''),
    dict(id='C17-seed-skipped-with-model', property='C17',
         edits=[('kinisi/diffusion.py', "        if random_state is not None:\n            np.random.seed", "        if random_state is not None and not model:\n            np.random.seed")],
         needs='a fit with the model variance option and a random state, after other random numbers were drawn',
         breaks='the random state is ignored when the model variances are used',
         demo='''
from kinisi.diffusion import MSDBootstrap
rng = np.random.RandomState(0)
dt = np.arange(1., 9.)
disp = [np.cumsum(rng.randn(6, 40, 3), axis=1)[:, :40 - k] for k in range(8)]
for model in (False, True):
    g = []
    for k in (1, 2):
        np.random.seed(k)
        b = MSDBootstrap(dt, disp, 6 * 40 / dt, progress=False)
        b.bootstrap_GLS(1., model=model, n_samples=20, n_burn=5, n_walkers=8, progress=False, random_state=np.random.RandomState(1))
        g.append(b.gradient.samples)
    check(np.array_equal(*g), 'two runs with the same random state differ, model=%s' % model)
'''),
    dict(id='C18-one-distribution', property='C18',
         edits=[('kinisi/diffusion.py', "if len(self._distributions) != 0:", "if len(self._distributions) > 1:")],
         needs='a bootstrap over a single interval',
         breaks='the distribution of an analysis with one interval is lost in the dictionary',
         demo='''
from kinisi.diffusion import MSDBootstrap
rng = np.random.RandomState(0)
for n in (3, 1):
    dt = np.arange(1., n + 1)
    disp = [np.cumsum(rng.randn(6, 40, 3), axis=1)[:, :40 - k] for k in range(n)]
    b = MSDBootstrap(dt, disp, 6 * 40 / dt, bootstrap=True, n_resamples=20, max_resamples=20, progress=False)
    c = MSDBootstrap.from_dict(b.to_dict())
    check(len(c._distributions) == n, '%d of %d distributions' % (len(c._distributions), n))
'''),
    dict(id='C19-list-order', property='C19',
         edits=[('kinisi/analyzer.py', "for i in sorted([int(i[4:]) for i in key_list]):", "for i in [int(i[4:]) for i in sorted(key_list)]:")],
         needs='an analysis with more than ten intervals',
         breaks='list items come back in the order of their names as text: 0, 1, 10, 2, ...',
         demo='''
import h5py
from kinisi.analyzer import _dict_to_group, _group_to_dict
w = tempfile.mkdtemp()
try:
    for n in (3, 12):
        x = [np.full(2, float(k)) for k in range(n)]
        f = os.path.join(w, 'a%d.hdf' % n)
        with h5py.File(f, 'w') as h:
            _dict_to_group(h, '/', {'disp_3d': x})
        with h5py.File(f, 'r') as h:
            y = _group_to_dict(h, '/')['disp_3d']
        close(np.array(y), np.array(x), 'list of %d items: %s' % (n, [v[0] for v in y]))
finally:
    shutil.rmtree(w)
'''),
    dict(id='C21-drift-in-place', property='C21',
         edits=[('kinisi/parser.py', "            drift_corrected = disp - np.average(framework_disp, axis=0)[None, :, :]", "            drift_corrected = np.subtract(disp, np.average(framework_disp, axis=0)[None, :, :], out=disp)")],
         needs='displacements that are used for two analyses with different frameworks',
         breaks='the drift is subtracted in the user\'s own array, so the second analysis starts from changed data',
         demo='''
from kinisi.parser import Parser
disp = np.random.default_rng(0).normal(size=(4, 10, 3))
keep = disp.copy()
Parser(disp, [0, 1], [2, 3], 1., 1, progress=False)
check(np.array_equal(disp, keep), 'displacements changed')
'''),
    dict(id='C03-labels-from-limits', property='C03',
         edits=[('kinisi/parser.py', "delta_t = time_intervals * self.time_step * self.step_skip", "delta_t = np.linspace(time_intervals[0], time_intervals[-1], len(time_intervals)) * self.time_step * self.step_skip")],
         needs='a grid that is not equally spaced (fewer intervals than steps that do not divide the length, or logarithmic spacing)',
         breaks='the reported times are spread evenly between the ends instead of being the lengths of the intervals that were evaluated',
         demo='''
from kinisi.parser import Parser
disp = np.cumsum(np.random.default_rng(0).normal(size=(3, 20, 3)), axis=1)
for spacing, n in (('linear', 7), ('logarithmic', 6), ('linear', 100)):
    p = Parser(disp, [0, 1, 2], [], .5, 4, n_steps=n, spacing=spacing, progress=False)
    close(p.delta_t, np.asarray(p.time_intervals) * 2., 'times of the %s grid' % spacing)
'''),
    dict(id='C03-interval-of-zero-steps', property='C03',
         edits=[('kinisi/parser.py', "        if min_dt == 0:", "        if self.min_dt == 0:")],
         needs='a min_dt between zero and one step of the trajectory',
         breaks='a min_dt shorter than one step gives an interval of zero steps',
         demo='''
from kinisi.parser import Parser
disp = np.cumsum(np.random.default_rng(0).normal(size=(3, 20, 3)), axis=1)
for m in (0, .2, .4, 1.):
    p = Parser(disp, [0, 1, 2], [], 1., 1, min_dt=m, progress=False)
    check(min(p.time_intervals) == 1, 'first interval %s for min_dt %s' % (min(p.time_intervals), m))
'''),
    dict(id='C10-distances-thinned', property='C10',
         edits=[('kinisi/diffusion.py', "self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))", "self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten()[::max(1, d_squared.size // 5000)])))")],
         needs='an interval with ten thousand or more displacements',
         breaks='only every n-th displacement of a large trajectory is reported',
         demo='''
from kinisi.diffusion import MSDBootstrap
rng = np.random.default_rng(0)
for n in (40, 4000):
    d = [rng.normal(size=(3, n, 3)), rng.normal(size=(3, n - 1, 3))]
    b = MSDBootstrap(np.array([1., 2.]), d, np.array([3. * n, 1.5 * n]), progress=False)
    for k in range(2):
        close(b.euclidian_displacements[k].samples, np.linalg.norm(d[k], axis=-1).flatten(), 'displacements of %d observations' % n)
'''),
    dict(id='C11-fractional-charge', property='C11',
         edits=[('kinisi/diffusion.py', "ionic_charge = np.ones(self._displacements[0].shape[0]) * ionic_charge", "ionic_charge = np.full(self._displacements[0].shape[0], ionic_charge, dtype=int)")],
         needs='one charge for all ions that is not a whole number (a scaled-charge force field)',
         breaks='a fractional charge is cut to a whole number',
         demo='''
from kinisi.diffusion import MSCDBootstrap
rng = np.random.default_rng(0)
d = [rng.normal(size=(3, 20 - k, 3)) for k in range(4)]
for q in (1, -2, .8, 1.7):
    b = MSCDBootstrap(np.arange(1., 5), d, q, np.array([60., 30., 20., 15.]), progress=False)
    close(b.n[0], (np.sum((q * d[0]).sum(axis=0)**2, axis=-1)).mean(), 'charge %s' % q)
'''),
    dict(id='C13-intercept-of-earlier-fit', property='C13',
         edits=[('kinisi/diffusion.py', "        self._intercept = None\n        if fit_intercept:", "        if fit_intercept:")],
         needs='a fit with an intercept followed by a fit without on the same object',
         breaks='the intercept of the earlier fit survives a later fit without an intercept',
         demo='''
from kinisi.diffusion import MSDBootstrap
rng = np.random.default_rng(0)
x = np.cumsum(rng.normal(size=(8, 40, 3)), axis=1)
d = [np.concatenate([x[:, t - 1:t], x[:, t:] - x[:, :-t]], axis=1) for t in range(1, 11)]
b = MSDBootstrap(np.arange(1., 11), d, 8 * 10 / np.arange(1., 11), progress=False)
kw = dict(n_samples=20, n_walkers=8, n_burn=10, thin=1, progress=False)
b.diffusion(2, **kw)
check(b.intercept is not None, 'no intercept')
b.diffusion(2, fit_intercept=False, **kw)
check(b.intercept is None, 'intercept of the first fit')
'''),
    dict(id='C15-ngp-max-of-all-intervals', property='C15',
         edits=[('kinisi/analyzer.py', "return self.dt[self._diff.ngp.argmax()]", "return self._delta_t[self._diff.ngp.argmax()]")],
         needs='observations sub-sampled with sub_sample_dt above one',
         breaks='the time of the largest non-Gaussian parameter is looked up among all intervals instead of the sub-sampled ones',
         demo='''
from ase import Atoms
from kinisi.analyze import DiffusionAnalyzer
seen = set()
for seed, s in [(k, s) for k in range(12) for s in (1, 3)]:
    rng = np.random.default_rng(seed)
    pos = np.cumsum(rng.normal(size=(30, 4, 3)) * .3, axis=0) + 5
    tr = [Atoms('Li4', positions=p, cell=[20] * 3, pbc=True) for p in pos]
    a = DiffusionAnalyzer.from_ase(tr, {'specie': 'Li', 'time_step': 1., 'step_skip': 1, 'progress': False}, uncertainty_params={'sub_sample_dt': s, 'progress': False})
    d = a._diff
    close(a.ngp_max, d.dt[list(d.ngp).index(max(d.ngp))], 'time of the maximum with sub_sample_dt %d' % s)
    seen.add(int(np.argmax(d.ngp)))
check(len(seen) > 1, 'always the first')
'''),
    dict(id='C20-median-t-zero', property='C20',
         edits=[('kinisi/arrhenius.py', "return self.function(extrapolated_temperature, self.flatchain[:, 0], self.flatchain[:, 1], self.flatchain[:, 2])", "return self.function(extrapolated_temperature, self.flatchain[:, 0], self.flatchain[:, 1], np.median(self.flatchain[:, 2]))")],
         needs='a super-Arrhenius fit whose T0 varies between samples',
         breaks='extrapolation uses the median T0 for every sample, so the correlation of T0 with the other parameters is lost',
         demo='''
from kinisi.arrhenius import SuperArrhenius, super_arrhenius
from uravu.distribution import Distribution
rng = np.random.default_rng(0)
T = np.linspace(400, 1000, 8)
y = [Distribution(v * rng.normal(1, .05, 200)) for v in super_arrhenius(T, .2, 1., 200.)]
s = SuperArrhenius(T, y, bounds=[(.1, .3), (.5, 2.), (100., 300.)])
s.max_likelihood('mini')
s.mcmc(n_samples=20, n_burn=20, progress=False)
f = s.flatchain
close(s.extrapolate(350.), super_arrhenius(350., f[:, 0], f[:, 1], f[:, 2]), 'extrapolated values')
'''),
    dict(id='C12-only-negative-eigenvalues', property='C12',
         edits=[('kinisi/diffusion.py', "new_eigenvalues[np.where(new_eigenvalues < T)] = T", "new_eigenvalues[np.where(new_eigenvalues <= 0)] = T")],
         needs='a covariance matrix that is positive definite but worse conditioned than the requested limit',
         breaks='small positive eigenvalues stay, so the condition number limit does not hold',
         demo='''
from kinisi.diffusion import minimum_eigenvalue_method
rng = np.random.default_rng(0)
q = np.linalg.qr(rng.normal(size=(4, 4)))[0]
for ev in ([1, 2, 3, 4.], [1e-9, 1e-3, 1, 10.], [-1e-3, .1, 1, 5]):
    m = q @ np.diag(ev) @ q.T
    w = np.linalg.eigvalsh(minimum_eigenvalue_method((m + m.T) / 2, 1e3))
    check(w[-1] / w[0] <= 1e3 * 1.001 and w[0] > 0, 'condition number of %s' % ev)
'''),
    dict(id='C09-repeated-boundary-frame', property='C09',
         edits=[('kinisi/analyzer.py', "structures = _flatten_list([x for x in trajectory])\n            u = ASEParser", "structures = _flatten_list([x if i == 0 else x[1:] for i, x in enumerate(trajectory)])\n            u = ASEParser")],
         needs='ASE trajectories given as consecutive parts of one run',
         breaks='the first frame of every later part is dropped as if it repeated the end of the part before',
         demo='''
from ase import Atoms
from kinisi.analyze import DiffusionAnalyzer
rng = np.random.default_rng(0)
pos = np.cumsum(rng.normal(size=(24, 4, 3)) * .3, axis=0) + 5
tr = [Atoms('Li4', positions=p, cell=[20] * 3, pbc=True) for p in pos]
pp = {'specie': 'Li', 'time_step': 1., 'step_skip': 1, 'progress': False}
up = {'progress': False}
a = DiffusionAnalyzer.from_ase(tr, dict(pp), uncertainty_params=up)
b = DiffusionAnalyzer.from_ase([tr[:9], tr[9:17], tr[17:]], dict(pp), dtype='consecutive', uncertainty_params=up)
close(a.dt, b.dt, 'times')
close(a.msd, b.msd, 'mean squared displacements')
'''),
    dict(id='C17-position-as-seed', property='C17',
         edits=[('kinisi/diffusion.py', "np.random.seed(random_state.get_state()[1][1])", "np.random.seed(random_state.get_state()[2])")],
         occ=0,
         needs='two analyses with different seeds',
         breaks='the process-wide generator is seeded with the position in the state of the given generator, which is the same for every fresh generator',
         demo='''
from kinisi.diffusion import MSDBootstrap
rng = np.random.default_rng(0)
x = np.cumsum(rng.normal(size=(8, 40, 3)), axis=1)
d = [np.concatenate([x[:, t - 1:t], x[:, t:] - x[:, :-t]], axis=1) for t in range(1, 11)]
def run(seed):
    b = MSDBootstrap(np.arange(1., 11), d, 8 * 10 / np.arange(1., 11), progress=False)
    b.diffusion(2, n_samples=20, n_walkers=8, n_burn=10, thin=1, progress=False, random_state=np.random.RandomState(seed))
    return b.gradient.samples
check(np.array_equal(run(1), run(1)), 'same seed, different chain')
check(not np.array_equal(run(1), run(2)), 'different seeds, same chain')
'''),
    dict(id='C18-limit-of-condition-lost', property='C18',
         edits=[('kinisi/diffusion.py', "        boot._cond_max = my_dict['cond_max']\n", "        boot._cond_max = my_dict['cond_max'] if boot._model else None\n")],
         needs='a fitted estimator without a modelled variance that is written to a dictionary and read back twice or compared',
         breaks='the limit of the condition number is not restored for estimators fitted without a variance model',
         demo='''
from kinisi.diffusion import Bootstrap, MSDBootstrap
rng = np.random.default_rng(0)
x = np.cumsum(rng.normal(size=(8, 40, 3)), axis=1)
d = [np.concatenate([x[:, t - 1:t], x[:, t:] - x[:, :-t]], axis=1) for t in range(1, 11)]
for model in (True, False):
    b = MSDBootstrap(np.arange(1., 11), d, 8 * 10 / np.arange(1., 11), progress=False)
    b.diffusion(2, n_samples=20, n_walkers=8, n_burn=10, thin=1, progress=False, model=model, cond_max=1e12)
    c = Bootstrap.from_dict(b.to_dict())
    check(c.to_dict()['cond_max'] == b.to_dict()['cond_max'] == 1e12, 'limit lost')
'''),
]
