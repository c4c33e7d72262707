"""Writes /verif/properties.jsonl from the table below (kept as code so that it is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
PA='kinisi/parser.py'; DI='kinisi/diffusion.py'; AN='kinisi/analyzer.py'; AR='kinisi/arrhenius.py'
ANS=['kinisi/diffusion_analyzer.py','kinisi/jump_diffusion_analyzer.py','kinisi/conductivity_analyzer.py']

p('C01','Displacements follow every atom continuously across periodic boundaries',
 'For every trajectory of fractional coordinates and cells (constant or changing, any cell shape), the displacement of an atom after a step is the running sum of its frame-to-frame Cartesian changes, each reduced by the whole number of lattice vectors of the later frame that brings its fractional components, in that later cell, into [-1/2, 1/2). '
 'With a constant cell, moving any atom of any frame by whole lattice vectors (re-wrapping it) changes no displacement. '
 'The result has one row per atom in input order, one entry per pair of consecutive frames and three axes, and the path of one atom never influences another.',
 ['inputs'],'all numbers of atoms and frames, all coordinates inside or outside the unit cell, all invertible cells per frame',
 'The tests compare a handful of stored trajectories; wrapping errors need a particular atom, axis, frame and cell change to show.',
 [PA],[('minimum-image unwrapping',PA+':Parser.get_disp')],['Parser.get_disp result','parser .dc'])

p('C02','Drift correction removes exactly the mean motion of the framework',
 'With a non-empty framework, the analysed displacement of every atom at every step and axis is its raw displacement minus the unweighted mean of the framework atoms\' raw displacements at that same step and axis; a rigid translation of the whole system, however it varies in time, therefore changes no result and the framework mean becomes zero. '
 'With an empty framework the displacements are used unchanged.',
 ['inputs'],'all displacement arrays and all framework selections (any size, any order, overlapping the mobile atoms or not)',
 'One random example is tested; a weight, axis or index error that appears only for some framework sizes or selections passes.',
 [PA],[('framework mean subtraction',PA+':Parser.correct_drift'),('use of the corrected displacements',PA+':Parser.__init__')],['Parser.correct_drift result','parser .dc'])

p('C03','Time intervals are the requested grid of whole simulation steps',
 'The evaluated time intervals are whole numbers of sampled steps, strictly increasing and without repeats, at most as many as requested, taken from the requested linear or logarithmic spacing (each ideal value rounded down) between the whole steps contained in the minimum (at least one step; default one step) and in the maximum (default the whole trajectory), where a ratio within floating-point rounding of a whole number counts as that number. '
 'When two or more are requested both end points are present, and every reported time is its number of steps times the time between sampled frames. '
 'A minimum that is not shorter than the trajectory, or an unknown spacing, raises ValueError.',
 ['inputs','configurations'],'all positive time steps, step skips, minima, maxima (up to the trajectory length), interval counts and both spacings',
 'Tests fix a few values of the minimum, maximum and count; off-by-one and rounding errors appear only for particular ratios.',
 [PA],[('interval grid',PA+':Parser.get_time_intervals'),('defaults and limits',PA+':Parser.__init__'),('times',PA+':Parser.get_disps')],['parser .time_intervals','parser .delta_t'])

p('C04','Every time window of every selected atom is observed exactly once',
 'For an interval of m steps on a trajectory of N steps, multi-origin sampling returns for each selected atom, in selection order, exactly N-m+1 displacement vectors: the one from the origin to step m, then the differences between step k+m and step k for every k in time order; single-origin sampling returns exactly the one from the origin to step m. '
 'There is one array per interval, in the same order as the reported times (only intervals left with a single independent observation, always the longest ones, are dropped), and the number of independent observations given with it is the number of selected atoms times the longest interval divided by this interval. '
 'An unknown sampling option raises ValueError.',
 ['inputs','configurations'],'all displacement arrays, selections, interval grids within the trajectory, and both sampling modes',
 'Tests check shapes and a few values for default settings; a missed or shifted window for some interval length is invisible to them.',
 [PA],[('window extraction',PA+':Parser.get_disps')],['parser .disp_3d','parser ._n_o','parser .delta_t'])

p('C05','The memory limit refuses exactly the jobs that would exceed it',
 'Parsing raises MemoryError if and only if the bytes needed to hold all multi-origin displacement vectors of the selected atoms over all evaluated intervals, in units of 10^9 bytes, exceed the given memory limit. '
 'When it does not raise, the value of the limit and the progress-bar setting have no influence on the result.',
 ['inputs','configurations'],'all trajectory sizes, selections, interval grids, element sizes and limits',
 'One tiny limit is tested; an estimate that is wrong by a factor, or counts all atoms instead of the selected ones, passes.',
 [PA],[('estimate and guard',PA+':Parser.get_disps')],['MemoryError'])

p('C06','Exactly the requested atoms are analysed and the right ones are framework',
 'Selecting by species (one or several) analyses exactly the atoms of those species, in file order, for ASE, pymatgen and MDAnalysis input alike, and the framework is every other atom unless framework indices are given, in which case exactly those zero-based indices are used (an empty list means none). '
 'Selecting by a flat list of indices analyses exactly those atoms with every other atom as framework, or the given framework list read as one-based numbers. '
 'A selection by species that matches no atom raises ValueError, a missing selection raises TypeError, and atom sub-sampling together with an index selection raises ValueError.',
 ['inputs','configurations'],'all structures, species lists, index lists and framework lists',
 'Tests use one structure per backend with one species; order, complement and override errors need other selections.',
 [PA],[('species selection',PA+':ASEParser.get_indices, PymatgenParser.get_indices, MDAnalysisParser.get_indices'),('index selection',PA+':_get_framework'),('dispatch',PA+':*Parser.__init__')],['parser .indices','parser .drift_indices'])

p('C07','A molecule is represented by its centre of mass under periodic boundaries',
 'When molecules are given as equal-length lists of one-based atom numbers, each is replaced in every frame by one site whose fractional position lies in [0, 1) and is congruent, modulo whole cells, to the (mass-weighted) mean of its atoms unwrapped together, whenever the molecule extends over less than half the cell along each axis; moving any atom by whole lattice vectors changes nothing. '
 'The molecule sites come first in the given order, followed by the framework atoms (all atoms in no molecule, or the given one-based framework list) with unchanged coordinates, and the selections handed on refer to these new positions. '
 'Molecules of unequal length, or a mass list whose length differs from the molecule size, raise ValueError.',
 ['inputs'],'all numbers of molecules, molecule sizes, frames, masses and coordinates',
 'Tests cover one small example; errors for molecules that straddle a boundary along one axis or with unequal masses are not sampled.',
 [PA],[('pseudo centre of mass',PA+':_get_molecules')],['_get_molecules result','parser .coords_check','parser .indices','parser .drift_indices'])

p('C08','Trajectories are read frame by frame without loss or mis-scaling',
 'For ASE, pymatgen and MDAnalysis input alike, the analysis sees every sub-sampled frame (every k-th one from the first) once, in order, with the fractional coordinates and cell of that frame and with the first frame standing twice at the beginning; the atoms are those of the first frame (every j-th one where atom sub-sampling is asked for). '
 'The time between analysed frames is the time step times the step skip times the sub-sampling factor, converted from femtoseconds to picoseconds for pymatgen input, and the reported volume is that of the first frame.',
 ['inputs','configurations'],'all trajectories, sub-sampling factors, time steps and step skips, for each backend',
 'Tests read stored files with factor 1; sub-sampling, changing cells and unit handling together are not exercised.',
 [PA],[('frame reading',PA+':ASEParser.get_structure_coords_latt, PymatgenParser.get_structure_coords_latt, MDAnalysisParser.get_structure_coords_latt'),('time scale and volume',PA+':*Parser.__init__')],['get_structure_coords_latt result','parser .delta_t','parser .volume'])

p('C09','Several trajectories are combined as declared',
 'Analysing a list of trajectories as repeats of the same system gives, for every interval, the displacements of all trajectories stacked along the atom axis in the given order, the intervals and volume of the first, and the sum of the numbers of independent observations; analysing them as consecutive equals analysing their concatenation; a single trajectory equals parsing it directly. '
 'This holds for every kind of input (ASE, pymatgen, Xdatcar objects, Xdatcar files, MDAnalysis, the last without consecutive) and for the diffusion, jump-diffusion and conductivity analyses alike, each feeding exactly these data with the user\'s options to its own estimator. '
 'Any other declaration raises ValueError.',
 ['inputs','configurations'],'all numbers (one or more) of equally sized trajectories, all input kinds, all three analyses',
 'The analyzer tests cannot even be collected here; combining more than two trajectories is not tested at all.',
 [AN]+ANS,[('constructors',AN+':Analyzer._from_pymatgen, _from_ase, _from_Xdatcar, _from_file, _from_universe'),('stacking',AN+':Analyzer._stack_trajectories'),('concatenation',AN+':_flatten_list'),('front ends','kinisi/*_analyzer.py:from_*')],['analyzer ._delta_t','._disp_3d','._n_o','.volume','.dt'])

p('C10','The mean-squared displacement and its uncertainty are the stated estimators',
 'For every used interval the reported mean-squared displacement is the arithmetic mean over all atoms and windows of the squared length of the displacement restricted to the chosen axes, its variance is the unbiased sample variance of those squared lengths divided by the number of independent observations of that interval, and its standard deviation is the square root of that. '
 'The times, Euclidean displacement samples (length along the chosen axes) and the non-Gaussian parameter (3<r^4>/(5<r^2>^2) - 1) are reported for the same intervals in the same order, with interval sub-sampling by k keeping every k-th interval together with its own time, displacements and number of observations.',
 ['inputs','configurations'],'all displacement lists, atom and window counts, axis choices and sub-sampling factors',
 'Tests use one fixed array shape; indexing by interval, axis subset or sub-sampling can go wrong unnoticed.',
 [DI],[('MSD estimator',DI+':MSDBootstrap.__init__'),('shared state',DI+':Bootstrap.__init__'),('non-Gaussian parameter',DI+':Bootstrap.ngp_calculation')],['.n .s .v .dt .ngp .euclidian_displacements'])

p('C11','Collective and charge displacements sum over atoms before squaring',
 'For the jump-diffusion and conductivity analyses the value at each of the first half (rounded down) of the intervals is the mean over windows of the squared length, along the chosen axes, of the sum over all atoms of the displacement, each multiplied by that atom\'s charge for the conductivity (a scalar charge applies to every atom). '
 'Its variance is the unbiased sample variance over windows divided by (number of independent observations / number of atoms), its standard deviation the square root, and times, Euclidean displacements and non-Gaussian parameter are those of the single-atom displacements at the same intervals.',
 ['inputs','configurations'],'all displacement lists, charges of either sign, axis choices and sub-sampling factors',
 'Tests use equal charges on random data of one shape; atom-charge pairing and divisor errors are not covered.',
 [DI],[('MSTD estimator',DI+':MSTDBootstrap.__init__'),('MSCD estimator',DI+':MSCDBootstrap.__init__')],['.n .s .v .dt .ngp .euclidian_displacements'])

p('C12','The covariance matrix follows the random-walk model and stays well conditioned',
 'The covariance estimated between intervals i <= j is the variance at i times the ratio of the number of independent observations at i to that at j; the matrix is symmetric with the variances (or, when the model option is chosen, the fitted quadratic-in-time model variances) on its diagonal and covers exactly the fitted intervals. '
 'Reconditioning leaves eigenvalues at or above the largest eigenvalue divided by the condition limit unchanged and raises all smaller ones to that value, keeping the eigenvectors, and the matrix used by the fit is positive semi-definite.',
 ['inputs','configurations'],'all variance and observation-count vectors and all condition limits',
 'Tests populate one or two matrices and recondition one; orderings of eigenvalues and ratios are not explored.',
 [DI],[('population',DI+':_populate_covariance_matrix'),('reconditioning',DI+':minimum_eigenvalue_method'),('assembly',DI+':Bootstrap.generate_covariance_matrix')],['.covariance_matrix','.v'])

p('C13','The fit samples the stated likelihood over the stated intervals only',
 'The line is fitted to exactly the intervals at or after the given start time, using their mean values and covariance; the sampled log-probability is the multivariate normal log-density of those values about gradient x time + intercept (intercept zero when it is not fitted) and minus infinity for a negative gradient, so no gradient sample is negative. '
 'The posterior keeps, after discarding the burn-in, every thin-th step of every walker, the first parameter as gradient and the second as intercept, and the intercept is None exactly when it was not fitted. '
 'A fit depends only on the data and its own arguments, never on earlier fits on the same object.',
 ['inputs','histories','configurations'],'all interval grids, start times within them, data, options and sequences of earlier fits',
 'Tests only check that samples exist and have a plausible size; which intervals and which likelihood are used is not observed.',
 [DI],[('fit',DI+':Bootstrap.bootstrap_GLS'),('line',DI+':_straight_line'),('covariance',DI+':Bootstrap.generate_covariance_matrix')],['.gradient .intercept .flatchain .covariance_matrix'])

p('C14','Diffusion coefficients and conductivity are in the documented units',
 'Sample by sample, the self-diffusion coefficient in cm^2/s is the gradient (A^2/ps) divided by 2x10^4 times the number of chosen axes, and the jump-diffusion coefficient is that divided by the number of mobile atoms. '
 'The conductivity in mS/cm is the same gradient-based coefficient times 1000 e^2/(volume in cm^3 x k_B T), with the volume of the analysed trajectory (A^3) and the given temperature. '
 'Each analysis passes its start time and options to the fit and leaves the other two results untouched.',
 ['inputs','configurations'],'all gradients, numbers of axes, atoms, volumes and temperatures',
 'Tests check existence and types, not the scale; a unit slip in one route is invisible.',
 [DI]+ANS,[('conversions',DI+':Bootstrap.diffusion, jump_diffusion, conductivity'),('front ends','kinisi/*_analyzer.py:diffusion, jump_diffusion, conductivity')],['.D .D_J .sigma'])

p('C15','Predictions and derived views are computed from the posterior as described',
 'Posterior predictive samples come as (number of posterior samples x number of predictive samples) rows over exactly the fitted intervals, each block drawn from a multivariate normal whose mean is one posterior sample\'s line (gradient and intercept of the same draw; no intercept when none was fitted) and whose covariance is the fitted one, using all posterior samples by default. '
 'The line distribution of an analysis is gradient x time + intercept for every interval and every posterior sample in matching order, the time of the maximal non-Gaussian parameter is the time at which it is largest, and the sampling table pairs each coefficient sample with the intercept of the same draw.',
 ['inputs','configurations'],'all posteriors with and without intercept, all sample counts and interval grids',
 'Tests check output shapes only; pairing of draws, intervals and covariance is unobserved.',
 [DI,AN]+ANS,[('posterior predictive',DI+':Bootstrap.posterior_predictive'),('views',AN+':Analyzer.distribution, ngp_max, posterior_predictive'),('sampling table','kinisi/*_analyzer.py:flatchain')],['posterior_predictive result','.distribution .ngp_max .flatchain'])

p('C16','Bootstrap resampling draws the stated samples and always terminates',
 'With bootstrap enabled, each interval\'s distribution consists of means of samples drawn with replacement from exactly that interval\'s observations, each of size the whole part of its number of independent observations (divided by the number of atoms for the collective estimators). '
 'Resampling starts with the requested number, continues in batches of one hundred while the normality test fails and the maximum is not reached, so it always ends, and warns exactly when the number drawn reaches the maximum. '
 'The bootstrap mean, variance and standard deviation are those (unbiased) of these samples, and enabling the bootstrap does not change the other estimates.',
 ['inputs','configurations'],'all observation arrays, sample sizes, resample counts, thresholds and maxima',
 'Tests run one easy case that stops at once; the continuation, the limit and the sample sizes are not checked.',
 [DI],[('resampling loop',DI+':Bootstrap.sample_until_normal'),('resample',DI+':_bootstrap'),('use',DI+':MSDBootstrap.__init__, MSTDBootstrap.__init__, MSCDBootstrap.__init__')],['._distributions','._n_bootstrap ._v_bootstrap ._s_bootstrap'])

p('C17','A given random state makes the whole analysis reproducible',
 'With the same inputs and identically seeded random states, bootstrap distributions and fitted posteriors are identical from run to run, whatever other random numbers the process has drawn before, and different seeds give different draws. '
 'Without a random state the process-wide generator is never reseeded.',
 ['histories','configurations'],'all prior states of the process-wide generator, all seeds and options',
 'A test compares at most one repeated run in a fresh process; dependence on hidden generator state cannot be excluded by it.',
 [DI],[('seeding',DI+':Bootstrap.bootstrap_GLS'),('resampling',DI+':_bootstrap, Bootstrap.sample_until_normal')],['.gradient .intercept ._distributions'])

p('C18','Dictionary round trips reproduce the object completely',
 'Rebuilding an estimator or analysis from its own dictionary, at any point of its life (before or after fitting, with or without intercept, bootstrap or interval sub-sampling, for any estimator class), gives an object whose times, displacements, means, uncertainties, observation counts, distributions, covariance and fit results equal the original\'s. '
 'The rebuilt object then behaves the same: further fits, predictions and another dictionary give the same results.',
 ['histories','configurations'],'all estimator classes, options and life-cycle points',
 'Tests compare a few attributes for one class after one call; forgotten fields or re-applied sub-sampling are not seen.',
 [DI,AN]+ANS,[('estimators',DI+':Bootstrap.to_dict, Bootstrap.from_dict'),('analyses',AN+':Analyzer.to_dict, from_dict')],['to_dict/from_dict results'])

p('C19','Saving and loading through a file loses nothing and overwrites nothing',
 'An analysis saved to a file and loaded again equals the original in every array, non-empty list (in order, whatever its length), nested item, text and empty value, and can itself be saved and loaded again. '
 'Saving under a name that already exists raises ValueError and leaves the existing file as it was; only a file extension is replaced by .hdf, never any other part of the path.',
 ['inputs','histories'],'all analyses, all list lengths and nestings, all file names and prior file-system states',
 'The save/load tests cannot be collected here, and would only try one object and one name.',
 [AN],[('file format',AN+':_dict_to_group, _group_to_dict'),('entry points',AN+':Analyzer.save, Analyzer.load')],['file contents','loaded object'])

p('C20','Activation energies use the Arrhenius and VTF laws with the documented roles',
 'The standard relation predicts prefactor x exp(-E/(k_B T)) and the super-Arrhenius relation prefactor x exp(-E/(k_B (T - T0))), with energies in eV and temperatures in kelvin, for scalars and arrays alike. '
 'The activation energy, prefactor and T0 distributions are the first, second and third parameters of the same posterior draw; the distribution and extrapolation evaluate the law at the given temperatures for every draw. '
 'User bounds are honoured, the open T0 bound defaults to that object\'s own first temperature, and objects never influence one another.',
 ['inputs','histories'],'all temperatures, parameters, posteriors and sequences of constructed objects',
 'Tests evaluate one point each; parameter order and sharing between objects are not observed.',
 [AR],[('laws',AR+':arrhenius, super_arrhenius'),('classes',AR+':StandardArrhenius, SuperArrhenius')],['.activation_energy .preexponential_factor .T0 .distribution .extrapolate'])

p('C21','Analyses never modify the data they are given',
 'Parsing, estimating, fitting, converting, combining and exporting leave the user\'s coordinates, displacement and interval arrays, index, mass, charge and option collections, and trajectory objects unchanged. '
 'Therefore two analyses built from the same data, in any order and any interleaving, give the same results as each would alone.',
 ['inputs','histories'],'all inputs to every public entry point and all sequences of calls',
 'Tests construct fresh data for each call and never look at it afterwards.',
 [PA,DI,AN,AR]+ANS,[('whole package','kinisi/*.py')],['arguments after the call'])

with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,sch); assert len(d['title'])<=80
