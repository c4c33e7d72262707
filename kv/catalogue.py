"""Per property: level claimed, what is proved and what stays bounded or trusted."""
COMMON_TRUST = [
    'kv/: the verification-condition generator for the Python/numpy subset, its normaliser and its numpy contracts (kv/npmodel.py); z3 as back end for linear and quantified arithmetic',
    'CPython evaluates the source text of /repo/kinisi as the language reference says; no monkey patching',
]
COMMON_ASSUME = [
    'floating-point numbers are treated as real numbers; divisors are non-zero; index arrays are in range; array extents are those stated in the preconditions',
]
NOTE = {
    'C01': 'get_disps is proved, for every number of frames and atoms and every sequence of invertible cells, to return the running sums of the wrapped steps; wrapping range, re-wrapping invariance and independence of atoms are lemmas over that contract.',
    'C02': 'correct_drift is proved to subtract the framework mean for every framework size, empty included; both conclusions (translation invariance, zero framework mean) are lemmas over the contract.',
    'C03': 'get_time_intervals and the Parser constructor are proved against the grid specification for all numbers of steps, all limits and both spacings, with numpy.linspace/geomspace/unique/round as assumed contracts.',
    'C04': 'get_disps over intervals: every window of every atom for all interval lengths, both samplings, order of the output and observation counts; the dropped intervals are proved to be the longest ones.',
    'C05': 'MemoryError is proved equivalent to the byte count exceeding the limit, and the result is proved not to contain the limit or the progress setting.',
    'C06': 'selection functions and parser constructors of all three readers, for all structures, index lists and species.',
    'C07': '_get_molecules for all numbers and sizes of molecules, frames and masses; the circular-mean lemma is proved in Lean (lean/CircularMean.lean) on every run.',
    'C08': 'all three readers, by induction over the frames of an arbitrary trajectory object.',
    'C09': 'all input kinds, declarations and analyses against the parser contracts, for any number of trajectories.',
    'C10': 'MSDBootstrap constructor, for any number and size of intervals, every choice of axes and sub-sampling factor.',
    'C11': 'TMSDBootstrap/MSCDBootstrap constructors as for C10, scalar and per-atom charges.',
    'C12': 'populate_covariance_matrix, minimum_eigenvalue_method and the covariance steps of the fit, for any number of intervals; eigh, cov_nearest and curve_fit are assumed contracts.',
    'C13': 'bayesian_regression: mask, log-density handed to emcee, posterior slicing, independence of earlier fits (arbitrary previous state of the object).',
    'C14': 'the three conversions and the analyses calling them, for any posterior.',
    'C15': 'posterior_predictive, distribution, ngp_max and the sampling tables, for any posterior size.',
    'C16': 'sample_until_normal by loop invariant (batches, termination measure, warning), and every bootstrap constructor.',
    'C17': 'by non-interference: the results are proved to be terms over the inputs and the given random state only, with the process-wide generator as ghost state; no seeding without a random state.',
    'C18': 'to_dict/from_dict of every class over an arbitrary reachable state, including behaviour afterwards.',
    'C19': 'save/load over a ghost file store, for lists of any length and nested items; refusal to overwrite and name handling.',
    'C20': 'both laws for scalars and arrays, all views and bounds, including the class-level defaults.',
    'C21': 'frame conditions: every contract of every other property is re-run with the user data owned by the caller, plus end-to-end groups; a write to owned data is a failed obligation.',
}
TECH = {
    'C07': 'contract-based deductive verification of the real code (own VC generator, z3), lemma in Lean',
    'C21': 'contract-based deductive verification of the real code: frame conditions (own VC generator, z3)',
}
ENTRY = {p: dict(level='proof', technique=TECH.get(p, 'contract-based deductive verification of the real code (own VC generator, z3)'), trusted=COMMON_TRUST, assumptions=COMMON_ASSUME,
                 note=n + ' Trusted: the VC generator and the assumed library contracts listed in the evidence; reals for floats. Concrete replays against an independent oracle supply failing inputs and are the bounded '
                 'stand-in for obligations a changed tree leaves undecided.') for p, n in NOTE.items()}
