#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.  A property whose
check module does not exist yet is listed under not_applicable."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (pid, len(title))
    T.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=list(observe)))


U, S, V_, M, E = 'coniii/utils.py', 'coniii/samplers.py', 'coniii/solvers.py', 'coniii/models.py', 'coniii/enumerate.py'
PBT = 'property-based testing (Hypothesis) '

prop('C01', 'Shipped exact equations give the Boltzmann distribution',
     'For every shipped equation file (pairwise in either spin basis for 2 to 9 spins and the '
     'five-spin triplet files) and every parameter vector, the probabilities are those of the Boltzmann distribution '
     'p(s)=exp(sum h_i s_i + sum J_ij s_i s_j [+ triplets])/Z listed in the order of the state enumeration, and the '
     'observables are its means and correlations in parameter order. This holds for parameters of any sign and size '
     'up to the largest that the solvers allow, without overflow or loss of normalisation.',
     ['inputs'], 'all equation files shipped; all parameter vectors with entries up to +-50',
     'the tests evaluate three files at a handful of random parameter vectors; every term of every file matters only for '
     'parameters that weigh it',
     ['coniii/ising_eqn/ising_eqn_2.py', 'coniii/ising_eqn/ising_eqn_9_sym.py', 'coniii/ising_eqn/ising_eqn_5_sym_triplet.py', E],
     [('calc_observables / p of each file', 'coniii/ising_eqn/'), ('fast_logsumexp', E)],
     PBT + 'against a brute-force Boltzmann oracle', 'every file is explored, each at generated parameters incl. extremes and one-hot vectors')

prop('C02', 'Written equation files compute the model they were asked for',
     'For any number of spins, either basis, pairwise, triplet or arbitrary selections of interaction terms, normal or '
     'high precision, and whether written from Python or from the command line, the generated module computes exactly the '
     'Boltzmann probabilities (in state-enumeration order) and the selected correlations of that model. The written '
     'file is importable and depends only on the request.',
     ['inputs', 'programs'], 'system sizes 2 to 8, any subset of interaction terms up to fourth order, both bases, both precisions, any parameters',
     'no test writes an Ising equation file; the generator builds source text whose correctness depends on sizes and term sets',
     [E, 'coniii/write_ising_files.sh'],
     [('write_eqns, write_py, pairwise, triplet, get_nidx', E), ('__main__', E)],
     PBT + 'over generated term sets; the written module is loaded and compared with a brute-force oracle',
     'sizes are bounded by run time; text layout is not compared, only what the module computes')

prop('C03', 'Written Potts equation files compute the Potts model',
     'For any number of spins and of states, the generated Potts module returns the Boltzmann probabilities of the model '
     'with a field for every spin and state and couplings between spins in equal states, in state-enumeration order, and '
     'the occupation frequencies and agreement correlations of that model in parameter order.',
     ['inputs', 'programs'], '3 to 6 spins, 2 to 12 states, any parameters',
     'tests write two three-state files and only check consistency of the file with itself',
     ['coniii/enumerate_potts.py', U], [('SpecificFieldGenericCouplings.write', 'coniii/enumerate_potts.py'), ('xpotts_states', U)],
     PBT + 'over generated sizes; the written module is loaded and compared with a brute-force oracle', 'sizes are bounded by run time')

prop('C04', 'State enumeration lists every state once, in counting order',
     'The enumerations of binary and multi-state configurations yield every configuration exactly once, in increasing order of '
     'the number that it spells, in the requested basis, whether produced as an array or lazily. The conversion of a number to a '
     'base from 2 to 36 returns its digits without leading zeros, for every number the arithmetic can hold.',
     ['inputs'], 'n up to 12 (binary), all (n,k) with at most 2500 states, all bases 2..36 and numbers up to 2^62',
     'tests compare a few sizes; rounding of logarithms and the digits of large bases go wrong only at particular numbers',
     [U], [('bin_states, xbin_states, xpotts_states, base_repr', U)], 'exhaustive small scopes + ' + PBT + 'against integer arithmetic',
     'exhaustive within the stated sizes; generated beyond')

prop('C05', 'Index maps and parameter layouts are exact inverses',
     'The maps between index pairs or subsets and positions in a flattened parameter vector agree with counting the subsets in '
     'order, and invert each other; splitting a concatenated vector by order and reshaping between vector and matrix form lose '
     'or move nothing and leave their arguments unchanged. Impossible indices and sizes are rejected.',
     ['inputs'], 'all pairs for n up to 40, subsets of any size for n up to 9, generated beyond',
     'tests check a few indices; a wrong offset shows only at particular positions', [U],
     [('sub_to_ind, ind_to_sub, unravel_index, split_concat_params, vec2mat, mat2vec, replace_diag, zero_diag, multinomial', U)],
     'exhaustive small scopes + ' + PBT + 'against explicit counting', 'exhaustive within the stated sizes; generated beyond')

prop('C06', 'Changing basis describes the same distribution',
     'Converting parameters between the {0,1} and {-1,1} bases changes the energies of all states by one common constant only, '
     'for pairwise models and interactions of any order; converting correlations gives the correlations of the same distribution '
     'in the other basis. Converting back restores the input.',
     ['inputs'], 'n up to 7, interaction orders 1 to 4, any parameters, any distribution or sample',
     'tests check round trips of one random pairwise model', [U],
     [('convert_params, ising_convert_params, convert_corr', U)], PBT + 'with metamorphic (same energies up to a constant) and round-trip oracles',
     'generated parameters, tolerance 1e-8')

prop('C07', 'Empirical statistics agree with their definitions',
     'Means and correlations of any order, state frequencies, distinct rows and overlaps computed from a data set equal their '
     'definitions for every combination of options: weights per sample, per observable or scalar, excluded missing entries, '
     'pseudo-counts, subtracted means, given or discovered states. The result does not depend on the number type in which spins are stored and the data '
     'are left unchanged.',
     ['inputs', 'configurations'], 'all data sets with entries -1, 0, 1 and all option combinations',
     'tests compare one option set on one random sample', [U],
     [('pair_corr, k_corr, state_probs, unique_rows, calc_overlap', U)], PBT + 'against loop implementations of the definitions',
     'generated data up to 6 columns and 4200 rows')

prop('C08', 'Energies, observables and their derivatives are consistent',
     'For the Ising, field-free Ising, triplet and k-state Potts models the energy of any state is minus the sum of parameters '
     'times the observables of that state, in the documented parameter order; the derivative with respect to a parameter is minus the observable. '
     'The per-spin multipliers and observables add up to the energy change of that spin, and one-flip neighbours are exactly the states '
     'that differ in one spin, with the given state left unchanged.',
     ['inputs'], 'all states and parameters, both bases, any number of Potts states',
     'tests check shapes and a few values', [U],
     [('define_*_helper_functions, calc_de, adj, adj_sym', U)], PBT + 'against a term-by-term reference', 'generated states and parameters for n up to 8')

prop('C09', 'Histogram approximation is exact reweighting of the sample',
     'The predicted observables after a change of parameters equal the average of the observables over the given sample '
     'reweighted by exp(-change of energy), for the Ising, field-free and Potts models: exact if the sample is the whole distribution, '
     'unchanged for no change, and within the range of the observables.',
     ['inputs'], 'all samples and parameter changes', 'tests evaluate it for no change and for one small change of one sample', [U],
     [('mch_approximation', U)], PBT + 'against direct reweighting and the exact distribution', 'generated samples and parameter changes up to the step sizes the solvers use and beyond')

prop('C10', 'Metropolis chains in Python keep the Boltzmann distribution and energies',
     'For any parameters, initial state, number of iterations and order of spins (random or systematic), the Python samplers for Ising and three-state Potts '
     'models leave the Boltzmann distribution invariant, move by accepting with the Metropolis probability, and visit spins in turn when asked to. '
     'After any sequence of calls the reported energies are the energies of the reported states, and histories have one entry per step.',
     ['inputs', 'histories'], 'any parameters, any sequence of sampling calls',
     'tests compare mean correlations of long runs for one parameter set', [S],
     [('Metropolis, Potts3, WolffIsing', S)], PBT + 'with exact invariance (chi-square), acceptance-rate and energy-invariant oracles over call histories',
     'statistical checks have a false-alarm probability below 1e-9 each and use many draws; they cannot see deviations much below a percent')

prop('C11', 'The compiled samplers sample the same distribution as the Python ones',
     'The compiled Ising and Potts samplers leave the Boltzmann distribution of exactly the parameters they were given last invariant, '
     'whatever the memory layout or number type of the array, starting from random states, take the number of steps asked for '
     '(systematic or random order of spins, burn-in) and return a sample of the requested size with valid states; the same seed gives the same sample.',
     ['inputs', 'histories'], 'any parameters, array layouts, seeds and sequences of calls',
     'tests compare mean correlations for one contiguous parameter vector', ['cpp/samplers.cpp', 'cpp/samplers.hpp', 'cpp/py.cpp', S],
     [('Ising, Potts3 (C++)', 'cpp/samplers.cpp'), ('BoostIsing, BoostPotts3', 'cpp/py.cpp')],
     PBT + 'with exact invariance, deterministic zero-parameter and replay oracles', 'statistical checks as in C10; the extension is rebuilt from the current tree')

prop('C12', 'Conditional sampling keeps the fixed spins and the conditional distribution',
     'When some spins are held fixed, every returned state has those spins at the given values, the free spins follow the Boltzmann '
     'distribution conditioned on them, and the reported energies are the energies of the returned states, '
     'for any choice of one or more fixed spins that leaves at least one free, in sequential and parallel mode.',
     ['inputs', 'histories'], 'any subset of fixed spins, any parameters', 'no test samples conditionally', [S],
     [('generate_cond_sample, define_jit_cond_calc_e', S)], PBT + 'with conditional Boltzmann and invariant oracles', 'statistical checks as in C10')

prop('C13', 'Sampling calls are well-formed, reproducible and composable',
     'Any sequence of sampling calls (sequential, parallel, conditional, with updated parameters, with and without burn-in) succeeds and yields '
     'the requested number of states with valid entries, drawn with the latest parameters; two samplers built with equal seeds '
     'give equal results for equal calls, while successive calls and different processes draw states independently; the convenience function returns states of the requested model.',
     ['histories', 'configurations'], 'all call sequences, modes, sizes', 'tests make single calls', [S],
     [('Sampler base, Metropolis, Potts3, sample_ising', S)], 'stateful ' + PBT + 'over call sequences', 'parallel calls are explored with few processes')

prop('C14', 'Parallel tempering samples the coldest replica correctly',
     'Each replica of the parallel tempering sampler keeps the Boltzmann distribution at its own temperature under replica updates and exchanges, '
     'exchanges swap whole configurations and keep energies consistent, temperatures stay ordered, and the samples returned '
     'are those of the target temperature; equal seeds give equal results.',
     ['inputs', 'histories'], 'any parameters, temperature ladders, number of updates', 'the test only runs it', [S],
     [('ParallelTempering', S)], PBT + 'with invariance and permutation oracles', 'replica updates are run through a serial stand-in for the process pool for speed')

prop('C15', 'Exact solver recovers the parameters behind realizable correlations',
     'Given the exact correlations of any model with moderate parameters (pairwise in either basis, or with triplets), the enumerating solver returns parameters that reproduce those correlations to '
     'numerical precision from any starting point from which the optimiser reports success (the default one does for weak interactions), with constraints from data or passed explicitly; '
     'since the solution is unique they are the original parameters. The minimiser does not return parameters beyond the given maximum.',
     ['inputs', 'configurations'], 'any realizable correlations, n up to 6', 'tests solve one system from half the solution', [V_],
     [('Enumerate.solve', V_)], PBT + 'with inverse (recover the generated parameters) oracle', 'parameter sizes bounded so that the default optimiser converges')

prop('C16', 'Sparse exact solver fits the chosen parameters and no others',
     'For any non-empty choice of parameters to fit, the sparse solver reproduces the corresponding correlations exactly with all other parameters fixed at zero, '
     'with constraints from data or passed explicitly, and filling in places every value at its own index. Invalid choices are rejected, and the minimiser does not return a parameter beyond the largest value allowed, of either sign.',
     ['inputs', 'configurations'], 'every subset of parameters', 'the test selects all parameters', [V_],
     [('SparseEnumerate, set_insertion_ix, fill_in', V_)], PBT + 'over subsets with inverse oracle', 'as C15')

prop('C17', 'Pseudo-likelihood solutions maximise the pseudo-likelihood of the data',
     'For Ising data the solution is a stationary point of the average conditional log-likelihood of each spin given the others, '
     'combined symmetrically, and recovers the model when the data are its whole distribution; the general and Potts routines maximise '
     'the total pseudo-likelihood of the data. The objective and gradient that the routines report are the pseudo-likelihood of the data and its derivative, whatever the data.',
     ['inputs'], 'any data with finite optimum', 'tests solve one sample and compare loosely', [V_],
     [('Pseudo', V_)], PBT + 'with an independent pseudo-likelihood gradient and exact-distribution oracles', 'data generated so that optima are finite')

prop('C18', 'Minimum probability flow minimises the flow objective',
     'The objective is the average flow from data states to the states one flip away (or to those outside the data), its logarithmic and plain forms '
     'and their gradients agree with each other and with the definition, and the solution is a stationary point that recovers '
     'the model when the data are its whole distribution.',
     ['inputs', 'configurations'], 'any data, parameters, with or without gradient, all or only non-data neighbours', 'the test compares the two forms on one sample', [V_],
     [('MPF', V_)], PBT + 'against a direct flow computation and finite differences', 'data generated so that optima are finite')

prop('C19', 'Monte Carlo histogram solver converges to the constraints it reports',
     'The Monte Carlo histogram solver returns parameters whose exact correlations match the constraints within its tolerance plus sampling error when it reports convergence, '
     'reports an error history that matches its iterations, bounds the parameter change of each round by the given maximum (up to one inner step), and starts from the given guess. '
     'Constraints may come from data or be passed explicitly; systems of more than two spins.',
     ['inputs', 'configurations'], 'any realizable constraints with moderate parameters', 'no stable test runs it', [V_],
     [('MCH.solve, learn_parameters_mch', V_)], PBT + 'against exact enumeration with statistical tolerance', 'tolerances allow for sampling error with a false-alarm probability below 1e-9')

prop('C20', 'Sparse Monte Carlo histogram solver moves only the chosen parameters',
     'The sparse Monte Carlo histogram solver changes only the chosen parameters, keeps all others at zero, and matches the chosen correlations '
     'within tolerance when it reports convergence.',
     ['inputs', 'configurations'], 'every subset of parameters', 'no stable test runs it', [V_],
     [('SparseMCH', V_)], PBT + 'against exact enumeration with statistical tolerance', 'as C19')

prop('C21', 'Cluster expansion is exact without threshold and consistent with it',
     'Without a threshold the expansion reproduces the correlations and entropy of the data exactly, about either reference; with an infinite threshold it returns the reference model. '
     'The entropy of a cluster is that of the maximum entropy model for its correlations, by formula or numerically, independent of the order '
     'in which the cluster is listed, and the increments of all subsets of a cluster add up to it.',
     ['inputs'], 'any data with all pairs of values present, n up to 5, any threshold', 'no stable test solves it', [V_, 'coniii/mean_field_ising.py'],
     [('ClusterExpansion', V_)], PBT + 'with exactness, inclusion-exclusion and analytic oracles', 'sizes bounded by run time')

prop('C22', 'Mean-field and exact {0,1} helpers agree with their definitions',
     'Flattening of triangular matrices and its inverse, cooccurrence matrices and their fourth-order analogue, exact expectations, partition sums and entropies in the {0,1} basis, '
     'the exact inverse solution, and the homogeneous-system formulas agree with direct enumeration; the mean-field solution satisfies the defining equations and is independent of how the data are permuted.',
     ['inputs'], 'all matrices and data sets of small systems', 'no test covers them', ['coniii/mean_field_ising.py'],
     [('aboveDiagFlat, unflatten, coocExpectations, SmeanField, findJmatrixAnalytic_CoocMat, *Homogeneous', 'coniii/mean_field_ising.py')],
     PBT + 'against enumeration and relabelling symmetry', 'small systems')

prop('C23', 'Regularized mean field returns a mean-field solution in the right basis',
     'The returned parameters are those of the mean-field approximation at the regularization chosen by the search, in the {-1,1} basis: for independent data they reproduce the means, '
     'they respect relabelling of the spins, and the bracketing step returns points around the smallest tested value and rejects minima at the boundary. The regularization used is never negative, and models with equal generators get equal solutions, whether or not the generator is reset between evaluations.',
     ['inputs'], 'any data with finite mean-field solution', 'no stable test solves it', [V_, 'coniii/mean_field_ising.py'],
     [('RegularizedMeanField', V_)], PBT + 'with mean-field family membership oracle', 'few full solves per run because each samples repeatedly')

prop('C24', 'Stand-alone pseudo-likelihood module is self-consistent',
     'In the stand-alone pseudo-likelihood module for {0,1} data, the conditional log-likelihood is that of the conditional Boltzmann distribution, its Jacobian and Hessian are its derivatives, '
     'and the fit is a stationary point of the pseudo-likelihood (for at least two more samples than spins).',
     ['inputs'], 'any data with finite optimum', 'no test covers it', ['coniii/pseudo_inverse_ising.py'],
     [('conditionalLogLikelihood and derivatives', 'coniii/pseudo_inverse_ising.py')], PBT + 'against direct evaluation and finite differences', 'small systems')

prop('C25', 'The Ising front end reports one model in both bases',
     'The Ising front end returns the fields, couplings and correlations of the model it was given, in either basis, for scalar, list or array input; '
     'single-flip energy differences are exact and descent ends in the local minimum reached by steepest single flips.',
     ['inputs'], 'any parameters and start states, n up to 9', 'the test checks one ferromagnet', ['coniii/ising/utils.py'],
     [('Ising', 'coniii/ising/utils.py')], PBT + 'against enumeration', 'generated parameters')

prop('C26', 'Lattice simulation samples the lattice Ising model',
     'The lattice simulation flips each site with the Metropolis probability for nearest-neighbour coupling on a periodic lattice and local field, sweeps all sites when systematic, makes the requested number of attempts otherwise, '
     'is reproducible from its generator, for lattices of any shape including width one, and block coarse-graining takes the majority of each block.',
     ['inputs', 'histories'], 'any lattice shape, coupling and field', 'no test covers it', ['coniii/ising/automaton.py'],
     [('Ising2D, coarse_grain', 'coniii/ising/automaton.py')], PBT + 'with exact acceptance, invariance and majority oracles', 'statistical checks as in C10')

prop('C27', 'Coarse graining merges the most similar columns exactly once',
     'Iterative coarse graining pairs columns greedily by similarity, puts every original column in exactly one group, and each resulting column is the given function applied '
     'to the two columns it merges, level by level, for odd and even sizes and similarities of any sign.',
     ['inputs'], 'any data, similarity and merging function', 'no test covers it', [U], [('coarse_grain_with_func', U)],
     PBT + 'against a naive reference', 'generated data up to 17 columns')

prop('C28', 'Cluster search, bond sampling and vector-spin helpers are exact',
     'The search for connected clusters returns the connected component, pairwise products and bond sampling agree with their definitions, and the energies and gradients '
     'of the vector-spin model agree with each other.',
     ['inputs'], 'any graph, coupling matrix and spin vectors', 'no test covers them', [S],
     [('iter_cluster, pairwise_prod, sample_bonds, Heisenberg helpers', S)], PBT + 'against graph search and finite differences', 'small systems')

prop('C29', 'Log-sum-exp helpers are stable and signed',
     'The log-sum-exp helpers return the logarithm of the magnitude and the sign of the weighted sum of exponentials for any terms, however large, and any coefficients, '
     'in normal and high precision.',
     ['inputs'], 'all terms up to the largest floats and coefficients of any sign', 'tests compare one random vector', [E],
     [('fast_logsumexp, mp_fast_logsumexp', E)], PBT + 'against high-precision arithmetic', 'relative tolerance tied to cancellation')

prop('C30', 'Solvers share one setup and likelihood estimate',
     'Every solver given a size or a data set sets up the model, system size and constraints that belong to it, and the estimated log-likelihood of states, including states with missing entries, '
     'is the log of their frequency in the model sample. Sparse solvers keep only the constraints of the chosen parameters.',
     ['inputs', 'configurations'], 'all solvers, data sets and partially observed states', 'tests only construct solvers', [V_],
     [('Solver.basic_setup, Solver.logp', V_)], PBT + 'against direct counting', 'generated data')

prop('C31', 'Models accept every documented parameter format and stay in step',
     'Models built from a size, vector, list of vectors or matrix describe the same distribution; exact probabilities and observables follow the current parameters after any sequence of updates; '
     'samples drawn through a model use the requested parameters, size and options.',
     ['inputs', 'histories'], 'all formats, sizes and update sequences', 'tests only construct models', [M],
     [('Ising, Triplet, Potts3, Model.generate_sample', M)], 'stateful ' + PBT + 'against enumeration', 'generated parameters')


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for t in T:
            f.write(json.dumps(dict(
                id=t['pid'], title=t['title'], statement=t['statement'],
                quantifier=dict(over=t['over'], text=t['text']), why_tests_cant=t['why'],
                anchors=dict(files=t['files'], mechanism=[dict(name=a, where=b) for a, b in t['mech']],
                             observe_at=t['observe'] or ['return values of the public functions and methods named'],
                             hook_needed=None))) + '\n')
    checks, na = [], []
    for t in T:
        if glob.glob(V + '/checks/%s_*.py' % t['pid'].lower()):
            checks.append(dict(property=t['pid'], quick_cmd='python3 check.py %s --tier quick' % t['pid'],
                               thorough_cmd='python3 check.py %s --tier thorough' % t['pid'],
                               evidence_file='evidence/%s.json' % t['pid'], technique=t['technique'],
                               level='exploration', level_note=t['note'] +
                               '. Exploration only: holds on everything generated, no proof; trusts the oracle in '
                               'vh/oracle.py and the installed numpy, scipy, numba and Hypothesis.'))
        else:
            na.append(dict(property=t['pid'], reason='check not built yet'))
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 -c "import py_compile; py_compile.compile(\'check.py\', cfile=\'/dev/null\', doraise=True)"'
                       if False else '/opt/venv/bin/python -B -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import hypothesis, numpy, scipy, numba"',
                       checks=checks, not_applicable=na,
                       notes='Every check is `python3 check.py <id>`; it re-executes itself under the interpreter of the project, '
                             'imports the package from the current tree of /repo and rebuilds the C++ extension if its sources changed. '
                             'No hooks are used.'), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
