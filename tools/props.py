"""The properties, their anchors and how they are decided (source of
properties.jsonl, MANIFEST.json and section 3 of DESIGN.md: tools/gen.py)."""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, note,
      design, technique):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mech=mech,
                      observe=observe, note=note, design=design,
                      technique=technique))


SOL = 'qopt/solver_algorithms.py'
CF = 'qopt/cost_functions.py'
TF = 'qopt/transfer_function.py'
AF = 'qopt/amplitude_functions.py'
MX = 'qopt/matrix.py'
OPT = 'qopt/optimize.py'
OD = 'qopt/optimization_data.py'
DC = 'qopt/data_container.py'
SIM = 'qopt/simulator.py'
NO = 'qopt/noise.py'
PAR = 'qopt/parallel.py'
AN = 'qopt/analyser.py'
ES = 'qopt/energy_spectrum.py'
PL = 'qopt/plotting.py'
UT = 'qopt/util.py'

P('C01', 'Coherent evolution is the ordered product of exact slot exponentials',
  'For every drift (none, constant, one per time slot, given as list or '
  'callable-free operators), every number of control operators, every pulse '
  'and every time grid, the propagator of a time slot is the matrix '
  'exponential of -i times the Hamiltonian of that slot times its duration. '
  'The forward propagators are the time ordered products applied to the '
  'initial state (starting with the initial state itself), the reversed ones '
  'are the products from the end, and neither depends on the exact '
  'exponential method, on reading order or on whether derivatives are '
  'requested.',
  ['programs', 'configurations', 'inputs'],
  'every control word over a finite amplitude alphabet up to the depth, for '
  'every configuration of dimension, controls, drift, initial state, '
  'exponential method and time grid',
  'The tests integrate two or three fixed pulses of one qubit; ordering, '
  'indexing of drift and controls and uneven slots need every word.',
  [SOL, MX], [('slot generators and exponentials', SOL + ': SchroedingerSolver._compute_dyn_gen, _compute_propagation'),
              ('accumulated products', SOL + ': Solver._compute_forward_propagation, _compute_reversed_propagation')],
  ['propagators', 'forward_propagators', 'reversed_propagators'],
  'Dimensions 2-4, up to 3 controls, words up to depth 3 (4 thorough), some of 17 slots; reference exponential is our own series.',
  'The solver is treated as a transition system: a state is the unitary after '
  'a prefix of the control word, a transition one slot. Every word over the '
  'alphabet up to the depth is driven through the real solver for every '
  'configuration; every propagator on the way is compared with a reference '
  'exponential (own scaling and squaring) and with the model state.',
  'explicit enumeration of control words on the real solver against an explicit-state model')

P('C02', 'Solver results always belong to the pulse and times set last',
  'Whatever sequence of pulses, invalid pulses, repeated or equal pulses, '
  'in-place modified arrays and new time grids a solver went through, and '
  'whatever was read in between, every propagator, forward and reversed '
  'propagator, derivative and noise propagator read afterwards is the one of '
  'the pulse and times that were validly set last. A refused pulse (wrong '
  'shape) changes nothing.',
  ['histories'],
  'every sequence of pulse settings, time settings and reads up to the depth, for every kind of solver',
  'The tests set one pulse and read; stale caches only show up in particular sequences of sets and reads.',
  [SOL, TF], [('cache invalidation', SOL + ': Solver.set_optimization_parameters, reset_cached_propagators, set_times and overrides'),
              ('lazy evaluation', SOL + ': properties of Solver and SchroedingerSMonteCarlo')],
  ['propagators', 'forward_propagators', 'reversed_propagators', 'frechet_deriv_propagators', 'propagators_noise'],
  'Histories of length 4-5 over 11 operations, 12 solver kinds; histories of length 3 for three levels, three controls and 17 slots.',
  'Alphabet of set / overwrite / refused set / set times / read operations; '
  'every sequence up to the depth is executed on a fresh real solver and each '
  'read is compared with the model (current pulse, current times).',
  'exhaustive enumeration of operation histories on the real solvers against a two-variable model')

P('C03', 'An interrupted or failing evaluation never leaves wrong results behind',
  'If an evaluation is interrupted at any point, or a user supplied callback '
  '(amplitude, transfer, noise or dissipation function) fails, then repeating '
  'the operation on the same solver gives exactly the results of an '
  'undisturbed solver. No partially filled result is ever returned as if it '
  'were complete.',
  ['crash_points', 'fault_sequences'],
  'an interrupt at every executed line of the package x solver kind x prior cache state x operation; every call of every callback failing',
  'No test interrupts an evaluation; there are hundreds of crash points per operation.',
  [SOL], [('publication of cached results', SOL + ': _compute_* methods assigning the caches'),
          ('pulse bookkeeping', SOL + ': set_optimization_parameters')],
  ['all readable solver quantities after recovery'],
  'Crash points are line boundaries of package code; recovery = repeating the operation or setting a pulse.',
  'sys.settrace raises an asynchronous interrupt at line k of the operation, '
  'for every k, for every solver kind and prior state; then the operation is '
  'repeated and all quantities are compared with an undisturbed solver.',
  'exhaustive crash-point enumeration on the real code (fault injector at every executed line)')

P('C04', 'Open system evolution solves the Lindblad equation for every specification',
  'For every way of specifying dissipation (Lindblad operators, superoperators, '
  'either with pulse dependent prefactors, or a function), the propagator of '
  'each slot is the exponential of the Lindblad generator of that slot. All '
  'ways of specifying the same dissipation agree, the evolution preserves '
  'trace, hermiticity and positivity, without dissipation it equals the '
  'coherent evolution, and a specification is never altered by evaluations.',
  ['programs', 'configurations', 'inputs'],
  'every control word up to the depth x dimension x controls x dissipators x 10 specifications (with vanishing and negative rates) x exponential method',
  'The tests compare a handful of decays of one qubit with analytic formulas.',
  [SOL, MX], [('dissipation superoperator', SOL + ': LindbladSolver._calc_diss_sup_op, _parse_dissipative_super_operator'),
              ('generator', SOL + ': LindbladSolver._compute_dyn_gen')],
  ['propagators', 'forward_propagators'],
  'Dimensions 2-3 (4 thorough), up to four dissipators; positivity for non-negative rates only.',
  'As C01 with the master equation as model: generator assembled element by '
  'element from the defining equation, exponential by own series; all words, '
  'all specifications; trace, hermiticity and positivity on every state.',
  'explicit enumeration of control words x specifications against an explicit-state model')

P('C05', 'Derivatives of the propagators are exact for every control and slot',
  'For closed, noisy and open systems, the derivative of each slot propagator '
  'with respect to each control amplitude (first index the control, second '
  'the slot) is the exact Frechet derivative in the direction of that '
  'control, including pulse dependent dissipation and degenerate generators. '
  'It does not depend on the exact method, on eager or lazy evaluation, or on '
  'the order of reads.',
  ['programs', 'configurations', 'inputs'],
  'every control word up to the depth x dimension x controls x drift x method x eager/lazy',
  'Tests compare a few gradients numerically at random points; degenerate and non-normal generators and index mix-ups need all words.',
  [SOL, MX], [('derivative directions', SOL + ': _compute_derivative_directions, _calc_diss_sup_op_deriv'),
              ('Frechet derivatives', MX + ': DenseOperator.dexp, _dexp_diagonalization'),
              ('grape approximation', SOL + ': _compute_propagation_derivatives')],
  ['frechet_deriv_propagators', 'frechet_deriv_propagators_noise'],
  '"approx" within 1e-4, "grape" against its first order formula; some pulses of 17 slots.',
  'Every word is driven through the solver and every [control][slot] '
  'derivative is compared with the off-diagonal block of the exponential of '
  'the doubled generator.',
  'explicit enumeration of control words on the real solvers against block-matrix exponentials')

P('C06', 'Monte Carlo noise: every trace is propagated exactly, in any order',
  'For each noise trace, the propagators are those of the Hamiltonian with '
  'the noise operators added with that trace\'s amplitudes in that slot '
  '(including pulse dependent noise amplitudes), stored under the index of '
  'the trace. The results do not depend on the number of processes, the order '
  'in which workers finish, or on which quantity is read first, and a failing '
  'worker never leads to wrong results.',
  ['schedules', 'inputs', 'fault_sequences'],
  'all noise words over a finite alphabet, all completion orders of the worker pool, every failing worker',
  'The tests average over random traces with fixed process count; mixed up traces average to the same result.',
  [SOL, NO], [('noisy generators', SOL + ': SchroedingerSMonteCarlo._compute_dyn_gen_noise'),
              ('pool', SOL + ': SchroedingerSMonteCarlo._compute_propagation'),
              ('control noise', SOL + ': SchroedingerSMCControlNoise')],
  ['propagators_noise', 'forward_propagators_noise', 'reversed_propagators_noise', 'frechet_deriv_propagators_noise'],
  'Up to 5 traces (24 and 40 in single runs), all orders of up to 4 tasks; one real pool configuration.',
  'Noise words are enumerated; the pool is replaced by a controlled one that '
  'pickles tasks and completes them in every order, or fails one of them.',
  'enumeration of noise words and of all pool schedules (controlled scheduler) on the real solver')

P('C07', 'Cost functions return the infidelity they are named after',
  'For every propagation, target and ordered choice of computational states, '
  'the operation, state, subspace, superoperator, leakage and Monte Carlo '
  'infidelities equal their defining formulas, and the operator norm cost the '
  'real and imaginary parts of the difference to the target. Infidelities of '
  'reached targets are zero irrespective of a global phase, lie between zero '
  'and one for physical evolutions, and the unitarisation, rescaling and '
  'averaging options act as documented.',
  ['inputs', 'configurations'],
  'all control words x cost function x every ordered choice of computational states x unitarisation / rescaling x target',
  'Tests use the full space or one subspace with one target.',
  [CF, MX], [('fidelities', CF + ': entanglement_fidelity, entanglement_fidelity_super_operator, state_fidelity*, angle_axis_representation'),
             ('cost functions', CF + ': costs of every CostFunction'),
             ('projection', MX + ': truncate_to_subspace, closest_unitary')],
  ['CostFunction.costs'],
  'Dimensions 2-4 (one of 8), unsorted subspaces.',
  'Each state reached by a word is read by every cost function and compared '
  'with a formula written as explicit sums, over all ordered subspaces.',
  'explicit enumeration of reachable propagations x cost configurations against explicit-sum formulas')

P('C08', 'The gradient is the derivative of the cost through the whole chain',
  'For every cost function with a gradient, and every combination of solver, '
  'exponential method, amplitude function, transfer function and subspace '
  'options, the gradient returned by the cost function and by the simulator '
  'is the derivative of the cost with respect to each entry of the '
  'optimisation parameters, with axes (time, control). It is correct on '
  'boundaries of the pulse as well as inside.',
  ['inputs', 'configurations'],
  'cost x solver x transfer function x amplitude function x method x subspace, all control words; every partial derivative',
  'Existing tests check about ten of the several hundred combinations at random points.',
  [CF, SOL, TF, AF, SIM], [('cost gradients', CF + ': grad of every CostFunction'),
                           ('chain rules', TF + ': gradient_chain_rule; ' + AF + ': derivative_by_chain_rule'),
                           ('assembly', SIM + ': wrapped_jac_function')],
  ['CostFunction.grad', 'Simulator.wrapped_jac_function'],
  'Central differences, tolerance 2e-6 relative to the gradient; some pulses of 17 slots.',
  'All chains are built from the real parts; for each control word every '
  'partial derivative is compared with a central difference of the cost.',
  'explicit enumeration of chains and control words on the real code against differences of the cost')

P('C09', 'Transfer functions: durations and values of the transferred pulse',
  'For every transfer function, oversampling factor, boundary padding and time '
  'grid, the durations of the transferred slots are the input durations '
  'divided evenly, framed by padding of the documented length, so that the '
  'total inner time is conserved. The transferred amplitudes are the '
  'documented linear map of the pulse plus offset (repetition, convolution, '
  'exponential saturation, given matrix), and ill-shaped input is refused '
  'with an error.',
  ['inputs', 'configurations'],
  'every elementary transfer function of the bounded family x all unit pulses (which determine the map) x words',
  'The tests look at a few plots worth of values for one padding setting.',
  [TF], [('time axis', TF + ': TransferFunction.set_times, num_padding_elements'),
         ('maps', TF + ': __call__ and _calculate_transfer_matrix of every class')],
  ['x_times', 'num_x', '__call__', 'transfer_matrix'],
  'Up to 4 (5) slots, 3 controls, oversampling up to 5, some of 17-40 slots and times of 1e-9 to 1e7; Gaussian MTF is marked broken upstream and excluded.',
  'Unit pulses and the zero pulse determine the affine map completely; all '
  'are enumerated for every member of the family and compared with an '
  'independent model of the map.',
  'exhaustive enumeration of basis pulses and configurations on the real code against explicit models')

P('C10', 'The transfer function chain rule is the exact adjoint of the map',
  'For every transfer function and composition, pulling back derivatives with '
  'respect to the transferred amplitudes yields exactly the transposed '
  'Jacobian of the map applied to them, for every slot, control and number of '
  'cost functions. The derivatives passed in are not altered and padding '
  'elements contribute as they depend on the pulse.',
  ['inputs', 'configurations'],
  'every transfer function x every unit pulse x every unit derivative',
  'Tests compare one gradient of a few classes.',
  [TF], [('chain rules', TF + ': gradient_chain_rule of every class')],
  ['gradient_chain_rule'],
  'Affine maps, so unit vectors decide the property for the configuration.',
  'The Jacobian is built column by column from the real map, the adjoint from '
  'the real chain rule on every unit derivative; both must agree.',
  'exhaustive enumeration of basis pulses and basis derivatives on the real code')

P('C11', 'Composed transfer functions equal the composition of their parts',
  'Concatenation applies the first and then the second transfer function to '
  'values and times, parallel composition applies each part to its own '
  'controls, in any nesting, with all offsets. Changing the times of a '
  'composition at any moment gives the same as composing anew, and parts '
  'whose time axes do not fit are refused.',
  ['programs', 'histories', 'configurations'],
  'all compositions of the elementary functions up to the nesting depth x all sequences of set_times and evaluations',
  'Tests hold one concatenation and one parallel composition.',
  [TF], [('composition', TF + ': ConcatenateTF, ParallelTF, ConcatenateMTF, ParallelMTF')],
  ['__call__', 'x_times', 'gradient_chain_rule', 'transfer_matrix'],
  'Nesting depth two, histories of up to four time settings, also in units of 1e-9 and 1e7 and for times that are nearly equal.',
  'All trees up to the nesting depth are built; the composed object is '
  'compared with the model that evaluates the parts; histories of set_times '
  'are enumerated.',
  'exhaustive enumeration of composition trees and set_times histories against part-wise evaluation')

P('C12', 'Amplitude functions and their derivatives agree',
  'Amplitude functions apply the given function to the transferred values (per '
  'entry, or per time step for custom ones), and the derivative chain rule '
  'contracts incoming derivatives with the exact derivative for every slot, '
  'control, amplitude and cost function, whatever the numeric types of the '
  'values.',
  ['inputs', 'configurations'],
  'all words over values and all unit derivatives, different numbers of amplitudes and controls',
  'The tests have one custom function with as many amplitudes as controls.',
  [AF], [('amplitude functions', AF + ': __call__ and derivative_by_chain_rule of every class')],
  ['__call__', 'derivative_by_chain_rule'],
  'Polynomial and trigonometric functions; words over a finite alphabet.',
  'All words and unit derivatives are pushed through; compared with the '
  'contraction written as loops.',
  'exhaustive enumeration of words and basis derivatives on the real code')

P('C13', 'Operator arithmetic is matrix arithmetic and never aliases',
  'Every sequence of additions, subtractions, products (operator, scalar, '
  'array; in place or not; from both sides), daggers, conjugates, transposes, '
  'Kronecker products, copies, item reads and writes on dense operators gives '
  'what plain matrices give. An out-of-place operation never changes its '
  'operands, an in-place one changes only its left operand.',
  ['programs'],
  'all programs of operations up to the depth over two operators',
  'Tests hold one example per operation; aliasing needs sequences.',
  [MX], [('operators', MX + ': OperatorMatrix and DenseOperator arithmetic')],
  ['DenseOperator.data', 'results of every operation'],
  'Programs up to length 3 over about 30 instructions; single operations up to 17 dimensions, with arrays entry by entry and with real or imaginary parts down to 1e-14.',
  'Every program is executed on real operators and in parallel on plain '
  'nested matrices; after each instruction all live operators are compared.',
  'exhaustive enumeration of operation programs against a plain matrix model')

P('C14', 'Matrix exponentials and their derivatives are exact',
  'The exponential of an operator times a factor and its derivative in any '
  'direction are exact for every exact method and for hermitian, '
  'anti-hermitian, degenerate, non-normal, defective and zero operators. The '
  'exponential returned together with a derivative is the same exponential, '
  'and unknown methods are refused.',
  ['inputs', 'configurations'],
  'all small integer and structured matrices of the family x factors x directions x methods',
  'Tests use one Pauli matrix.',
  [MX], [('exponentials', MX + ': DenseOperator.exp, _exp_diagonalize'),
         ('derivatives', MX + ': DenseOperator.dexp, _dexp_diagonalization')],
  ['exp', 'dexp', 'prop', 'spectral_decomposition'],
  'Spectral method only for diagonalisable matrices, as documented; directions from 1e-12 to 1e6.',
  'All matrices over a small entry alphabet (all 2x2, structured larger), all '
  'unit directions, every method; compared with a series / block exponential.',
  'exhaustive enumeration of a finite matrix family on the real code against a series')

P('C15', 'Superoperator, vectorisation and projection helpers keep their conventions',
  'Vectorising and un-vectorising are inverse and column-wise, the '
  'superoperator of a unitary acts on vectorised density matrices as '
  'conjugation does on matrices, partial traces sum over the right '
  'subsystems, truncation picks the chosen states in the chosen order, the '
  'closest unitary is the polar factor, and derivative versions are their '
  'linearisation.',
  ['inputs', 'configurations'],
  'every basis operator (the maps are linear), every choice and order of subsystems or states, dimensions up to the bound',
  'Tests have one density matrix per helper; transposed conventions need basis operators.',
  [MX, UT], [('helpers', MX + ': convert_unitary_to_super_operator, ket_vectorize_density_matrix, convert_ket_vectorized_density_matrix_to_square, closest_unitary, derivative_truncate_to_subspace, ptrace, truncate_to_subspace')],
  ['return values'],
  'Dimensions up to 6, all subsets of up to three subsystems.',
  'Linear maps are decided on every basis element; choices of subsystems are '
  'all enumerated.',
  'exhaustive enumeration of basis operators and index choices on the real code')

P('C16', 'Optimisation results and records describe what really happened',
  'For every optimiser class and weighting, the recorded costs, gradients, '
  'parameters and counts are exactly the unweighted costs at the pulses that '
  'were requested, in order; weights scale what the numerical algorithm sees '
  'and nothing else. The result contains the initial and final parameters, '
  'their cost and status, repeated runs of one optimiser are independent of '
  'each other, and earlier results are never altered by later runs.',
  ['histories', 'schedules'],
  'all scripts of cost and gradient requests up to the depth by a controlled numerical algorithm x weights x recording; all sequences of runs; real algorithms monitored',
  'Tests run one optimisation per class and look at the final cost.',
  [OPT, OD, SIM], [('wrappers', OPT + ': Optimizer.cost_func_wrapper, cost_jacobian_wrapper'),
                   ('results', OPT + ': write_state_to_result, run_optimization, prepare_optimization')],
  ['OptimizationResult', 'OptimizationSummary', 'values handed to the numerical optimiser'],
  'Scripts up to length 3 (4), some of 24 evaluations, 12 cost functions or 17 slots, one optimiser run with several shapes; scipy replaced by a scripted driver for exhaustiveness, real scipy runs monitored.',
  'The numerical optimiser is a nondeterministic environment: every sequence '
  'of its requests is enumerated; an independent problem object logs and '
  'computes what the records must contain.',
  'exhaustive enumeration of environment scripts against a bookkeeping model; monitored real runs')

P('C17', 'Runs that are cut off still return the best pulse found',
  'When the wall time passes at any evaluation, the run ends with a result '
  'that holds the best pulse seen (smallest norm of the costs), its cost and '
  'the complete record of the evaluations so far. When a cost function fails '
  'or the run is interrupted at any evaluation, the error reaches the caller, '
  'and the same optimiser then runs again as if nothing had happened.',
  ['fault_sequences', 'crash_points', 'schedules'],
  'every position of every request script at which the time passes, and every evaluation failing or interrupted',
  'The test of the wall time lets one fixed run time out.',
  [OPT], [('wall time', OPT + ': Optimizer.cost_func_wrapper, WallTimeExceeded'),
          ('recovery', OPT + ': write_state_to_result, prepare_optimization')],
  ['OptimizationResult', 'second run'],
  'Controlled clock; wall time is examined before cost evaluations only.',
  'Script x position of the clock jump are enumerated completely with a '
  'controlled clock; faults are injected into each evaluation of real runs.',
  'exhaustive fault-position enumeration with a controlled clock and scripted environment')

P('C18', 'Parallel optimisation equals sequential optimisation',
  'Optimising several initial pulses in parallel returns, in the order of the '
  'initial pulses and for any number of processes and completion order, the '
  'results of optimising them one after another. A failing worker makes the '
  'call fail instead of returning incomplete data.',
  ['schedules', 'fault_sequences'],
  'all completion orders of all workers, every failing worker, numbers of processes',
  'Tests run one parallel optimisation and only look that it finishes.',
  [PAR], [('pool', PAR + ': run_optimization_parallel, run_optimization')],
  ['DataContainer returned'],
  'Up to 4 (5) initial pulses (21 and 40 in single runs), some converged already, others cut off; tasks pickled as by the real pool; executors and asynchronous results are intercepted too.',
  'A controlled pool executes pickled tasks in every order; results compared '
  'with fresh sequential runs; the real pool is run as conformance.',
  'controlled scheduler over all completion orders of the worker pool')

P('C19', 'Stored optimisation data are complete, consistent and round-trip',
  'After any sequence of appending results, copying, pickling, loading and '
  'dictionary conversion, a data container holds exactly the appended runs in '
  'order, all columns equally long, and copies or loaded containers are equal '
  'to and independent of the original. A refused result leaves the container '
  'as it was.',
  ['histories'],
  'all sequences of container operations up to the depth with all intermediate containers alive',
  'Tests append once and pickle once.',
  [DC, OD], [('container', DC + ': append_optim_result, check_length, to_pickle, from_pickle, __deepcopy__'),
             ('dictionaries', OD + ': to_dict, from_dict')],
  ['all columns of DataContainer', 'OptimizationResult.to_dict'],
  'Depth 4 (5) over 10 operations; runs with and without statistics, permuted labels, the same result twice; containers of 12 and 40 runs.',
  'Every history is executed on real containers and on a list model; all '
  'containers are compared after each step.',
  'exhaustive enumeration of operation histories against a list model')

P('C20', 'Analysis of runs reports the numbers of the runs',
  'For every data set, the analyser\'s best run, absolute costs, run times, '
  'summed evaluation times and time shares are those computed '
  'from the stored runs one by one, for any mixture of run lengths and scalar '
  'or vector costs, without altering the data.',
  ['inputs'],
  'all data sets of up to three runs over a finite alphabet of costs, histories and times',
  'Tests do not cover the analyser beyond one data set.',
  [AN], [('analysis', AN + ': every property and method of Analyser')],
  ['Analyser properties and plots'],
  'Every run has at least one recorded evaluation; costs of very different scales; up to 25 runs, 12 cost functions; data that grows between requests; final costs that differ by 1e-9 or lie orders of magnitude apart.',
  'All data sets over the alphabet are built and every quantity is compared '
  'with sums written per run, including lines drawn in the plots.',
  'exhaustive enumeration of finite data sets on the real code')

P('C21', 'Quasi-static noise has the requested moments and is cached as documented',
  'Deterministic quasi-static samples vary one noise operator at a time, are '
  'constant within a trace, divide the Gaussian distribution into parts of '
  'equal weight and (when corrected) have exactly the requested standard '
  'deviation; random samples are scaled independent normal draws, constant '
  'within a trace. '
  'Samples are redrawn on each read or kept, exactly as the redraw flag says, '
  'and the arguments are not altered.',
  ['inputs', 'histories'],
  'standard deviations x traces x samples x modes x flags x all sequences of reads; unit impulses of the random source',
  'Tests compare sample statistics within wide tolerances.',
  [NO], [('sampling', NO + ': NTGQuasiStatic._sample_noise, sample_1dim_gaussian_distribution'),
         ('caching', NO + ': NoiseTraceGenerator.noise_samples')],
  ['noise_samples', 'n_traces', 'n_noise_operators', 'n_samples_per_trace'],
  'The random source is controlled, so the sampling map is decided exactly; up to 12 operators and 400 traces.',
  'All read histories and all unit impulses of the controlled random source.',
  'exhaustive enumeration of configurations, read histories and random impulses (controlled source)')

P('C22', 'Coloured noise has exactly the requested spectral density',
  'For every spectral density, sampling time and number of samples (odd or '
  'even), the expectation of the one sided periodogram of the generated noise '
  'equals the requested density at every resolved frequency, traces and '
  'operators are independent, and the shape is as requested. The helper that '
  'generates coloured noise of a whole array uses the documented length.',
  ['inputs', 'configurations'],
  'all unit impulses of the white noise for every density, sampling time, length and extension',
  'Tests compare a periodogram of random draws with wide tolerance for one length.',
  [NO], [('colouring', NO + ': fast_colored_noise, NTGColoredNoise._sample_noise'),
         ('periodogram', NO + ': NTGColoredNoise.plot_periodogram')],
  ['noise_samples', 'return values'],
  'The noise is a linear map of white noise; its impulses decide second moments exactly; up to 100 samples, times of 1e-9 to 1e6.',
  'The white noise source is controlled: every unit impulse is fed through '
  'the real code; the exact expected periodogram follows.',
  'exhaustive enumeration of impulses of the controlled random source')

P('C24', 'Filter function infidelities belong to the current pulse and noise',
  'The filter function cost is the infidelity integral of the filter function '
  'of the current pulse, noise Hamiltonian and spectral density, for any '
  'number of controls and any form or order of the noise operators; its '
  'gradient is the derivative of it. The pulse sequence handed out always is '
  'that of the pulse set last or given explicitly.',
  ['histories', 'configurations', 'inputs'],
  'forms of the noise Hamiltonian x controls x all sequences of pulse settings and requests',
  'Tests compute one infidelity with two controls.',
  [SOL, CF], [('pulse sequence', SOL + ': create_pulse_sequence, create_ff_h_n, _diagonalize_and_propagate_pulse_sequence'),
              ('cost', CF + ': OperatorFilterFunctionInfidelity')],
  ['costs', 'grad', 'create_pulse_sequence'],
  'Gradient for traceless operators (limitation of the filter_functions package); for Lindblad and Monte Carlo solvers of the coherent part; up to 17 slots and 12 noise terms.',
  'All histories and forms are enumerated; the filter function is integrated '
  'in closed form per slot as oracle.',
  'exhaustive enumeration of request histories and noise forms against closed-form integration')

P('C25', 'Annealing moves stay on the lattice, inside the bounds, and report costs',
  'Every move of the pulse annealer changes the pulse by integer steps within '
  'the step size and stays inside the bounds, and its energy is the norm '
  'of the costs of the current pulse. The result of simulated annealing is the '
  'best accepted pulse with its cost, for every outcome of the random draws, '
  'and consecutive runs are independent.',
  ['inputs', 'histories', 'schedules'],
  'all outcomes of the random draws of one move; all short annealing schedules',
  'Tests do not run the annealer.',
  [OPT], [('moves', OPT + ': PulseAnnealer.move, energy'),
          ('runs', OPT + ': SimulatedAnnealing.run_optimization, prepare_optimization')],
  ['PulseAnnealer.state', 'OptimizationResult'],
  'Random draws are controlled and enumerated; pulses up to 17x2.',
  'All outcomes of the random choices are enumerated with a controlled random '
  'source, on a real simulator.',
  'exhaustive enumeration of random outcomes (controlled source) on the real code')

P('C23', 'Plots show the computed numbers',
  'Energy spectra draw every eigenvalue of every Hamiltonian at its x value, '
  'coloured by the contributions of the basis states to its eigenvector '
  '(black if not requested). Bloch sphere plots contain the expectation '
  'values of the Pauli operators of every propagated state. Pulse plots draw, '
  'per control, the transferred amplitudes over the transferred time slots '
  'and the original pulse over its own slots shifted by the padding, for '
  'uniform and uneven times.',
  ['inputs', 'configurations'],
  'all Hamiltonians of a structured family, all basis vectors, all control words x initial states, all transfer functions',
  'No test looks at what is drawn.',
  [ES, PL, TF], [('spectrum', ES + ': plot_energy_spectrum, vector_color_map'),
                 ('sphere', PL + ': plot_bloch_vector_evolution'),
                 ('pulse', TF + ': plot_pulse')],
  ['artists of the figure, return values'],
  'Colours compared for non-degenerate eigenvalues; up to 11 levels, 12 Hamiltonians, 17 slots.',
  'Every member of the family is plotted by the real code and the drawn '
  'artists are read back and compared with independently computed numbers.',
  'exhaustive enumeration of a finite family; drawn artists against independent values')

P('C26', 'The simulator assembles costs and gradients of all its solvers correctly',
  'For every list of cost functions on any set of solvers, the simulator '
  'returns the values of each cost function at the given pulse (or the stored '
  'one if none is given), concatenated in their order with matching labels, '
  'and the gradients along the cost axis. Numeric gradients are the forward or '
  'symmetric difference quotients with the given step, the numeric jacobian '
  'flag replaces the analytic gradient, and evaluation times are recorded once '
  'per call and cost function exactly when requested. This holds after any '
  'history of calls, stored pulses, direct use of the solvers and failures.',
  ['histories', 'configurations', 'fault_sequences'],
  'all ordered lists of up to three of seven cost functions on four solvers x all sequences of operations up to the depth',
  'Tests use one solver with one or two scalar costs.',
  [SIM, CF], [('assembly', SIM + ': wrapped_cost_functions, wrapped_jac_function, cost_indices'),
              ('numeric gradients', SIM + ': numeric_gradient, compare_numeric_to_analytic_gradient'),
              ('stored pulse', SIM + ': pulse')],
  ['costs', 'gradients', 'cost_indices', 'stats'],
  'Depth 3 (4); fixed noise; 4 and 13 cost functions, 5 and 17 slots.',
  'Every list and history is executed on a real simulator; the oracle '
  'evaluates each cost function alone on a solver of its own and forms the '
  'difference quotients itself.',
  'exhaustive enumeration of cost lists and operation histories against stand-alone evaluations')

P('C27', 'Cost functions sharing a solver do not influence each other',
  'Any number of cost functions can share one solver: evaluating costs and '
  'gradients in any order, repeatedly, after changing the pulse, after '
  'overwriting a returned gradient, or interleaved with reads of the solver, '
  'always gives the values each would give alone. The propagators and '
  'derivatives of the solver are left unaltered by every evaluation.',
  ['histories'],
  'all sequences of evaluations and reads up to the depth for eleven families of solver and cost functions',
  'Tests evaluate each cost function once.',
  [CF, SOL, MX], [('evaluation', CF + ': costs and grad of every CostFunction, in-place operator arithmetic'),
                  ('shared caches', SOL + ': cached propagators and derivatives')],
  ['costs', 'grad', 'solver quantities'],
  'Depth 3 (4) plus a final evaluation of everything; depth 2 for 17 slots; the times change too.',
  'All sequences are executed on one solver shared by all its cost functions; '
  'each value must equal the one of an untouched pair of solver and cost.',
  'exhaustive enumeration of evaluation histories on shared real objects')

P('C28', 'Arguments are never altered and objects sharing them are independent',
  'No solver, cost function, transfer function, noise generator or optimiser '
  'ever alters the operators, arrays, lists or dictionaries it was built from '
  'or called with. Objects built from the same arguments, even with one '
  'operator object in several roles, behave as if each had its own copies, '
  'under any interleaving of their operations.',
  ['histories', 'schedules'],
  'all pairs of objects from shared arguments x all interleavings of their operations up to the depth',
  'Tests build fresh arguments for every object.',
  [SOL, CF, TF, NO, OPT, MX], [('in-place arithmetic on shared operators', SOL + ': _compute_dyn_gen and its overrides, _calc_diss_sup_op'),
                               ('stored references', 'constructors of all classes')],
  ['argument objects', 'results of both objects'],
  'Pairs within each group of classes, depth 3 (4), sharing operators and transfer and amplitude functions.',
  'All interleavings of two real objects are executed; results are compared '
  'with runs of each alone on its own copies, arguments with a snapshot.',
  'exhaustive enumeration of interleavings of operations on pairs of real objects')
