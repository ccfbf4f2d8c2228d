"""Objects that share their arguments do not influence one another, and no
argument is ever altered."""
import copy
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C28'
LEVEL = 'model_checking'
RULE = ('all pairs of objects (solvers, cost functions, transfer and '
        'amplitude functions, noise generators, optimisers) built from the '
        'same argument objects (also with one operator in several roles) x '
        'all interleavings of their operations up to the depth; state = '
        '(pair, word)')
ASSUMPTIONS = ['the caller does not alter the arguments either']
SOLVERS = ('schroedinger', 'eager', 'spectral', 'montecarlo', 'controlnoise',
           'lindblad', 'lindblad-pf', 'superops', 'oversampling',
           'schroedinger/f', 'eager/f', 'montecarlo/f', 'lindblad/f')
COSTS = ('op', 'op-comp', 'state', 'noise', 'leak', 'liouville', 'vector',
         'filter')
TFS = ('over', 'over-m', 'exp', 'conv', 'gauss', 'custom', 'concat',
       'parallel', 'concat-m', 'parallel-m')
OTHERS = ('quasi', 'quasi-mc', 'coloured', 'lsq', 'lbfgs', 'neldermead',
          'annealer', 'simulator', 'simulator-numeric')
SLOW = ('lsq', 'lbfgs', 'neldermead', 'simulator-numeric', 'filter')


def cases(tier, seed):
    out = []
    depth = 4 if tier == 'thorough' else 3
    for group in (SOLVERS, COSTS, TFS, OTHERS):
        for a, b in itertools.combinations_with_replacement(group, 2):
            for alias in (False, True):
                if alias and group is not SOLVERS and group is not COSTS:
                    continue
                out.append(dict(pair=[a, b], alias=alias, depth=depth))
    return out


def arguments(seed, alias):
    """Everything a constructor may get; alias: one object in many roles."""
    rng = s.rng_for(seed, 'c28')
    h = [m.herm(rng, 2) for _ in range(5)]

    def same_numbers(p):
        return [p, p[::-1, ::-1].copy()]
    a = dict(
        h_drift=s.ops(h[:2]), h_ctrl=s.ops(h[2:4]), tau=s.taus(2),
        h_noise=s.ops([h[4]]), initial=s.op(m.unitary(rng, 2)),
        ket=s.op(m.ket(rng, 2)), target=s.op(m.unitary(rng, 2)),
        bra=s.op(m.ket(rng, 2).conj().T),
        lind=s.ops([.3 * m.general(rng, 2), .2 * m.general(rng, 2)]),
        superops=None, comp=[1, 0], noise=.3 * rng.standard_normal((1, 3, 2)),
        cnoise=.3 * rng.standard_normal((2, 3, 2)),
        pulses=same_numbers(rng.standard_normal((2, 2))),
        kernel=np.array([[.2, .1], [.5, .4], [.1, .3]]),
        matrix=rng.standard_normal((4, 2, 2)), x_times=np.full(4, .3),
        std=[.5, 2.], bounds=[np.full(4, -2.), np.full(4, 2.)],
        pairs=[(-2., 2.)] * 4, weights=np.array([1.5]),
        conditions=dict(max_iterations=3, max_wall_time=60),
        omega=np.linspace(.1, 5, 20),
        ff=[[m.SX / 2, np.ones(2), 'b'], [m.SZ / 2, np.array([.5, 2.]), 'a']],
        steps=[np.array([[1, 0], [-1, 2]]), np.array([[0, 0], [1, -2]])],
        limits=(np.full((2, 2), -2), np.full((2, 2), 2)),
        deriv=rng.standard_normal((6, 2, 2)))
    # the functions of the kinds with '/f', which share them
    a['functions'] = lambda made=[]: made or made.extend(functions()) or made
    a['superops'] = s.ops([m.dissipator(x.data) for x in a['lind']])
    if alias:
        one = a['h_drift'][0]
        a['h_drift'] = [one, one]
        a['h_ctrl'] = [one, a['h_ctrl'][1]]
        a['h_noise'] = [a['h_ctrl'][1]]
        a['lind'] = [one, one]
        a['initial'] = a['target']
    return a


def functions():
    from qopt import amplitude_functions as af
    from qopt import transfer_function as tf
    return (tf.ConcatenateTF(
        tf.OversamplingTF(num_ctrls=2, oversampling=2),
        tf.ConvolutionTF(kernel=np.array([[.2, .1], [.5, .4], [.1, .3]]),
                         num_ctrls=2)),
            af.UnaryAnalyticAmpFunc(lambda x: x + .1 * x ** 3,
                                    lambda x: 1 + .3 * x ** 2))


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    if hasattr(x, 'data') and not isinstance(x, np.ndarray):
        return np.array(x.data)
    return copy.deepcopy(x)


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def data(x):
    if isinstance(x, (list, tuple)):
        return [data(v) for v in x]
    return np.array(x.data)


def make_solver(kind, a, initial='initial', **kw):
    from checks.c06 import generator
    from qopt import solver_algorithms as sa
    from qopt import transfer_function as tf
    kw = dict(h_drift=a['h_drift'], h_ctrl=a['h_ctrl'], tau=a['tau'],
              initial_state=a[initial] if initial else None, **kw)
    if kind.endswith('/f'):
        kind = kind[:-2]
        kw['transfer_function'], kw['amplitude_function'] = a['functions']()
        kw['h_drift'] = [d for d in a['h_drift'] for _ in range(2)]
        a = dict(a, noise=np.repeat(a['noise'], 2, axis=2))
    if kind == 'spectral':
        kw['exponential_method'] = 'spectral'
    if kind == 'eager':
        kw['calculate_propagator_derivatives'] = True
    if kind == 'oversampling':
        kw['transfer_function'] = tf.OversamplingTF(num_ctrls=2,
                                                    oversampling=1,
                                                    bound_type=None)
    if kind == 'montecarlo':
        return sa.SchroedingerSMonteCarlo(
            h_noise=a['h_noise'],
            noise_trace_generator=generator([a['noise']]), **kw)
    if kind == 'controlnoise':
        return sa.SchroedingerSMCControlNoise(
            noise_trace_generator=generator([a['cnoise']]), **kw)
    if kind.startswith('lindblad') or kind == 'superops':
        if kind == 'superops':
            kw['initial_diss_super_op'] = a['superops']
        else:
            kw['lindblad_operators'] = a['lind']
        if kind == 'lindblad-pf':
            kw['prefactor_function'] = lambda c, x: np.stack(
                [1 + c[:, 0] ** 2, .5 + c[:, 1] ** 2], axis=1)
            kw['prefactor_derivative_function'] = _dpf
        kw['initial_state'] = None
        return sa.LindbladSolver(**kw)
    return sa.SchroedingerSolver(**kw)


def _dpf(c, x):
    out = np.zeros((len(c), 2, 2))
    out[:, 0, 0] = 2 * c[:, 0]
    out[:, 1, 1] = 2 * c[:, 1]
    return out


def make(kind, a, seed):
    """operations of one object: name -> function returning a value"""
    if kind in SOLVERS:
        solver = make_solver(kind, a)
        noisy = kind in ('montecarlo', 'controlnoise', 'montecarlo/f')

        def read():
            out = [data(solver.propagators), data(solver.reversed_propagators),
                   data(solver.forward_propagators)]
            if noisy:
                out += [data(solver.forward_propagators_noise)]
            return out

        return dict(
            A=lambda: solver.set_optimization_parameters(a['pulses'][0]),
            B=lambda: (solver.set_times(a['tau']),
                       solver.set_optimization_parameters(a['pulses'][1]),
                       None)[-1],
            read=read, deriv=lambda: data(solver.frechet_deriv_propagators))
    if kind in COSTS:
        return make_cost(kind, a)
    if kind in TFS:
        func = make_tf(kind, a)
        func.set_times(a['tau'])

        def chain():
            n = len(func.x_times)
            return func.gradient_chain_rule(
                np.resize(a['deriv'], (n, 2, 2)))
        return dict(A=lambda: func(a['pulses'][0]),
                    B=lambda: func(a['pulses'][1]), chain=chain,
                    times=lambda: (func.set_times(a['tau']),
                                   func.x_times)[1])
    return make_other(kind, a, seed)


def make_cost(kind, a):
    from qopt import cost_functions as cf
    k = 'montecarlo' if kind == 'noise' else 'schroedinger'
    kw = {}
    if kind == 'filter':
        kw['filter_function_h_n'] = a['ff']
    solver = make_solver(k, a, 'ket' if kind == 'state' else None, **kw)
    if kind == 'op':
        fn = cf.OperationInfidelity(solver=solver, target=a['target'])
    elif kind == 'op-comp':
        fn = cf.OperationInfidelity(solver=solver, target=a['target'],
                                    computational_states=a['comp'],
                                    map_to_closest_unitary=True)
    elif kind == 'state':
        fn = cf.StateInfidelity(solver=solver, target=a['bra'])
    elif kind == 'noise':
        fn = cf.OperationNoiseInfidelity(solver=solver, target=a['target'],
                                         computational_states=a['comp'],
                                         neglect_systematic_errors=False)
    elif kind == 'leak':
        fn = cf.LeakageError(solver=solver, computational_states=a['comp'])
    elif kind == 'liouville':
        fn = cf.LeakageLiouville(solver=solver,
                                 computational_states=a['comp'],
                                 input_unitary=True)
    elif kind == 'vector':
        fn = cf.OperatorMatrixNorm(solver=solver, target=a['target'],
                                   mode='vector')
    else:
        fn = cf.OperatorFilterFunctionInfidelity(
            solver=solver, noise_power_spec_density=lambda f: 1 / f,
            omega=a['omega'])
    solver.set_optimization_parameters(a['pulses'][0])
    out = dict(
        A=lambda: solver.set_optimization_parameters(a['pulses'][0]),
        B=lambda: solver.set_optimization_parameters(a['pulses'][1]),
        cost=lambda: np.array(fn.costs()))
    if kind not in ('liouville', 'vector', 'filter'):
        out['grad'] = lambda: np.array(fn.grad())
    return out


def make_tf(kind, a):
    from qopt import transfer_function as tf
    if kind == 'over':
        return tf.OversamplingTF(num_ctrls=2, oversampling=2,
                                 bound_type=('n', 1))
    if kind == 'over-m':
        return tf.OversamplingMTF(num_ctrls=2, oversampling=2,
                                  bound_type=('n', 1), offset=.2)
    if kind == 'exp':
        return tf.ExponentialMTF(awg_rise_time=.3, num_ctrls=2,
                                 oversampling=2, bound_type=('n', 1))
    if kind == 'conv':
        return tf.ConvolutionTF(kernel=a['kernel'], num_ctrls=2)
    if kind == 'gauss':
        return tf.GaussianConvolution(sigma=.6, num_ctrls=2)
    if kind == 'custom':
        return tf.CustomMTF(a['matrix'], num_ctrls=2, x_times=a['x_times'])
    kind, matrix = kind.split('-')[0], kind.endswith('-m')
    if kind == 'concat':
        if matrix:
            return tf.ConcatenateMTF(make_tf('over-m', a),
                                     make_tf('over-m', a))
        return tf.ConcatenateTF(make_tf('over', a), make_tf('conv', a))
    cls = tf.OversamplingMTF if matrix else tf.OversamplingTF
    parts = [cls(num_ctrls=1, oversampling=2) for _ in range(2)]
    return (tf.ParallelMTF if matrix else tf.ParallelTF)(*parts)


def make_other(kind, a, seed):
    from mc import rand
    from qopt import noise
    if kind in ('quasi', 'quasi-mc', 'coloured'):
        if kind == 'coloured':
            g = noise.NTGColoredNoise(
                n_samples_per_trace=4, noise_spectral_density=lambda f: 1 / f,
                dt=.5, n_traces=3, n_noise_operators=2,
                always_redraw_samples=False)
        else:
            g = noise.NTGQuasiStatic(
                standard_deviation=a['std'], n_samples_per_trace=2,
                n_traces=3, always_redraw_samples=False,
                correct_std_for_discrete_sampling=True,
                sampling_mode='monte_carlo' if kind == 'quasi-mc'
                else 'uncorrelated_deterministic')
        state = np.random.RandomState(5)

        def read():
            with rand.Controlled(
                    gauss=lambda sh: state.standard_normal(sh)).installed():
                return np.array(g.noise_samples)
        return dict(read=read, n=lambda: np.array(
            [g.n_traces, g.n_noise_operators, g.n_samples_per_trace]))
    from qopt import cost_functions as cf
    from qopt import optimize
    from qopt.simulator import Simulator
    solver = make_solver('schroedinger', a, None)
    sim = Simulator(solvers=[solver], cost_funcs=[cf.OperationInfidelity(
        solver=solver, target=a['target'])])
    if kind.startswith('simulator'):
        return _simulator(kind, a, solver, sim)
    if kind == 'annealer':
        opt = optimize.SimulatedAnnealing(
            system_simulator=sim, bounds=a['limits'], steps=6, updates=0,
            step_size=1, step_ratio=1.)
        opt.annealer.update = lambda *x, **k: None

        def anneal(i):
            count = [i]

            def integer(low, high, shape):
                count[0] += 1
                return (np.arange(4).reshape(shape) * count[0]) % 3 - 1
            with rand.Controlled(uniform=lambda sh: np.zeros(sh),
                                 integer=integer).installed(python=True):
                r = opt.run_optimization(a['steps'][i])
            return [np.array(r.final_parameters), np.array(r.final_cost),
                    np.array(r.init_parameters)]
        return dict(A=lambda: anneal(0), B=lambda: anneal(1))
    if kind == 'lsq':
        opt = optimize.LeastSquaresOptimizer(
            system_simulator=sim, bounds=a['bounds'],
            termination_cond=a['conditions'],
            save_intermediary_steps=True, cost_func_weights=a['weights'])
    else:
        opt = optimize.ScalarMinimizingOptimizer(
            system_simulator=sim, bounds=a['pairs'],
            termination_cond=a['conditions'],
            save_intermediary_steps=True, cost_func_weights=a['weights'],
            **(dict(method='Nelder-Mead', use_jacobian_function=False)
               if kind == 'neldermead' else {}))

    def go(i):
        r = opt.run_optimization(a['pulses'][i])
        return [r.final_parameters, np.array(r.final_cost),
                np.array(r.init_parameters)]
    return dict(A=lambda: go(0), B=lambda: go(1))


def _simulator(kind, a, solver, sim):
    from qopt import cost_functions as cf
    from qopt.simulator import Simulator
    sim = Simulator(
        solvers=[solver], optimization_parameters=a['pulses'][0],
        cost_funcs=[cf.OperationInfidelity(solver=solver,
                                           target=a['target']),
                    cf.LeakageError(solver=solver,
                                    computational_states=a['comp'])],
        numeric_jacobian=kind.endswith('numeric'))

    def stored(i):
        sim.pulse = a['pulses'][i]

    return dict(
        A=lambda: stored(0), B=lambda: stored(1),
        cost=lambda: np.array(sim.wrapped_cost_functions()),
        costB=lambda: np.array(sim.wrapped_cost_functions(a['pulses'][1])),
        grad=lambda: np.array(sim.wrapped_jac_function()),
        diff=lambda: np.array(sim.numeric_gradient(delta_eps=1e-4,
                                                   symmetric=True)))


def record(ops, word):
    return [ops[o]() for o in word]


def flat(x):
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in flat(v)]
    return [np.asarray(x)]


def run(case, ctx):
    kinds, alias = case['pair'], case['alias']
    memo = {}

    def alone(which, word):
        key = (which, word)
        if key not in memo:
            ops = make(kinds[which], arguments(ctx.seed, False) if not alias
                       else unaliased(ctx.seed), ctx.seed)
            memo[key] = record(ops, word)
        return memo[key]
    names = [sorted(make(k, arguments(ctx.seed, False), ctx.seed))
             for k in kinds]
    letters = [(i, o) for i in (0, 1) for o in names[i]]
    # solvers need a pulse before anything is read
    start = [(0, 'A'), (1, 'B')] if kinds[0] in SOLVERS + COSTS + TFS else []
    depth = case['depth'] - any(k in SLOW for k in kinds)
    for word in itertools.product(letters, repeat=depth):
        word = tuple(start) + word
        args = arguments(ctx.seed, alias)
        keep = snapshot(args)
        ops = [make(k, args, ctx.seed) for k in kinds]
        ctx.check(same(snapshot(args), keep), 'the constructors leave their '
                  'arguments unaltered')
        got = [[], []]
        for i, o in word:
            got[i].append(ops[i][o]())
            ctx.step()
        changed = [k for k in keep if not same(snapshot(args[k]), keep[k])]
        ctx.check(not changed, 'arguments are unaltered after %s' % (word,),
                  changed)
        for i in (0, 1):
            mine = tuple(o for j, o in word if j == i)
            want = alone(i, mine)
            for o, x, y in zip(mine, got[i], want):
                x, y = flat(x), flat(y)
                if ctx.check(len(x) == len(y), 'kind of result'):
                    for u, v in zip(x, y):
                        ctx.close(u, v, '%s of %s in %s' % (o, kinds[i],
                                                            word))
        ctx.state(word)
        ctx.trace()


def unaliased(seed):
    """The same values as the aliased arguments in separate objects."""
    a = arguments(seed, True)
    for k in ('h_drift', 'h_ctrl', 'h_noise', 'lind'):
        a[k] = s.ops([x.data for x in a[k]])
    a['initial'] = s.op(a['initial'].data)
    return a
