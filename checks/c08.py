"""The gradient is the derivative of the cost, through the whole chain.

optimization parameters -> transfer function -> amplitudes -> propagation ->
cost: for every combination and every control word the analytic gradient is
compared with central differences of the cost at fixed noise."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = ('cost function with gradient x solver x transfer function x '
        'amplitude function x exponential method x computational states, '
        'all control words over the alphabet of the depth; each partial '
        'derivative is compared; state = (chain, word)')
ASSUMPTIONS = ['central differences of the cost with step 1e-5, tolerance '
               '2e-6', 'Monte Carlo noise does not depend on the controls']

COSTS = ('operation', 'operation-comp', 'operation-comp-unitary', 'state',
         'state-comp', 'state-comp-rescale', 'subspace', 'leakage',
         'noise', 'noise-target', 'noise-comp', 'noise-comp-unitary',
         'super', 'super-comp', 'super-pf', 'filter')
TFS = ('identity', 'over', 'over-m', 'exponential', 'convolution',
       'gaussian', 'concatenate', 'parallel', 'concatenate-m', 'parallel-m',
       'custom')
AMPS = ('identity', 'unary', 'custom')
SUBSPACES = [([2, 2], [1]), ([2, 3], [0]), ([2, 3], [1]), ([3, 2], [0]),
             ([2, 2, 2], [0, 2]), ([2, 2, 2], [1]), ([2, 2, 2], [2, 1]),
             ([2, 2, 3], [2])]


def cases(tier, seed):
    out = []
    full = tier == 'thorough'
    for cost in COSTS:
        for tf in TFS:
            for amp in AMPS:
                for method in ('Frechet', 'spectral'):
                    if not full and method == 'spectral' and (
                            TFS.index(tf) + AMPS.index(amp)) % 3:
                        continue
                    for n_y in (1, 2, 3):
                        if not full and (n_y == 3 or n_y == 1) and (
                                TFS.index(tf) + 2 * AMPS.index(amp)
                                + COSTS.index(cost)) % 4 != n_y:
                            continue
                        if n_y == 1 and tf == 'gaussian':
                            continue
                        out.append(dict(cost=cost, tf=tf, amp=amp,
                                        method=method, n_y=n_y))
    # ordered computational states, numbers of controls, and drifts
    for cost in COSTS:
        comps = [None] if 'comp' not in cost and cost != 'leakage' else \
            [c for c in itertools.permutations(range(3), 2)
             if c != (2, 0)] + [(0, 1, 2), (2, 0, 1), (1,), (3, 0, 2),
                                (1, 3)]
        for comp in comps:
            for n_ctrl in (1, 2, 3):
                for drift in ('none', 'single', 'steps'):
                    if comp and max(comp) == 3 and drift == 'single':
                        continue
                    if not full and comp is not None and (
                            comps.index(comp) + n_ctrl
                            + len(drift)) % 3 == 0:
                        continue
                    out.append(dict(
                        cost=cost, amp=('identity', 'unary')[n_ctrl % 2],
                        tf='over' if drift == 'single' else 'identity',
                        method='spectral' if drift == 'none' else 'Frechet',
                        n_y=2, comp=comp, n_ctrl=n_ctrl, drift=drift))
    # long pulses, many controls, many noise traces
    for cost in COSTS:
        for tf, amp, n_y, n_ctrl in (
                ('identity', 'unary', 17, 1), ('over', 'custom', 9, 2),
                ('identity', 'identity', 3, 5), ('parallel', 'unary', 2, 6),
                ('exponential', 'identity', 9, 2), ('custom', 'unary', 5, 3)):
            out.append(dict(cost=cost, tf=tf, amp=amp, method='Frechet',
                            n_y=n_y, n_ctrl=n_ctrl, traces=19 - n_y))
    for n_ctrl in (1, 2, 3):
        for drift in ('none', 'single', 'steps'):
            for n_y in (1, 2, 3, 9):
                out.append(dict(kind='average', n_ctrl=n_ctrl, drift=drift,
                                n_y=n_y))
    for dims, remove in SUBSPACES:
        for n_ctrl in (1, 2):
            out.append(dict(cost='subspace', amp='identity', tf='identity',
                            method='Frechet', n_y=2, comp=None, dims=dims,
                            remove=remove, n_ctrl=n_ctrl, drift='steps'))
    return out


def make_tf(name, n_ctrl, tau):
    from qopt import transfer_function as tf
    k2 = np.array([[.1, .05], [.5, .1], [.15, -.1]])
    if name == 'identity':
        return None
    if name == 'over':
        out = tf.OversamplingTF(num_ctrls=n_ctrl, oversampling=2,
                                bound_type=('n', 1))
    elif name == 'over-m':
        out = tf.OversamplingMTF(num_ctrls=n_ctrl, oversampling=2,
                                 bound_type=('right_n', 1), offset=.2)
    elif name == 'exponential':
        out = tf.ExponentialMTF(awg_rise_time=.2, num_ctrls=n_ctrl,
                                oversampling=2, bound_type=('x', 1),
                                offset=.1)
    elif name == 'convolution':
        out = tf.ConvolutionTF(kernel=k2, num_ctrls=n_ctrl, mode='reflect')
    elif name == 'gaussian':
        out = tf.GaussianConvolution(sigma=.6, num_ctrls=n_ctrl)
    elif name == 'concatenate':
        out = tf.ConcatenateTF(
            tf.OversamplingTF(num_ctrls=n_ctrl, oversampling=2),
            tf.GaussianConvolution(sigma=.7, num_ctrls=n_ctrl))
    elif name == 'concatenate-m':
        out = tf.ConcatenateMTF(
            tf.ExponentialMTF(awg_rise_time=.3, num_ctrls=n_ctrl,
                              oversampling=2),
            tf.OversamplingMTF(num_ctrls=n_ctrl, bound_type=('n', 1),
                               offset=.3))
    elif name == 'parallel':
        a = tf.OversamplingTF(num_ctrls=1, oversampling=2,
                              bound_type=('n', 1))
        b = tf.OversamplingMTF(num_ctrls=n_ctrl - 1, oversampling=2,
                               bound_type=('n', 1), offset=-.2)
        out = tf.ParallelTF(a, b)
    elif name == 'parallel-m':
        a = tf.ExponentialMTF(awg_rise_time=.2, num_ctrls=1, oversampling=2,
                              bound_type=('n', 1))
        b = tf.OversamplingMTF(num_ctrls=n_ctrl - 1, oversampling=2,
                               bound_type=('n', 1), offset=.4)
        out = tf.ParallelMTF(a, b)
    elif name == 'custom':
        rng = np.random.default_rng(5)
        n = len(tau)
        out = tf.CustomMTF(rng.standard_normal((2 * n, n, n_ctrl)),
                           num_ctrls=n_ctrl, offset=.1)
    out.set_times(tau)
    return out


def make_amp(name):
    from qopt import amplitude_functions as af
    if name == 'unary':
        return af.UnaryAnalyticAmpFunc(lambda x: np.exp(.3 * x) - .5,
                                       lambda x: .3 * np.exp(.3 * x))
    if name == 'custom':
        # u_0 = x_0 x_1, u_1 = x_0^2 / 2 - x_1
        def value(x):
            return np.stack([x[:, 0] * x[:, 1], .5 * x[:, 0] ** 2
                             - x[:, 1]], axis=1)

        def deriv(x):           # [time, transferred parameter, amplitude]
            out = np.zeros((len(x), 2, 2))
            out[:, 0, 0] = x[:, 1]
            out[:, 1, 0] = x[:, 0]
            out[:, 0, 1] = x[:, 0]
            out[:, 1, 1] = -1
            return out
        return af.CustomAmpFunc(value, deriv)
    return None


def make(case, ctx, tau):
    """(solver, cost function)"""
    from checks.c06 import generator
    from qopt import cost_functions as cf
    from qopt import solver_algorithms as sa
    cost = case['cost']
    dims, remove = case.get('dims', [2, 2]), case.get('remove', [0])
    dim = int(np.prod(dims)) if cost == 'subspace' else 3 if (
        'comp' in cost or cost == 'leakage') else 2
    comp = [2, 0] if dim == 3 and cost != 'subspace' else None
    if case.get('comp'):
        comp = list(case['comp'])
        dim = max(dim, max(comp) + 1)
    n_ctrl = case.get('n_ctrl', 2)
    rng = s.rng_for(ctx.seed, 'c08', cost)
    tf = make_tf(case['tf'], n_ctrl, tau)
    n_x = len(tau) if tf is None else len(tf.x_times)
    system = s.System(ctx.seed, dim, n_ctrl, n_x, case.get('drift', 'steps'))
    init = m.ket(rng, dim) if cost.startswith('state') \
        or cost == 'subspace' else None
    kw = dict(h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
              transfer_function=tf, amplitude_function=make_amp(case['amp']),
              exponential_method=case['method'],
              initial_state=None if init is None else s.op(init))
    dc = 2 if comp is None else len(comp)
    if cost == 'subspace':
        dc = int(np.prod([d for i, d in enumerate(dims)
                          if i not in remove]))
    target = s.op(m.unitary(rng, dc))
    bra = s.op(m.ket(rng, dc))
    if cost.startswith('noise'):
        noise = .3 * rng.standard_normal((2, case.get('traces', 3), n_x))
        solver = sa.SchroedingerSMonteCarlo(
            h_noise=[s.op(m.herm(rng, dim)) for _ in range(2)],
            noise_trace_generator=generator([noise]), **kw)
        fn = cf.OperationNoiseInfidelity(
            solver=solver, target=target if cost == 'noise-target' else None,
            computational_states=comp,
            map_to_closest_unitary=cost.endswith('unitary'),
            neglect_systematic_errors=cost != 'noise-target')
    elif cost.startswith('super'):
        if cost == 'super-pf':
            kw['prefactor_function'] = lambda c, x: np.stack(
                [1 + c[:, 0] ** 2, .5 + .3 * c[:, -1] ** 2], axis=1)

            def dpf(c, x):
                out = np.zeros((len(c), n_ctrl, 2))
                out[:, 0, 0] = 2 * c[:, 0]
                out[:, -1, 1] = .6 * c[:, -1]
                return out
            kw['prefactor_derivative_function'] = dpf
        solver = sa.LindbladSolver(
            lindblad_operators=[s.op(.3 * m.general(rng, dim)),
                                s.op(.2 * m.general(rng, dim))], **kw)
        fn = cf.OperationInfidelity(
            solver=solver, target=target, super_operator_formalism=True,
            computational_states=comp)
    else:
        if cost == 'filter':
            # the filter function package requires traceless controls
            kw['h_ctrl'] = [s.op(_traceless(c)) for c in system.ctrls]
            noise_op = m.herm(rng, dim)
            kw['filter_function_h_n'] = [
                [noise_op - np.eye(dim) * np.trace(noise_op) / dim,
                 np.linspace(1, 2, n_x), 'B noise'],
                [m.SZ / 2, np.ones(n_x), 'A noise']]
        solver = sa.SchroedingerSolver(**kw)
        if cost.startswith('operation'):
            fn = cf.OperationInfidelity(
                solver=solver, target=target, computational_states=comp,
                map_to_closest_unitary=cost.endswith('unitary'))
        elif cost.startswith('state'):
            fn = cf.StateInfidelity(
                solver=solver, target=bra, computational_states=comp,
                rescale_propagated_state=cost.endswith('rescale'))
        elif cost == 'subspace':
            fn = cf.StateInfidelitySubspace(solver=solver, target=bra,
                                            dims=list(dims),
                                            remove=list(remove))
        elif cost == 'leakage':
            fn = cf.LeakageError(solver=solver, computational_states=comp)
        elif cost == 'filter':
            fn = cf.OperatorFilterFunctionInfidelity(
                solver=solver, noise_power_spec_density=lambda f: 1 / f,
                omega=np.linspace(.1, 8, 60))
    return solver, fn


def _traceless(a):
    return a - np.eye(len(a)) * np.trace(a) / len(a)


def _average(case, ctx):
    """The function for the average gate fidelity of a qubit."""
    import warnings

    from qopt import cost_functions as cf
    from qopt.solver_algorithms import SchroedingerSolver
    n_y, n_ctrl = case['n_y'], case['n_ctrl']
    tau = s.taus(n_y)
    system = s.System(ctx.seed, 2, n_ctrl, n_y, case['drift'])
    target = m.unitary(s.rng_for(ctx.seed, 'c08a'), 2)
    solver = SchroedingerSolver(h_drift=system.h_drift(),
                                h_ctrl=system.h_ctrl(), tau=tau)

    def fidelity(pulse):
        total = m.forward(m.propagators(system.drifts, system.ctrls, pulse,
                                        tau), np.eye(2))[-1]
        # from the overlap with the target
        return (np.abs(np.trace(target.conj().T @ total)) ** 2 + 2) / 6
    letters = s.alphabet(n_ctrl, ctx.seed, 4)
    for w in s.words(range(4), n_y) if n_y < 4 else s.long_words(4, n_y):
        pulse = np.array([letters[i] for i in w])
        solver.set_optimization_parameters(pulse)
        du = np.empty((n_y, n_ctrl), dtype=object)
        for ctrl, row in enumerate(solver.frechet_deriv_propagators):
            for t, x in enumerate(row):
                du[t, ctrl] = x
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ctx.close(cf.averge_gate_fidelity(
                solver.forward_propagators[-1], s.op(target)),
                fidelity(pulse), 'average gate fidelity')
            got = cf.derivative_average_gate_fid_with_du(
                solver.propagators, solver.forward_propagators, du,
                s.op(target))
        want = m.central(fidelity, pulse)
        ctx.close(got, want.reshape(n_y, n_ctrl),
                  'derivative of the average gate fidelity', tol=2e-6)
        ctx.state(w)
        ctx.step(pulse.size)
        ctx.trace()


def run(case, ctx):
    if case.get('kind') == 'average':
        return _average(case, ctx)
    from qopt.simulator import Simulator
    n_y = case['n_y']
    tau = s.taus(n_y, 'uniform' if 'exp' in case['tf']
                 or case['tf'] in ('concatenate-m', 'parallel-m')
                 else 'uneven')
    solver, fn = make(case, ctx, tau)
    sim = Simulator(solvers=[solver], cost_funcs=[fn])
    a, _, b = s.alphabet(case.get('n_ctrl', 2), ctx.seed, 4)[1:]
    if case['cost'] == 'filter' or case['amp'] == 'custom':
        letters = [.3 * b, a, -a, b]
    else:
        letters = [0 * a, a, -a, b]
    words = list(s.long_words(4, n_y) if case.get('traces')
                 else s.words(range(4), n_y))
    if ctx.tier == 'quick' and not case.get('traces'):
        words = {1: [(0,), (1,), (2,), (3,)],
                 2: [(1, 2), (1, 1), (0, 3), (3, 1)],
                 3: [(1, 0, 2), (1, 1, 3), (3, 2, 0), (2, 3, 1)]}[n_y]
    for w in words:
        pulse = np.array([letters[i] for i in w])
        before = pulse.copy()
        grad = sim.wrapped_jac_function(pulse)
        want = m.central(sim.wrapped_cost_functions, pulse)
        ctx.state(w)
        ctx.step(pulse.size)
        ctx.close(grad, want.transpose(0, 2, 1), 'gradient of the cost',
                  tol=2e-6, rtol=1.)
        ctx.close(sim.wrapped_jac_function(pulse), grad,
                  'gradient after evaluations at other pulses')
        ctx.close(pulse, before, 'the pulse is left unaltered')
        ctx.trace()
