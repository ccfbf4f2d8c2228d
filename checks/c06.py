"""Monte Carlo solvers: every trace, every schedule of the worker pool.

Noise words over a finite alphabet are enumerated; for the worker pool every
completion order and every failing worker is explored with a controlled
stand-in, and one run with real processes binds the stand-in to reality."""
import itertools

import numpy as np

from mc import models as m
from mc import pool
from mc import systems as s

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = ('all noise words over {-a, 0, b} per (operator, slot) for one trace '
        '(the further traces are rotations of it) x all control words x '
        'solver x amplitude / transfer / noise amplitude function; all '
        'orders of first reads; every method of the exponential; all completion orders and failing workers of '
        'the pool; state = (configuration, noise word, control word)')
ASSUMPTIONS = ['the pool is replaced by a controlled stand-in that pickles '
               'tasks and results; one configuration runs real processes']


def cases(tier, seed):
    out = []
    full = tier == 'thorough'
    for dim, n_ctrl in ((2, 1), (2, 2), (3, 2)):
        for n_noise in (1, 2):
            for n_traces in (1, 2, 3):
                for init in ('default', 'ket'):
                    for amp in ('identity', 'square'):
                        for over in (1, 2, 'conv'):
                            for namp in ('none', 'function'):
                                out.append(dict(
                                    kind='words', dim=dim, n_ctrl=n_ctrl,
                                    n_noise=n_noise, n_traces=n_traces,
                                    init=init, amp=amp, over=over,
                                    namp=namp, slots=3 if full else 2))
    for dim, n_ctrl in ((2, 1), (2, 2), (3, 2)):
        for n_traces in (1, 2, 3):
            for amp in ('identity', 'square', 'mix'):
                for over in (1, 2, 'conv'):
                    out.append(dict(kind='control', dim=dim, n_ctrl=n_ctrl,
                                    n_traces=n_traces, amp=amp, over=over,
                                    slots=2))
    for solver in ('mc', 'control'):
        for n_traces in (1, 2, 3, 4) + ((5,) if full else ()):
            for processes in (1, 2, 3, None):
                for grid in ('uneven', 'close'):
                    out.append(dict(kind='pool', solver=solver, grid=grid,
                                    n_traces=n_traces, processes=processes))
        for grid in ('uneven', 'close'):
            out.append(dict(kind='real-pool', solver=solver, n_traces=5,
                            processes=2, grid=grid))
    # many traces, slots, noise operators
    for solver in ('mc', 'control'):
        for sizes in ((2, 17, 9, 5), (3, 3, 17, 2), (2, 130, 2, 1)):
            for processes in (1, 2, None):
                out.append(dict(kind='many', solver=solver, sizes=sizes,
                                processes=processes))
    # every method of the exponential, with and without a pool
    for solver in ('mc', 'control'):
        for method in METHODS:
            for processes in (1, 2, None):
                out.append(dict(kind='methods', solver=solver, method=method,
                                n_traces=2, processes=processes))
    for processes in (1, 2):
        for power in (-9, -6, 6):
            out.append(dict(kind='small', processes=processes, power=power))
    for redraw in (True, False):
        for solver in ('mc', 'control', 'grape', 'deriv', 'pool'):
            out.append(dict(kind='reads', solver=solver, redraw=redraw))
    for mode in ('uncorrelated_deterministic', 'monte_carlo'):
        for n_noise in (1, 2, 3):
            for n_traces in (2, 3, 4):
                out.append(dict(kind='quasistatic', mode=mode,
                                n_noise=n_noise, n_traces=n_traces))
    return out


METHODS = ('Frechet', 'spectral', 'approx', 'first_order', 'second_order',
           'third_order')
AMPS = dict(identity=(lambda x: x, None),
            square=(lambda x: x ** 2 - .5 * x, None),
            mix=(lambda x: x + .3 * x[:, ::-1] ** 2, None))


def amp_func(name):
    from qopt import amplitude_functions as af
    if name == 'square':
        return af.UnaryAnalyticAmpFunc(lambda x: x ** 2 - .5 * x,
                                       lambda x: 2 * x - .5)
    if name == 'mix':
        return af.CustomAmpFunc(AMPS['mix'][0], None)
    return None


def tf_over(over, n_ctrl):
    from qopt import transfer_function as tf
    if over == 1:
        return None
    if over == 'conv':
        # changes the values, not the number of slots
        return tf.ConvolutionTF(kernel=KERNEL, num_ctrls=n_ctrl)
    return tf.OversamplingTF(oversampling=over, num_ctrls=n_ctrl,
                             bound_type=('right_n', 1))


KERNEL = np.array([[.2], [.5], [.3]])


def time_axis(tau_y, over):
    """Durations of the transferred slots."""
    if over in (1, 'conv'):
        return np.array(tau_y)
    return m.tf_times(tau_y, over, ('right_n', 1))


def transferred(y, over):
    if over == 1:
        return y
    if over == 'conv':
        return m.convolve(y, KERNEL, 'nearest')
    return m.tf_oversampling(y, over, ('right_n', 1))


def generator(samples, redraw=False):
    """A user's generator with given realisations; remembers the draws."""
    stack = [np.array(x) for x in samples]
    drawn = []

    def draw():
        k = len(drawn) % len(stack)
        drawn.append(k)
        return np.array(stack[k])
    shape = stack[0].shape
    gen = s.user_noise(draw, n_samples_per_trace=shape[2],
                       always_redraw_samples=redraw, n_traces=shape[1],
                       n_noise_operators=shape[0])
    gen.drawn = drawn
    return gen


def expected(system, h_noise, amps, tau, noise, init, with_deriv=True):
    """noise [op, trace, slot] of effective amplitudes"""
    props, fwd, rev, deriv = [], [], [], []
    for k in range(noise.shape[1]):
        extra = [sum(noise[i, k, t] * h_noise[i] for i in range(len(h_noise)))
                 for t in range(len(tau))]
        p = m.propagators(system.drifts, system.ctrls, amps, tau, extra)
        props.append(p)
        fwd.append(m.forward(p, init))
        rev.append(m.backward(p))
        if with_deriv:
            deriv.append(m.frechet(system.drifts, system.ctrls, amps, tau,
                                   extra))
    return props, fwd, rev, deriv


READS = ('propagators', 'forward_propagators', 'reversed_propagators',
         'frechet_deriv_propagators')


def run(case, ctx):
    globals()['_' + case['kind'].replace('-', '_')](case, ctx)


def _small(case, ctx):
    """Noise in other units: the strength is in the operators."""
    from qopt import solver_algorithms as sa
    tau = s.taus(3)
    rng = s.rng_for(ctx.seed, 'c06s')
    unit = 10. ** case['power']
    h_noise = [m.herm(rng, 2) for _ in range(2)]
    system = s.System(ctx.seed, 2, 2, 3, 'steps')
    letters = s.alphabet(2, ctx.seed, 3)
    values = np.array([-.4, 0., .7])
    for n, word in enumerate(itertools.product(range(3), repeat=3)):
        noise = np.array([values[list(word)], values[list(word[::-1])] + .1])
        noise = noise[:, None, :] * np.array([1., -2.])[None, :, None]
        solver = sa.SchroedingerSMonteCarlo(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
            h_noise=s.ops([h / unit for h in h_noise]),
            noise_trace_generator=generator([noise * unit]),
            processes=case['processes'])
        y = np.array([letters[(n + i) % 3] for i in word])
        solver.set_optimization_parameters(y)
        derivs = case['processes'] == 1
        want = expected(system, h_noise, y, tau, noise, np.eye(2), derivs)
        for i in range(3 + derivs):
            ctx.close(getattr(solver, READS[i] + '_noise'), want[i],
                      'noisy ' + READS[i] + ' in other units', tol=1e-8)
        ctx.state(word)
        ctx.step(6)
        ctx.trace(2)


def _words(case, ctx):
    from qopt import solver_algorithms as sa
    n_ctrl, dim, slots = case['n_ctrl'], case['dim'], case['slots']
    over, n_noise, n_traces = case['over'], case['n_noise'], case['n_traces']
    tau_y = s.taus(slots)
    rng = s.rng_for(ctx.seed, 'c06', dim, n_noise)
    h_noise = [m.herm(rng, dim) for _ in range(n_noise)]
    init = m.ket(rng, dim) if case['init'] == 'ket' else None
    init_np = np.eye(dim) if init is None else init
    tau = time_axis(tau_y, over)
    n_x = len(tau)
    system = s.System(ctx.seed, dim, n_ctrl, n_x, 'steps')
    letters = s.alphabet(n_ctrl, ctx.seed, 3)
    values = np.array([-.4, 0., .7])
    first = 2                                  # slots with free noise words
    words = list(itertools.product(range(3), repeat=n_noise * first))
    if len(words) > 27:
        words = words[::3] if ctx.tier == 'quick' else words
    cwords = list(s.words(letters, slots))
    for n, word in enumerate(words):
        base = values[np.array(word).reshape(n_noise, first)]
        noise = np.zeros((n_noise, n_traces, n_x))
        for k in range(n_traces):
            for t in range(n_x):
                noise[:, k, t] = base[:, (t + k) % first] * (1 + k) \
                    + .1 * (t // first)
        kw = {}
        if case['namp'] == 'function':
            def namp(noise_samples, optimization_parameters,
                     transferred_parameters, control_amplitudes):
                return noise_samples * (
                    1 + control_amplitudes[:, None, :1]
                    + transferred_parameters[:, None, -1:] ** 2
                    + optimization_parameters[0, 0])
            kw['noise_amplitude_function'] = namp
        solver = sa.SchroedingerSMonteCarlo(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau_y,
            h_noise=s.ops(h_noise),
            noise_trace_generator=generator([noise]),
            initial_state=None if init is None else s.op(init),
            transfer_function=tf_over(over, n_ctrl),
            amplitude_function=amp_func(case['amp']), **kw)
        # every control word meets every noise word modulo the period
        for cw in cwords if ctx.tier == 'thorough' else \
                [cwords[(2 * n + 5 * j) % len(cwords)] for j in range(2)]:
            y = np.array([letters[i] for i in cw])
            solver.set_optimization_parameters(y)
            x = transferred(y, over)
            u = AMPS[case['amp']][0](x)
            eff = noise
            if kw:
                eff = noise * (1 + u[None, None, :, 0]
                               + x[None, None, :, -1] ** 2 + y[0, 0])
            derivs = n % 4 == 0 or ctx.tier == 'thorough'
            want = expected(system, h_noise, u, tau, eff, init_np, derivs)
            ctx.state((word, cw))
            ctx.step(n_x * n_traces)
            order = list(itertools.permutations(range(4)))[n % 24]
            for i in order:
                if i == 3 and not derivs:
                    continue
                ctx.close(getattr(solver, READS[i] + '_noise'), want[i],
                          'noisy ' + READS[i], tol=1e-8)
            quiet = m.propagators(system.drifts, system.ctrls, u, tau)
            ctx.close(solver.propagators, quiet, 'noise free propagators')
            ctx.close(solver.forward_propagators, m.forward(quiet, init_np),
                      'noise free forward propagators')
            ctx.trace(n_traces)


def _control(case, ctx):
    from qopt import solver_algorithms as sa
    n_ctrl, dim, slots = case['n_ctrl'], case['dim'], case['slots']
    over, n_traces = case['over'], case['n_traces']
    tau_y = s.taus(slots)
    tau = time_axis(tau_y, over)
    n_x = len(tau)
    system = s.System(ctx.seed, dim, n_ctrl, n_x, 'steps')
    letters = s.alphabet(n_ctrl, ctx.seed, 3)
    values = np.array([-.4, 0., .7])
    func = AMPS[case['amp']][0]
    for n, word in enumerate(itertools.product(range(3),
                                               repeat=n_ctrl * 2)):
        base = values[np.array(word).reshape(n_ctrl, 2)]
        noise = np.zeros((n_ctrl, n_traces, n_x))
        for k in range(n_traces):
            for t in range(n_x):
                noise[:, k, t] = base[:, (t + k) % 2] * (1 + k)
        solver = sa.SchroedingerSMCControlNoise(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau_y,
            noise_trace_generator=generator([noise]),
            transfer_function=tf_over(over, n_ctrl),
            amplitude_function=amp_func(case['amp']))
        for cw in list(s.words(letters, slots))[n % 3::3]:
            y = np.array([letters[i] for i in cw])
            solver.set_optimization_parameters(y)
            x = transferred(y, over)
            ctx.state((word, cw))
            ctx.step(n_x * n_traces)
            props = []
            for k in range(n_traces):
                u = func(x + noise[:, k, :].T)
                props.append(m.propagators(system.drifts, system.ctrls, u,
                                           tau))
            ctx.close(solver.propagators_noise, props,
                      'noise on the control parameters')
            ctx.close(solver.forward_propagators_noise,
                      [m.forward(p, np.eye(dim)) for p in props],
                      'noise on the control parameters, forward')
            ctx.close(solver.propagators,
                      m.propagators(system.drifts, system.ctrls, func(x),
                                    tau), 'noise free propagators')
            ctx.trace(n_traces)


def _many(case, ctx):
    from qopt import solver_algorithms as sa
    dim, n_traces, slots, n_noise = case['sizes']
    rng = s.rng_for(ctx.seed, 'c06many', dim)
    if case['solver'] == 'control':
        n_noise = 3
    h_noise = [m.herm(rng, dim) for _ in range(n_noise)]
    noise = .4 * rng.standard_normal((n_noise, n_traces, slots))
    # equal traces, traces without noise, slots without noise
    noise[:, 1] = noise[:, 0]
    noise[:, 2] = 0.
    noise[:, -1, slots // 2] = 0.
    system = s.System(ctx.seed, dim, 3, slots, 'steps')
    tau = s.taus(slots)
    kw = dict(h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
              noise_trace_generator=generator([noise]),
              processes=case['processes'])
    if case['solver'] == 'control':
        h_noise = system.ctrls
        solver = sa.SchroedingerSMCControlNoise(**kw)
    else:
        solver = sa.SchroedingerSMonteCarlo(h_noise=s.ops(h_noise), **kw)
    letters = s.alphabet(3, ctx.seed, 3)
    orders = [lambda k: range(k), lambda k: range(k)[::-1],
              lambda k: [(7 * i + 3) % k for i in range(k)]
              if k % 7 else range(k)]
    for word in s.long_words(3, slots):
        u = np.array([letters[i] for i in word])
        want = expected(system, h_noise, u, tau, noise, np.eye(dim),
                        case['processes'] == 1)
        for n, order in enumerate(orders):
            solver.set_optimization_parameters(u + 1)
            with pool.controlled(order):
                solver.set_optimization_parameters(u)
                for i in range(4):
                    if case['processes'] != 1 and i == 3:
                        continue
                    ctx.close(getattr(solver, READS[i] + '_noise'), want[i],
                              'many traces: noisy ' + READS[i], tol=1e-8)
            ctx.state((word, n))
            ctx.step(slots * n_traces)
            ctx.trace(n_traces)


def _setup(case, ctx, stack, redraw=False, deriv=False, grape=False):
    from qopt import solver_algorithms as sa
    system = s.System(ctx.seed, 2, 2, 2, 'steps')
    rng = s.rng_for(ctx.seed, 'c06pool')
    h_noise = [m.herm(rng, 2), m.herm(rng, 2)]
    gen = generator(stack, redraw)
    kw = dict(h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
              exponential_method=case.get('method'),
              tau=s.taus(2, case.get('grid')), noise_trace_generator=gen,
              processes=case.get('processes', 1))
    if case['solver'] == 'control':
        solver = sa.SchroedingerSMCControlNoise(**kw)
        h_noise = system.ctrls
    else:
        solver = sa.SchroedingerSMonteCarlo(
            h_noise=s.ops(h_noise),
            calculate_propagator_derivatives=deriv,
            frechet_deriv_approx_method='grape' if grape else None, **kw)
    return system, h_noise, gen, solver


PULSES = [np.array([[.3, -.7], [1.1, .4]]), np.array([[-.5, .2], [0., .9]])]


def _pool(case, ctx):
    rng = s.rng_for(ctx.seed, 'c06samples')
    n = case['n_traces']
    noise = .5 * rng.standard_normal((2, n, 2))
    tau = s.taus(2, case['grid'])
    for order in pool.all_orders(n):
        for fail in [None] + (list(range(n)) if order == tuple(range(n))
                              and case['processes'] != 1 else []):
            system, h_noise, gen, solver = _setup(case, ctx, [noise])
            want = [expected(system, h_noise, p, tau, noise,
                             np.eye(2), False) for p in PULSES]
            solver.set_optimization_parameters(PULSES[0])
            if fail is not None:
                with pool.controlled(lambda k: range(k), fail):
                    ctx.raises(lambda: solver.propagators_noise,
                               'a failing worker is reported',
                               pool.PoolFault)
                ctx.note('failing workers')
            with pool.controlled(lambda k: order[:k] if len(order) == k
                                 else range(k)) as log:
                for i, p in enumerate(PULSES):
                    solver.set_optimization_parameters(p)
                    ctx.close(solver.propagators_noise, want[i][0],
                              'traces in order for every schedule')
                    ctx.close(solver.forward_propagators_noise, want[i][1],
                              'forward for every schedule')
                    ctx.close(solver.reversed_propagators_noise, want[i][2],
                              'reversed for every schedule')
            ctx.state((order, fail))
            ctx.step(2 * n)
            ctx.trace()
            if log:
                ctx.note('scheduled pool runs', len(log))


def _methods(case, ctx):
    """The requested approximation of the exponential is used everywhere."""
    rng = s.rng_for(ctx.seed, 'c06samples')
    noise = .5 * rng.standard_normal((2, case['n_traces'], 2))
    tau = s.taus(2)
    terms = dict(first_order=2, second_order=3, third_order=4).get(
        case['method'], 40)

    def exp(a):
        out, term = np.eye(len(a)), np.eye(len(a))
        for k in range(1, terms):
            term = term @ a / k
            out = out + term
        return out
    for p in PULSES + [-PULSES[0]]:
        system, h_noise, gen, solver = _setup(case, ctx, [noise])
        solver.set_optimization_parameters(p)
        want = [[exp(-1j * tau[t] * (m.step_hamiltonian(
            system.drifts[t], system.ctrls, p[t]) + sum(
                noise[i, k, t] * h_noise[i] for i in range(2))))
            for t in range(2)] for k in range(case['n_traces'])]
        quiet = [exp(-1j * tau[t] * m.step_hamiltonian(
            system.drifts[t], system.ctrls, p[t])) for t in range(2)]
        with pool.controlled(lambda k: range(k)):
            ctx.close(solver.propagators_noise, want, 'noisy propagators by '
                      'the requested method')
            ctx.close(solver.forward_propagators_noise,
                      [m.forward(w, np.eye(2)) for w in want],
                      'noisy forward propagators by the requested method')
        ctx.close(solver.propagators, quiet,
                  'propagators by the requested method')
        ctx.state((p.tobytes(), case['method']))
        ctx.step(2 * case['n_traces'])
        ctx.trace()


def _real_pool(case, ctx):
    rng = s.rng_for(ctx.seed, 'c06samples')
    noise = .5 * rng.standard_normal((2, case['n_traces'], 2))
    system, h_noise, gen, solver = _setup(case, ctx, [noise])
    solver.set_optimization_parameters(PULSES[0])
    want = expected(system, h_noise, PULSES[0], s.taus(2, case['grid']),
                    noise, np.eye(2))
    ctx.close(solver.propagators_noise, want[0], 'real worker processes')
    ctx.close(solver.forward_propagators_noise, want[1],
              'real worker processes, forward')
    ctx.state('real')
    ctx.step(case['n_traces'])
    ctx.trace()


def _reads(case, ctx):
    """All results of one pulse stem from one realisation of the noise."""
    rng = s.rng_for(ctx.seed, 'c06samples')
    stack = [.5 * rng.standard_normal((2, 2, 2)) for _ in range(7)]
    kind = case['solver']
    names = [r + '_noise' for r in READS] + ['propagators',
                                             'forward_propagators']
    if kind == 'pool':
        names.remove('frechet_deriv_propagators_noise')
    sub = dict(case, processes=2) if kind == 'pool' else case
    memo = {}
    for order in itertools.permutations(names):
        system, h_noise, gen, solver = _setup(
            sub, ctx, stack, case['redraw'], deriv=kind == 'deriv',
            grape=kind == 'grape')
        used = []
        for p in PULSES + [PULSES[0]]:
            before = len(gen.drawn)
            solver.set_optimization_parameters(p)
            with pool.controlled(lambda k: range(k)):
                got = {name: getattr(solver, name) for name in order}
            match = []
            for k in range(len(stack)):
                key = (k, p.tobytes())
                if key not in memo:
                    memo[key] = expected(system, h_noise, p, s.taus(2),
                                         stack[k], np.eye(2))
                want = memo[key]
                if all(np.allclose(_arr(got[READS[i] + '_noise']), want[i])
                       for i in range(3)):
                    match.append(k)
                    if kind != 'grape' and kind != 'pool':
                        ctx.close(got[READS[3] + '_noise'], want[3],
                                  'derivatives of the same realisation',
                                  tol=1e-8)
            ctx.check(len(match) == 1, 'all results of one pulse stem from '
                      'one realisation', 'order %s' % (order,))
            if case['redraw']:
                ctx.check(match and match[0] in gen.drawn[before:],
                          'a new realisation is drawn for a new pulse',
                          'drawn %s, match %s' % (gen.drawn, match))
            else:
                ctx.check(gen.drawn == [0] and match == [0],
                          'a fixed realisation is drawn once',
                          'drawn %s' % gen.drawn)
            used += match
            ctx.state((order, len(used)))
            ctx.step(len(order))
        ctx.trace()


def _arr(x):
    from mc.core import to_array
    return to_array(x)


def _quasistatic(case, ctx):
    """The package's own generator in the solver; draws are recorded."""
    from qopt import noise, solver_algorithms as sa
    system = s.System(ctx.seed, 2, 2, 3, 'steps')
    rng = s.rng_for(ctx.seed, 'c06qs')
    h_noise = [m.herm(rng, 2) for _ in range(case['n_noise'])]
    np.random.seed(7)
    gen = noise.NTGQuasiStatic(
        standard_deviation=[.1 + .2 * i for i in range(case['n_noise'])],
        n_samples_per_trace=3, n_traces=case['n_traces'],
        always_redraw_samples=False, sampling_mode=case['mode'])
    solver = sa.SchroedingerSMonteCarlo(
        h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=s.taus(3),
        h_noise=s.ops(h_noise), noise_trace_generator=gen)
    for w in s.words(s.alphabet(2, ctx.seed, 3), 3):
        p = np.array([s.alphabet(2, ctx.seed, 3)[i] for i in w])
        solver.set_optimization_parameters(p)
        samples = gen.noise_samples
        want = expected(system, h_noise, p, s.taus(3), samples, np.eye(2))
        ctx.close(solver.forward_propagators_noise, want[1],
                  'quasi static noise')
        ctx.state(w)
        ctx.step(3)
        ctx.trace()
