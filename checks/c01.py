"""Coherent propagation: the solver as a transition system over control words.

Model: state = unitary after a prefix of the control word; transition = one
time slot.  All words over a finite amplitude alphabet up to the depth are
explored and replayed on the implementation."""
import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = ('all control words over a finite alphabet of amplitude vectors up to '
        'the depth, for every configuration of dimension, controls, form of '
        'the drift, unit system, initial state, exponential method, time grid and '
        'derivative flag; non-trivial: expected value is not all zero')
ASSUMPTIONS = ['operators are dense; amplitudes from a finite alphabet',
               'reference exponential: own scaling-and-squaring series']


def cases(tier, seed):
    out = []
    thorough = tier == 'thorough'
    depths = (1, 2, 3, 4) if thorough else (1, 2, 3)
    for dim, special in ((2, None), (2, 'pauli'), (3, None), (4, None),
                         (3, 'degenerate')):
        for n_ctrl in (1, 2, 3):
            for drift in ('operator', 'single', 'steps', 'none'):
                for init in ('default', 'unitary', 'ket'):
                    for method in (None, 'Frechet', 'spectral', 'approx'):
                        # the derivative flag, grid, and splitting are
                        # explored below; prune only the redundant product
                        if not thorough:
                            if dim == 4 and drift not in ('steps', 'none'):
                                continue
                            if special and init == 'unitary':
                                continue
                        out.append(dict(dim=dim, special=special,
                                        n_ctrl=n_ctrl, drift=drift,
                                        init=init, method=method,
                                        depths=list(depths)))
    return out


def run(case, ctx):
    from qopt.solver_algorithms import SchroedingerSolver
    seed = ctx.seed
    n_ctrl, dim = case['n_ctrl'], case['dim']
    letters = s.alphabet(n_ctrl, seed, 3)
    letters.append(letters[1] * 4.)
    letters.append(-letters[1])           # words in which a control sums to 0
    rng = s.rng_for(seed, 'init', dim)
    init = None
    if case['init'] == 'unitary':
        init = m.unitary(rng, dim)
    elif case['init'] == 'ket':
        init = m.ket(rng, dim)
    init_np = np.eye(dim) if init is None else init
    for depth in case['depths']:
        system = s.System(seed, dim, n_ctrl, depth, case['drift'],
                          case['special'])
        for grid in ('uneven', 'uniform', 'close') if depth > 1 \
                else ('uneven',):
            tau = s.taus(depth, grid)
            for deriv in (True, False):
                if deriv != (depth % 2 == 0) and depth > 2:
                    continue
                solver = SchroedingerSolver(
                    h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
                    tau=tau if deriv else list(tau),
                    initial_state=None if init is None else s.op(init),
                    calculate_propagator_derivatives=deriv,
                    exponential_method=case['method'])
                alph = letters if depth <= 2 else \
                    letters[:3] + letters[-1:] if grid == 'uneven' else \
                    letters[1:3] + letters[-1:]
                for word in s.words(alph, depth):
                    pulse = np.array([alph[i] for i in word])
                    _one(ctx, solver, system, pulse, tau, init_np,
                         (depth, grid, deriv, word))
        _split(ctx, case, system, letters, s.taus(depth), init)
    _long(ctx, case, letters, init, init_np)
    _units(ctx, case, letters, init, init_np)
    _initial(ctx, case, letters, init, init_np)
    _refused(ctx, case, letters, init, init_np)
    _weak(ctx, case, letters, init)


def _weak(ctx, case, letters, init):
    """Evolutions by small angles."""
    from qopt.solver_algorithms import SchroedingerSolver
    for depth in (1, 2):
        system = s.System(ctx.seed, case['dim'], case['n_ctrl'], depth,
                          case['drift'], case['special'])
        for unit in (1e-5, 1e-7):
            tau = s.taus(depth) * unit
            solver = SchroedingerSolver(
                h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
                initial_state=None if init is None else s.op(init),
                calculate_propagator_derivatives=unit > 1e-6,
                exponential_method=case['method'])
            for word in s.words(letters[:3], depth):
                pulse = np.array([letters[i] for i in word])
                solver.set_optimization_parameters(pulse)
                props = m.propagators(system.drifts, system.ctrls, pulse,
                                      tau)
                ctx.close(solver.propagators, props,
                          'propagators of short slots', tol=1e-11)
                ctx.close(solver.reversed_propagators, m.backward(props),
                          'reversed propagators of short slots', tol=1e-11)
                ctx.step(depth)


def _refused(ctx, case, letters, init, init_np):
    """Inconsistent systems are refused."""
    from qopt.solver_algorithms import SchroedingerSolver
    dim, n_ctrl = case['dim'], case['n_ctrl']
    for depth in (2, 3):
        system = s.System(ctx.seed, dim, n_ctrl, depth, case['drift'],
                          case['special'])
        tau = s.taus(depth)
        kw = dict(initial_state=None if init is None else s.op(init),
                  exponential_method=case['method'])
        good = dict(h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
                    tau=tau)
        rng = s.rng_for(ctx.seed, 'c01 bad', dim)
        extra = m.herm(rng, dim)
        big = m.herm(rng, dim + 1)

        def bad(why, **change):
            args = dict(good, **change)
            ctx.step()
            ctx.raises(lambda: SchroedingerSolver(
                **args, **kw), why)
        for n in range(2, depth + 3):
            if n != depth:
                bad('number of drifts %d' % n, h_drift=s.ops([extra] * n))
        bad('drift of another dimension', h_drift=s.ops([big]))
        bad('drift of another dimension',
            h_drift=s.ops([extra] * (depth - 1) + [big]))
        bad('control of another dimension',
            h_ctrl=system.h_ctrl() + s.ops([big]))
        bad('control that is not square',
            h_ctrl=s.ops([np.ones((dim, dim + 1))] + system.ctrls[1:]))
        bad('drift that is not square',
            h_drift=s.ops([np.ones((dim, dim + 1))]))


def _initial(ctx, case, letters, init, init_np):
    """Control amplitudes handed to the constructor; none at all."""
    from qopt.solver_algorithms import SchroedingerSolver
    for depth in (1, 2):
        system = s.System(ctx.seed, case['dim'], case['n_ctrl'], depth,
                          case['drift'], case['special'])
        tau = s.taus(depth)
        kw = dict(h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
                  initial_state=None if init is None else s.op(init),
                  exponential_method=case['method'])
        for word in s.words(letters[:3], depth):
            pulse = np.array([letters[i] for i in word])
            for first in (('propagators', 'forward_propagators',
                           'reversed_propagators')[sum(word) % 3],):
                solver = SchroedingerSolver(ctrl_amps=pulse, **kw)
                getattr(solver, first)
                props = m.propagators(system.drifts, system.ctrls, pulse, tau)
                ctx.close(solver.propagators, props,
                          'propagators of the initial amplitudes')
                ctx.close(solver.forward_propagators,
                          m.forward(props, init_np),
                          'forward propagators of the initial amplitudes')
                ctx.close(solver.reversed_propagators, m.backward(props),
                          'reversed propagators of the initial amplitudes')
                ctx.step(depth)
            _one(ctx, solver, system, pulse[::-1] + .1, tau, init_np,
                 (depth, 'initial', 'then', word))
        for first in ('propagators', 'forward_propagators',
                      'reversed_propagators', 'frechet_deriv_propagators'):
            solver = SchroedingerSolver(**kw)
            ctx.raises(lambda: getattr(solver, first),
                       'nothing is computed without a pulse')


def _one(ctx, solver, system, pulse, tau, init, key):
    solver.set_optimization_parameters(pulse)
    props = m.propagators(system.drifts, system.ctrls, pulse, tau)
    fwd = m.forward(props, init)
    rev = m.backward(props)
    for t in range(len(tau)):
        ctx.state((key[:3], key[3][:t + 1]))
        ctx.step()
    # the order of the first read alternates over the words
    if sum(key[3]) % 2:
        got_rev = solver.reversed_propagators
        got_fwd = solver.forward_propagators
    else:
        got_fwd = solver.forward_propagators
        got_rev = solver.reversed_propagators
    got = solver.propagators
    ctx.close(got, props, 'propagators')
    ctx.close(got_fwd, fwd, 'forward propagators')
    ctx.close(got_rev, rev, 'reversed propagators')
    d = system.dim
    for p in got:
        ctx.close(p.data @ p.data.conj().T, np.eye(d), 'unitarity')
    for f in got_fwd:
        ctx.close(f.data.conj().T @ f.data, init.conj().T @ init,
                  'norm conservation')
    for i in range(len(tau) + 1):
        ctx.close(got_rev[i].data @ got_fwd[len(tau) - i].data,
                  fwd[-1], 'reversed times forward is the total evolution')
    ctx.trace()


def _split(ctx, case, system, letters, tau, init):
    """Splitting every slot in two halves does not change the evolution."""
    from qopt.solver_algorithms import SchroedingerSolver
    depth = len(tau)
    pulse = np.array([letters[(i + 1) % 3] for i in range(depth)])
    totals = []
    for n in (1, 2):
        drift = system.h_drift()
        if isinstance(drift, list) and len(drift) == depth and depth > 0 \
                and system.drift == 'steps':
            drift = [x for x in drift for _ in range(n)]
        solver = SchroedingerSolver(
            h_drift=drift, h_ctrl=system.h_ctrl(),
            tau=np.repeat(tau, n) / n,
            initial_state=None if init is None else s.op(init),
            exponential_method=case['method'])
        solver.set_optimization_parameters(np.repeat(pulse, n, axis=0))
        totals.append(solver.forward_propagators[-1])
        ctx.step(n * depth)
    ctx.close(totals[1], totals[0].data, 'splitting of time slots')
    ctx.trace()


def _units(ctx, case, letters, init, init_np):
    """Numbers of any magnitude: the same physics in other units."""
    from qopt.solver_algorithms import SchroedingerSolver
    for unit in s.UNITS:
        for depth in (1, 3):
            system = s.System(ctx.seed, case['dim'], case['n_ctrl'], depth,
                              case['drift'], case['special']).in_units(unit)
            tau = s.taus(depth) * unit[2]
            solver = SchroedingerSolver(
                h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
                initial_state=None if init is None else s.op(init),
                exponential_method=case['method'])
            for word in s.words(letters[1:3], depth):
                pulse = np.array([letters[1:3][i] for i in word]) * unit[0]
                _one(ctx, solver, system, pulse, tau, init_np,
                     (depth, unit, 'units', word))


def _long(ctx, case, letters, init, init_np):
    """One long word with every ordered pair of letters, strong amplitudes,
    and time slots of very different length including an empty one."""
    from qopt.solver_algorithms import SchroedingerSolver
    debruijn = [0, 0, 1, 0, 2, 0, 3, 1, 1, 2, 1, 3, 2, 2, 3, 3, 0]
    depth = len(debruijn)
    system = s.System(ctx.seed, case['dim'], case['n_ctrl'], depth,
                      case['drift'], case['special'])
    tau = np.array([(.05, .4, 2., 0., 1.)[i % 5] for i in range(depth)])
    solver = SchroedingerSolver(
        h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
        initial_state=None if init is None else s.op(init),
        exponential_method=case['method'])
    for scale in (1., 12.):
        pulse = scale * np.array([letters[i] for i in debruijn])
        _one(ctx, solver, system, pulse, tau, init_np,
             (depth, 'long', scale, tuple(debruijn)))
        bare = SchroedingerSolver(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
            initial_state=None if init is None else s.op(init),
            calculate_propagator_derivatives=False,
            exponential_method=case['method'])
        bare.set_optimization_parameters(pulse)
        props = m.propagators(system.drifts, system.ctrls, pulse, tau)
        ctx.close(bare.propagators, props,
                  'propagators of long pulses, without derivatives')
        ctx.close(bare.forward_propagators, m.forward(props, init_np),
                  'forward propagators of long pulses, without derivatives')
