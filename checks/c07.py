"""Values of the cost functions for every pulse, target and subspace.

Every cost function is read through the real solvers and compared with an
independent evaluation of its definition on the reference evolution."""
import contextlib
import io
import itertools

import types

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = ('all control words over the alphabet x cost function x every ordered '
        'choice of computational states x unitarisation / rescaling x target '
        '(fixed, reached, reached with a global phase); state = '
        '(configuration, word); each word is driven through the solver')
ASSUMPTIONS = ['dimensions 2 to 4', 'reference formulas by explicit sums']


def subspaces(dim, full):
    out = [None]
    for n in range(2, dim + 1):
        for c in itertools.permutations(range(dim), n):
            if not full and n == dim and c[0] > c[-1]:
                continue
            out.append(list(c))
    if dim == 4 and not full:
        out = [None] + [c for c in out[1:] if len(c) < 4][::2] + \
            [[0, 1, 2, 3], [2, 0, 3, 1]]
    return out


def cases(tier, seed):
    full = tier == 'thorough'
    out = []
    for dim in (2, 3, 4):
        for comp in subspaces(dim, full):
            for flag in (False, True):
                if comp is None and flag:
                    continue
                for kind in ('operation', 'state', 'noise', 'statenoise',
                             'super', 'leakage'):
                    if kind in ('super', 'leakage') and flag:
                        continue
                    if kind == 'leakage' and comp is None:
                        continue
                    if kind == 'super' and dim == 4 and not full and \
                            comp is not None and len(comp) > 3:
                        continue
                    out.append(dict(kind=kind, dim=dim, comp=comp,
                                    flag=flag))
    for dims in ([2, 2], [2, 3], [3, 2], [2, 2, 2], [4, 2], [2, 1, 3]):
        n = len(dims)
        for r in range(1, n):
            for remove in itertools.permutations(range(n), r):
                out.append(dict(kind='subspace', dims=dims,
                                remove=list(remove)))
    for mode in ('scalar', 'vector', 'rotation_axis'):
        out.append(dict(kind='norm', mode=mode))
    for dim in (2, 3):
        out.append(dict(kind='functions', dim=dim))
    for dim in (4, 5, 6):
        out.append(dict(kind='superop', dim=dim))
    out.append(dict(kind='angle-axis'))
    return out


def run(case, ctx):
    globals()['_' + case['kind'].replace('-', '_')](case, ctx)


def _targets(ctx, dim, reached):
    rng = s.rng_for(ctx.seed, 'target', dim)
    yield 'fixed', m.unitary(rng, dim)
    yield 'reached', reached
    yield 'phase', np.exp(.7j) * reached


def _system(ctx, case, depth=2):
    return s.System(ctx.seed, case['dim'], 2, depth, 'steps')


def _words(ctx):
    letters = s.alphabet(2, ctx.seed, 3)
    depth = 3 if ctx.tier == 'thorough' else 2
    for d in range(1, depth + 1):
        for w in s.words(letters, d):
            yield d, w, np.array([letters[i] for i in w])
    for w in itertools.islice(s.long_words(3), 1):
        yield len(w), w, np.array([letters[i] for i in w])


def _bounded(ctx, value, what):
    ctx.check(-1e-9 <= value <= 1 + 1e-9, what + ' between zero and one',
              value)


def _unit(ctx, value, what):
    """a single real number (a scalar or an array with one element)"""
    a = np.asarray(value)
    ctx.check(a.size == 1 and not np.iscomplexobj(a), what + ' is one real '
              'number', repr(value))
    return float(np.real(a.ravel()[0]))


def _operation(case, ctx):
    from qopt import cost_functions as cf
    from qopt import solver_algorithms as sa
    comp, flag = case['comp'], case['flag']
    dc = case['dim'] if comp is None else len(comp)
    for d, w, pulse in _words(ctx):
        system = _system(ctx, case, d)
        solver = sa.SchroedingerSolver(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=s.taus(d),
            calculate_propagator_derivatives=False)
        solver.set_optimization_parameters(pulse)
        total = m.forward(m.propagators(system.drifts, system.ctrls, pulse,
                                        s.taus(d)), np.eye(case['dim']))[-1]
        block = total if comp is None else total[np.ix_(comp, comp)]
        ctx.state(w)
        ctx.step(d)
        for name, target in _targets(ctx, dc, m.closest_unitary(block)):
            cost = cf.OperationInfidelity(
                solver=solver, target=s.op(target),
                computational_states=comp, map_to_closest_unitary=flag)
            value = _unit(ctx, cost.costs(), 'infidelity')
            want = 1 - m.entanglement_fidelity(target, total, comp, flag)
            ctx.close(value, want, 'entanglement infidelity ' + name)
            _bounded(ctx, value, 'entanglement infidelity')
            if name != 'fixed' and (comp is None or flag
                                    or len(comp) == case['dim']):
                ctx.close(value, 0, 'no infidelity at the target up to a '
                          'global phase')
            ctx.close(cf.entanglement_fidelity(target, total, comp, flag),
                      1 - want, 'fidelity of arrays')
        ctx.trace()


def _state(case, ctx):
    from qopt import cost_functions as cf
    from qopt import solver_algorithms as sa
    comp, flag = case['comp'], case['flag']
    dim = case['dim']
    dc = dim if comp is None else len(comp)
    rng = s.rng_for(ctx.seed, 'init', dim)
    init = m.ket(rng, dim)
    for d, w, pulse in _words(ctx):
        system = _system(ctx, case, d)
        solver = sa.SchroedingerSolver(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=s.taus(d),
            calculate_propagator_derivatives=False, initial_state=s.op(init))
        solver.set_optimization_parameters(pulse)
        psi = m.forward(m.propagators(system.drifts, system.ctrls, pulse,
                                      s.taus(d)), init)[-1]
        part = psi if comp is None else psi[comp]
        reached = part / np.linalg.norm(part)
        ctx.state(w)
        ctx.step(d)
        for name, target in (('fixed', m.ket(rng, dc)),
                             ('reached', reached),
                             ('phase', np.exp(1.1j) * reached)):
            want = 1 - m.state_fidelity(target.conj().T, psi, comp, flag)
            for form in (target, target.conj().T):
                cost = cf.StateInfidelity(
                    solver=solver, target=s.op(form),
                    computational_states=comp, rescale_propagated_state=flag)
                value = _unit(ctx, cost.costs(), 'state infidelity')
                ctx.close(value, want, 'state infidelity ' + name)
                _bounded(ctx, value, 'state infidelity')
            if name != 'fixed' and (comp is None or flag):
                ctx.close(value, 0, 'no infidelity at the target state up to '
                          'a phase')
            ctx.close(cf.state_fidelity(target.conj().T.copy(), psi, comp,
                                        flag), 1 - want,
                      'state fidelity of arrays')
        ctx.close(solver.forward_propagators[-1], psi,
                  'the evaluation leaves the state unaltered')
        ctx.trace()


def _noisy(case, ctx, init=None):
    from checks.c06 import generator, expected
    from qopt.noise import NTGQuasiStatic
    from qopt import solver_algorithms as sa
    dim = case['dim']
    rng = s.rng_for(ctx.seed, 'c07n', dim)
    h_noise = [m.herm(rng, dim) for _ in range(2)]
    for (d, w, pulse), kind in itertools.product(
            _words(ctx), ('given', 'deterministic', 'random')):
        n_traces = 70 if d == s.LONG else 1 + (sum(w) + d) % 3
        noise = .4 * rng.standard_normal((2, n_traces, d))
        if n_traces > 2:
            # equal traces and one without noise
            noise[:, 1] = noise[:, 0]
            noise[:, -1] = 0.
        gen = generator([noise])
        if kind != 'given':
            if d > 1 and (sum(w) + dim) % 2:
                continue
            gen = NTGQuasiStatic(
                [.3, .5], n_samples_per_trace=d, n_traces=n_traces + 1,
                always_redraw_samples=False,
                correct_std_for_discrete_sampling=False,
                sampling_mode='monte_carlo' if kind == 'random'
                else 'uncorrelated_deterministic')
            noise = np.array(gen.noise_samples)
        system = _system(ctx, case, d)
        solver = sa.SchroedingerSMonteCarlo(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=s.taus(d),
            h_noise=s.ops(h_noise), noise_trace_generator=gen,
            initial_state=None if init is None else s.op(init))
        solver.set_optimization_parameters(pulse)
        start = np.eye(dim) if init is None else init
        quiet = m.forward(m.propagators(system.drifts, system.ctrls, pulse,
                                        s.taus(d)), start)[-1]
        fwd = expected(system, h_noise, pulse, s.taus(d), noise, start,
                       False)[1]
        ctx.state(w)
        ctx.step(noise.shape[1] * d)
        ctx.trace(noise.shape[1])
        yield d, w, solver, quiet, [f[-1] for f in fwd]


def _noise(case, ctx):
    from qopt import cost_functions as cf
    comp, flag, dim = case['comp'], case['flag'], case['dim']
    dc = dim if comp is None else len(comp)
    rng = s.rng_for(ctx.seed, 'noisetarget')
    target = m.unitary(rng, dc)
    for d, w, solver, quiet, finals in _noisy(case, ctx):
        for neglect in (True, False):
            for tgt in (target, None):
                goal = target
                if neglect or tgt is None:
                    goal = quiet if comp is None else quiet[np.ix_(comp,
                                                                   comp)]
                    if flag and comp is not None:
                        goal = m.closest_unitary(goal)
                want = np.mean([1 - m.entanglement_fidelity(
                    goal, f, comp, flag) for f in finals])
                cost = cf.OperationNoiseInfidelity(
                    solver=solver, target=None if tgt is None else
                    s.op(tgt), computational_states=comp,
                    map_to_closest_unitary=flag,
                    neglect_systematic_errors=neglect)
                value = _unit(ctx, cost.costs(), 'noise infidelity')
                ctx.close(value, want, 'mean infidelity of all traces')
                _bounded(ctx, value, 'noise infidelity')
        sup = sum(np.kron(f.conj(), f) for f in finals) / len(finals)
        cost = cf.LiouvilleMonteCarloEntanglementInfidelity(
            solver=solver, target=s.op(target), computational_states=comp)
        value = _unit(ctx, cost.costs(), 'Liouville infidelity')
        ctx.close(value, 1 - m.entanglement_fidelity_super(target, sup, comp),
                  'infidelity of the averaged channel')
        if comp is None or not flag:
            ctx.close(value, np.mean([1 - m.entanglement_fidelity(
                target, f, comp, False) for f in finals]),
                'the averaged channel has the mean infidelity')


def _statenoise(case, ctx):
    from qopt import cost_functions as cf
    comp, flag, dim = case['comp'], case['flag'], case['dim']
    dc = dim if comp is None else len(comp)
    rng = s.rng_for(ctx.seed, 'statetarget')
    target = m.ket(rng, dc)
    init = m.ket(rng, dim)
    for d, w, solver, quiet, finals in _noisy(case, ctx, init):
        for neglect in (True, False):
            for tgt in (target, target.conj().T, None):
                goal = target.conj().T
                if neglect or tgt is None:
                    goal = quiet if comp is None else quiet[comp]
                    if flag and comp is not None:
                        goal = goal / np.linalg.norm(goal)
                    goal = goal.conj().T
                want = np.mean([1 - m.state_fidelity(goal, f, comp, flag)
                                for f in finals])
                cost = cf.StateNoiseInfidelity(
                    solver=solver, target=None if tgt is None else
                    s.op(tgt), computational_states=comp,
                    rescale_propagated_state=flag,
                    neglect_systematic_errors=neglect)
                value = _unit(ctx, cost.costs(), 'state noise infidelity')
                ctx.close(value, want, 'mean state infidelity of all traces')
                _bounded(ctx, value, 'state noise infidelity')


def _super(case, ctx):
    from qopt import cost_functions as cf
    from qopt import solver_algorithms as sa
    comp, dim = case['comp'], case['dim']
    dc = dim if comp is None else len(comp)
    rng = s.rng_for(ctx.seed, 'c07super', dim)
    target = m.unitary(rng, dc)
    lind = [.3 * m.general(rng, dim), .2 * m.general(rng, dim)]
    for d, w, pulse in _words(ctx):
        if dim == 4 and d > 1 and sum(w) % 3:
            continue
        system = _system(ctx, case, d)
        for strength in (0., 1.):
            solver = sa.LindbladSolver(
                h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
                tau=s.taus(d),
                lindblad_operators=[s.op(strength * x) for x in lind])
            solver.set_optimization_parameters(pulse)
            sup = np.eye(dim ** 2)
            uni = np.eye(dim)
            for t in range(d):
                h = m.step_hamiltonian(system.drifts[t], system.ctrls,
                                       pulse[t])
                g = m.liouvillian(h) + strength ** 2 * sum(
                    m.dissipator(x) for x in lind)
                sup = m.expm(g * s.taus(d)[t]) @ sup
                uni = m.expm(-1j * h * s.taus(d)[t]) @ uni
            ctx.state((w, strength))
            ctx.step(d)
            block = uni if comp is None else uni[np.ix_(comp, comp)]
            for name, goal in (('fixed', target),
                               ('reached', m.closest_unitary(block)),
                               ('phase', 1j * m.closest_unitary(block))):
                cost = cf.OperationInfidelity(
                    solver=solver, target=s.op(goal),
                    super_operator_formalism=True,
                    computational_states=comp)
                value = _unit(ctx, cost.costs(), 'super operator infidelity')
                ctx.close(value, 1 - m.entanglement_fidelity_super(
                    goal, sup, comp), 'super operator infidelity')
                _bounded(ctx, value, 'super operator infidelity')
                if not strength:
                    ctx.close(value, 1 - m.entanglement_fidelity(
                        goal, uni, comp), 'agrees with the unitary '
                        'infidelity without dissipation')
            if comp is not None:
                cost = cf.LeakageLiouville(solver=solver,
                                           computational_states=comp)
                value = _unit(ctx, cost.costs(), 'leakage')
                ctx.close(value, _leak(sup, dim, comp), 'leakage of the '
                          'open system')
                _bounded(ctx, value, 'leakage')
            ctx.trace()


def _leak(sup, dim, comp):
    rho = np.zeros((dim, dim), dtype=complex)
    for i in comp:
        rho[i, i] = 1. / len(comp)
    out = m.unvec(sup @ m.vec(rho))
    return sum(out[i, i] for i in range(dim) if i not in comp).real \
        if len(comp) < dim else 0.


def _leakage(case, ctx):
    from qopt import cost_functions as cf
    comp, dim = case['comp'], case['dim']
    for d, w, solver, quiet, finals in _noisy(case, ctx):
        def leak(u):
            b = u[np.ix_(comp, comp)]
            return 1 - np.trace(b.conj().T @ b).real / len(comp)
        value = _unit(ctx, cf.LeakageError(
            solver=solver, computational_states=comp).costs(), 'leakage')
        ctx.close(value, leak(quiet), 'coherent leakage')
        _bounded(ctx, value, 'leakage')
        value = _unit(ctx, cf.IncoherentLeakageError(
            solver=solver, computational_states=comp).costs(), 'leakage')
        ctx.close(value, np.mean([leak(f) for f in finals]),
                  'mean leakage of all traces')
        _bounded(ctx, value, 'leakage')
        value = _unit(ctx, cf.LeakageLiouville(
            solver=solver, computational_states=comp,
            input_unitary=True).costs(), 'leakage')
        ctx.close(value, leak(quiet), 'leakage in the Liouville formalism')
        value = _unit(ctx, cf.LeakageLiouville(
            solver=solver, computational_states=comp, input_unitary=True,
            monte_carlo=True).costs(), 'leakage')
        ctx.close(value, np.mean([leak(f) for f in finals]),
                  'mean leakage in the Liouville formalism')
        sups = [np.kron(f.conj(), f) for f in finals]
        sups.append(.5 * (sups[0] + np.kron(quiet.conj(), quiet)))
        given = types.SimpleNamespace(
            h_ctrl=solver.h_ctrl, forward_propagators_noise=[
                [s.op(np.eye(dim ** 2)), s.op(x)] for x in sups])
        value = _unit(ctx, cf.LeakageLiouville(
            solver=given, computational_states=comp,
            monte_carlo=True).costs(), 'leakage')
        ctx.close(value, np.mean([_leak(x, dim, comp) for x in sups]),
                  'mean leakage of given channels')
        ctx.close(_leak(np.kron(quiet.conj(), quiet), dim, comp),
                  leak(quiet), 'definitions of the leakage agree')


def _subspace(case, ctx):
    from qopt import cost_functions as cf
    from qopt import solver_algorithms as sa
    dims, remove = case['dims'], case['remove']
    dim = int(np.prod(dims))
    keep = [i for i in range(len(dims)) if i not in remove]
    dk = int(np.prod([dims[i] for i in keep]))
    rng = s.rng_for(ctx.seed, 'c07sub', dims, remove)
    init = m.ket(rng, dim)
    target = m.ket(rng, dk)
    for d, w, pulse in _words(ctx):
        system = s.System(ctx.seed, dim, 2, d, 'steps')
        solver = sa.SchroedingerSolver(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=s.taus(d),
            calculate_propagator_derivatives=False, initial_state=s.op(init))
        solver.set_optimization_parameters(pulse)
        psi = m.forward(m.propagators(system.drifts, system.ctrls, pulse,
                                      s.taus(d)), init)[-1]
        rho = m.ptrace(psi @ psi.conj().T, dims, remove)
        want = 1 - (target.conj().T @ rho @ target)[0, 0].real
        ctx.state(w)
        ctx.step(d)
        for form in (target, target.conj().T):
            if dk == 1:
                continue
            cost = cf.StateInfidelitySubspace(solver=solver,
                                              target=s.op(form), dims=dims,
                                              remove=list(remove))
            value = _unit(ctx, cost.costs(), 'subspace infidelity')
            ctx.close(value, want, 'infidelity in the subspace')
            _bounded(ctx, value, 'subspace infidelity')
        # density matrices, square and stacked in columns
        mixed = .7 * psi @ psi.conj().T + .3 * np.eye(dim) / dim
        want = (target.conj().T @ m.ptrace(mixed, dims, remove)
                @ target)[0, 0].real
        for state in (mixed, m.vec(mixed)):
            got = cf.state_fidelity_subspace(
                s.op(target.conj().T), s.op(state), dims, list(remove))
            ctx.close(got, want, 'subspace fidelity of a density matrix')
            given, bra = state.copy(), target.conj().T.copy()
            got = cf.state_fidelity_subspace(bra, given, dims, list(remove))
            ctx.close(got, want, 'subspace fidelity of arrays')
            ctx.check(np.array_equal(given, state)
                      and np.array_equal(bra, target.conj().T),
                      'the arrays are not altered')
        # inaccurate density matrices, whose overlap is not real
        rough = mixed + .1j * np.eye(dim)
        over = (target.conj().T @ m.ptrace(rough, dims, remove)
                @ target)[0, 0]
        with contextlib.redirect_stdout(io.StringIO()):
            got = cf.state_fidelity_subspace(
                s.op(target.conj().T), s.op(rough), dims, list(remove))
        ctx.close(got, np.abs(over), 'absolute value of a complex overlap')
        ctx.trace()


def _norm(case, ctx):
    from qopt import cost_functions as cf
    from qopt import solver_algorithms as sa
    mode = case['mode']
    dims = (2,) if mode == 'rotation_axis' else (2, 3)
    for dim in dims:
        rng = s.rng_for(ctx.seed, 'c07norm', dim)
        target = m.unitary(rng, dim)
        target = target * np.exp(-1j * np.angle(target[0, 0]))
        for d, w, pulse in _words(ctx):
            system = s.System(ctx.seed, dim, 2, d, 'steps')
            solver = sa.SchroedingerSolver(
                h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
                tau=s.taus(d), calculate_propagator_derivatives=False)
            solver.set_optimization_parameters(pulse)
            u = m.forward(m.propagators(system.drifts, system.ctrls, pulse,
                                        s.taus(d)), np.eye(dim))[-1]
            v = u * np.exp(-1j * np.angle(u[0, 0]))
            value = cf.OperatorMatrixNorm(solver=solver,
                                          target=s.op(target),
                                          mode=mode).costs()
            ctx.state((dim, w))
            ctx.step(d)
            if mode == 'scalar':
                ctx.close(value, np.sum(np.abs(v - target)), 'norm distance')
            elif mode == 'vector':
                diff = (v - target).flatten()
                ctx.close(value, np.concatenate((diff.real, diff.imag)),
                          'matrix elements of the distance')
            else:
                ctx.close(value, _rotation(target) - _rotation(u),
                          'rotation vectors', tol=1e-6)
            ctx.trace()


def _rotation(u):
    """Rotation vector beta n with beta in [0, pi], by the adjoint action."""
    paulis = [m.SX, m.SY, m.SZ]
    r = np.array([[np.trace(a @ u @ b @ u.conj().T).real / 2 for b in paulis]
                  for a in paulis])
    axis = np.array([r[2, 1] - r[1, 2], r[0, 2] - r[2, 0],
                     r[1, 0] - r[0, 1]]) / 2
    sin = np.linalg.norm(axis)
    cos = (np.trace(r) - 1) / 2
    beta = np.arctan2(sin, cos)
    # convention of the package: exp(+i beta / 2 n sigma)
    return -axis / sin * beta if sin > 1e-9 else 0 * axis


def _angle_axis(case, ctx):
    from qopt import cost_functions as cf
    for k in range(200):
        # multiples of the identity with the rounding of a phase
        for scale in (1., 1 - 4e-16, 1 + 4e-16):
            u = np.exp(.0314 * k * 1j) * scale * np.eye(2)
            beta, axis = cf.angle_axis_representation(u)
            ctx.state(('identity', k, scale))
            ctx.step()
            ctx.close(min(beta, 2 * np.pi - beta), 0., 'no rotation',
                      tol=1e-5)
            ctx.close(np.linalg.norm(axis), 1., 'normalised axis')
    axes = [np.array(a, dtype=float) for a in itertools.product(
        (-1, 0, 1), repeat=3) if any(a)]
    for n in axes:
        n = n / np.linalg.norm(n)
        gen = n[0] * m.SX + n[1] * m.SY + n[2] * m.SZ
        for k in range(0, 49):
            angle = (k // 2) * np.pi / 12 + .02 * (k % 2)
            if k > 44:
                angle = 10. ** (43 - k)
            for phase in (0., .5, np.pi / 2, -2.):
                u = np.exp(1j * phase) * m.expm(1j * angle / 2 * gen)
                beta, axis = cf.angle_axis_representation(u)
                ctx.state((n, k, phase))
                ctx.step()
                ctx.check(-1e-9 <= beta <= np.pi + 1e-9,
                          'rotation angle between zero and pi', beta)
                back = m.expm(1j * beta / 2 * (axis[0] * m.SX + axis[1] * m.SY
                                               + axis[2] * m.SZ))
                ctx.close(np.abs(np.trace(back.conj().T @ u)) / 2, 1.,
                          'axis and angle describe the unitary', tol=1e-7)
                ctx.close(np.linalg.norm(axis), 1., 'normalised axis',
                          tol=1e-9 if angle > .01 else 1e-5)
                given = s.op(u)
                beta2, axis2 = cf.angle_axis_representation(given)
                ctx.close(np.append(axis2, beta2), np.append(axis, beta),
                          'operators and arrays')
                ctx.check(np.array_equal(given.data, u),
                          'the operator is not altered')
                ctx.trace()
                if k % 6 == 0:
                    for bad in (1.3 * u, u + np.diag([0, .3]),
                                u + np.diag([.3, 0]),
                                u @ np.array([[1, .2], [0, 1]])):
                        ctx.raises(lambda: cf.angle_axis_representation(bad),
                                   'a matrix that is not unitary is refused')


def _superop(case, ctx):
    """Fidelities of super operators, for larger subspaces."""
    from qopt import cost_functions as cf
    dim = case['dim']
    rng = s.rng_for(ctx.seed, 'c07o', dim)
    full = s.op(m.unitary(rng, dim))
    sup = np.kron(full.data.conj(), full.data)
    other = m.unitary(rng, dim)
    sup = .7 * sup + .3 * np.kron(other.conj(), other)
    for n in range(2, dim + 1):
        comps = list(itertools.permutations(range(dim), n))
        for comp in comps[::max(1, len(comps) // 11)]:
            comp = list(comp)
            goal = m.unitary(rng, n)
            ctx.state(comp)
            ctx.step()
            want = m.entanglement_fidelity_super(goal, sup, comp)
            ctx.close(cf.entanglement_fidelity_super_operator(
                s.op(goal), s.op(sup), comp), want,
                'fidelity of super operators in a subspace')
            ctx.close(cf.entanglement_fidelity_super_operator(
                goal, sup, computational_states=comp), want,
                'fidelity of super operators in a subspace, as arrays')
            ctx.trace()


def _functions(case, ctx):
    from qopt import cost_functions as cf
    dim = case['dim']
    rng = s.rng_for(ctx.seed, 'c07f', dim)
    us = [np.eye(dim, dtype=complex)] + [m.unitary(rng, dim)
                                         for _ in range(6)]
    for i, u in enumerate(us):
        for j, v in enumerate(us):
            ctx.state((i, j))
            ctx.step()
            want = np.abs(np.trace(u.conj().T @ v)) ** 2 / dim ** 2
            ctx.close(cf.entanglement_fidelity(s.op(u), s.op(v)), want,
                      'entanglement fidelity')
            ctx.close(cf.entanglement_fidelity_super_operator(
                s.op(u), s.op(np.kron(v.conj(), v))), want,
                'fidelity of super operators')
            ctx.close(cf.entanglement_fidelity_super_operator(
                u, np.kron(v.conj(), v)), want,
                'fidelity of super operators as arrays')
            if dim == 2:
                ctx.close(np.real(cf.averge_gate_fidelity(s.op(u), s.op(v))),
                          (dim * want + 1) / (dim + 1),
                          'average gate fidelity')
            ctx.trace()
