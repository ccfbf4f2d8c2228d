"""Exact derivatives of the propagators for every control word and slot."""
import numpy as np

from checks import c04
from mc import models as m
from mc import systems as s

PROPERTY = 'C05'
LEVEL = 'model_checking'
RULE = ('all control words up to the depth x dimension x number of controls '
        'x drift x derivative method x eager/lazy x order of reads, for '
        'closed, noisy and open systems; each derivative [control][slot] is '
        'compared with a block matrix exponential')
ASSUMPTIONS = ['"approx" is a finite difference: tolerance 1e-4',
               'the grape approximation is compared with its first order '
               'formula']


def cases(tier, seed):
    return _cases(tier, seed) + [dict(kind='unknown')]


def _cases(tier, seed):
    out = []
    full = tier == 'thorough'
    for dim, special in ((2, None), (2, 'pauli'), (3, None),
                         (3, 'degenerate'), (4, None), (2, 'degenerate')):
        for n_ctrl in (1, 2, 3):
            for drift in ('operator', 'steps', 'none'):
                for method in (None, 'spectral', 'approx', 'grape'):
                    for eager in (True, False):
                        if dim == 4 and not full and n_ctrl == 3:
                            continue
                        out.append(dict(
                            kind='closed', dim=dim, special=special,
                            n_ctrl=n_ctrl, drift=drift, method=method,
                            eager=eager, depth=4 if full and dim < 4 else 3
                            if dim < 4 else 2))
    for dim in (2, 3):
        for n_ctrl in (1, 2, 3):
            for method in (None, 'spectral', 'grape', 'approx'):
                for eager in (True, False):
                    out.append(dict(kind='noise', dim=dim, special=None,
                                    n_ctrl=n_ctrl, drift='steps',
                                    method=method, eager=eager,
                                    depth=3 if full else 2))
    for dim in (2, 3):
        for n_ctrl in (1, 2, 3):
            for n_l in (1, 2, 3):
                for spec in ('lindblad', 'lindblad-pf', 'superops-pf',
                             'function', 'zero'):
                    for method in (None, 'spectral', 'approx', 'grape'):
                        out.append(dict(kind='open', dim=dim, n_ctrl=n_ctrl,
                                        n_l=n_l, spec=spec, method=method,
                                        depth=3 if full and dim == 2 else 2))
    # many controls, long pulses
    for method in (None, 'spectral', 'grape'):
        common = dict(dim=2, n_ctrl=5, drift='steps', method=method,
                      special=None, depth=2, long=True)
        for eager in (True, False):
            for kind in ('closed', 'noise'):
                out.append(dict(common, kind=kind, eager=eager))
        for spec in ('lindblad', 'superops-pf', 'function'):
            out.append(dict(common, kind='open', n_l=3, spec=spec))
    return out


def _pf(c, x, n_l):
    return np.stack([.2 + c[:, 0] ** 2, .1 + .5 * c[:, -1] ** 2
                     + .2 * c[:, 0], .3 + 0 * c[:, 0]][:n_l], axis=1)


def _dpf(c, n_l):
    out = np.zeros((len(c), c.shape[1], n_l))
    out[:, 0, 0] = 2 * c[:, 0]
    if n_l > 1:
        out[:, -1, 1] += c[:, -1]
        out[:, 0, 1] += .2
    return out


def _unknown(ctx):
    """An approximation that does not exist is refused."""
    from checks.c02 import fixed_noise
    from qopt import solver_algorithms as sa
    rng = s.rng_for(ctx.seed, 'c05 unknown')
    system = s.System(ctx.seed, 2, 2, 2, 'steps')
    kw = dict(h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
              tau=s.taus(2), frechet_deriv_approx_method='other')
    makers = [
        lambda: sa.SchroedingerSolver(calculate_propagator_derivatives=False,
                                      **kw),
        lambda: sa.SchroedingerSMonteCarlo(
            calculate_propagator_derivatives=False,
            h_noise=s.ops([m.herm(rng, 2)]),
            noise_trace_generator=fixed_noise(.1 * np.ones((1, 2, 2))), **kw),
        lambda: sa.LindbladSolver(
            calculate_unitary_derivatives=False,
            lindblad_operators=s.ops([m.general(rng, 2)]), **kw)]
    for i, make in enumerate(makers):
        for name in ('frechet_deriv_propagators',) + (
                ('frechet_deriv_propagators_noise',) if i == 1 else ()):
            def read():
                solver = make()
                solver.set_optimization_parameters(np.ones((2, 2)))
                return getattr(solver, name)
            ctx.raises(read, 'an unknown approximation is refused')
            ctx.step()


def run(case, ctx):
    from qopt import solver_algorithms as sa
    if case['kind'] == 'unknown':
        return _unknown(ctx)
    n_ctrl, dim = case['n_ctrl'], case['dim']
    letters = s.alphabet(n_ctrl, ctx.seed, 3)
    method = case['method']
    tol = 1e-4 if method == 'approx' else 1e-8
    common = dict(exponential_method=None if method == 'grape' else method,
                  frechet_deriv_approx_method='grape'
                  if method == 'grape' else None)
    # equal first and last slots around a different one, and other units
    runs = [(d, None, None) for d in range(1, case['depth'] + 1)]
    if case['depth'] < 3:
        runs.append((3, [(1, 2, 1), (0, 1, 0), (2, 2, 1), (1, 2, 2)], None))
    if dim == 2 and n_ctrl != 2:
        runs.append((s.LONG, list(s.long_words(3, every=case.get('long'))),
                     None))
    if method != 'approx' and case['kind'] == 'closed' \
            and case['drift'] != 'operator':
        runs += [(2, [(1, 2), (2, 2)], unit) for unit in s.UNITS]
    for depth, chosen, unit in runs:
        tau = s.taus(depth) * (1. if unit is None else unit[2])
        if case['kind'] == 'open':
            spec = c04.Spec(case, ctx.seed)
            system = s.System(ctx.seed, dim, n_ctrl, depth, 'steps')
            n_l = len(spec.lind)
            d = [m.dissipator(x) for x in spec.lind]
            kw = spec.kwargs()
            if case['spec'].endswith('-pf'):
                kw['prefactor_function'] = lambda c, x: _pf(c, x, n_l)
                kw['prefactor_derivative_function'] = \
                    lambda c, x: _dpf(c, n_l)
            if case['spec'] == 'function':
                kw['super_operator_function'] = lambda c, x: [
                    s.op(sum(a * b for a, b in zip(w, d)))
                    for w in _pf(c, x, n_l)]
                kw['super_operator_derivative_function'] = lambda c, x: [
                    [s.op(sum(a * b for a, b in zip(w, d))) for w in ww]
                    for ww in _dpf(c, n_l)]
            solver = sa.LindbladSolver(
                h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
                calculate_unitary_derivatives=bool(depth % 2), **kw,
                **common)
        elif case['kind'] == 'noise':
            from checks.c02 import fixed_noise
            system = s.System(ctx.seed, dim, n_ctrl, depth, case['drift'])
            rng = s.rng_for(ctx.seed, 'c05', dim, depth)
            h_noise = [m.herm(rng, dim) for _ in range(2)]
            samples = .4 * rng.standard_normal((2, 3, depth))
            solver = sa.SchroedingerSMonteCarlo(
                h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
                h_noise=s.ops(h_noise),
                noise_trace_generator=fixed_noise(samples),
                calculate_propagator_derivatives=case['eager'], **common)
        else:
            system = s.System(ctx.seed, dim, n_ctrl, depth, case['drift'],
                              case['special'])
            if unit is not None:
                system.in_units(unit)
            solver = sa.SchroedingerSolver(
                h_drift=system.h_drift(), h_ctrl=system.h_ctrl(), tau=tau,
                calculate_propagator_derivatives=case['eager'], **common)
        for n, word in enumerate(chosen or s.words(letters, depth)):
            u = np.array([letters[i] for i in word])
            if unit is not None:
                u = u * unit[0]
            solver.set_optimization_parameters(u)
            if n % 3 == 1:
                solver.propagators
            if n % 3 == 2:
                solver.forward_propagators
            for t in range(depth):
                ctx.state((depth, unit, word[:t + 1]))
                ctx.step(n_ctrl)
            if case['kind'] == 'open':
                weights = np.ones((depth, n_l))
                dweights = np.zeros((depth, n_ctrl, n_l))
                if case['spec'].endswith('-pf') or case['spec'] == 'function':
                    weights, dweights = _pf(u, u, n_l), _dpf(u, n_l)
                want = [[None] * depth for _ in range(n_ctrl)]
                for t in range(depth):
                    g = m.liouvillian(m.step_hamiltonian(
                        system.drifts[t], system.ctrls, u[t])) + sum(
                            weights[t, i] * d[i] for i in range(n_l))
                    for c in range(n_ctrl):
                        e = m.liouvillian(system.ctrls[c]) + sum(
                            dweights[t, c, i] * d[i] for i in range(n_l))
                        p, dp = m.dexpm(g * tau[t], e * tau[t])
                        want[c][t] = tau[t] * e @ p if method == 'grape' \
                            else dp
                ctx.close(solver.frechet_deriv_propagators, want,
                          'super operator derivatives', tol=tol)
            else:
                # the reference works in units of order one
                amp, dt = (1., 1.) if unit is None else (unit[0], unit[2])
                scaled = ([h * dt for h in system.drifts],
                          [c * amp * dt for c in system.ctrls],
                          u / amp, tau / dt)
                want = m.frechet(*scaled)
                props = m.propagators(*scaled)
                if method == 'grape':
                    want = [[-1j * scaled[3][t] * c @ props[t]
                             for t in range(depth)] for c in scaled[1]]
                if case['kind'] == 'noise':
                    got = solver.frechet_deriv_propagators_noise
                    for k in range(3):
                        extra = [sum(samples[i, k, t] * h_noise[i]
                                     for i in range(2))
                                 for t in range(depth)]
                        if method == 'grape':
                            np_ = m.propagators(system.drifts, system.ctrls,
                                                u, tau, extra)
                            w = [[-1j * tau[t] * c @ np_[t]
                                  for t in range(depth)]
                                 for c in system.ctrls]
                        else:
                            w = m.frechet(system.drifts, system.ctrls, u,
                                          tau, extra)
                        ctx.close(got[k], w, 'derivatives of noisy '
                                  'propagators', tol=tol)
                got = solver.frechet_deriv_propagators
                if unit is not None:
                    # derivatives by an amplitude in units of the amplitude
                    got = [[g.data * unit[0] for g in gg] for gg in got]
                ctx.close(got, want,
                          'derivatives of the propagators', tol=tol)
                ctx.close(solver.propagators, props,
                          'propagators next to derivatives', tol=1e-8)
            ctx.trace()
