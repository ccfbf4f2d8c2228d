"""Cost functions that share a solver do not influence one another.

All sequences of evaluations (cost or gradient of any of the cost functions,
reading solver results, changing the pulse) are executed; every value must be
the one that a separate solver and cost function give."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C27'
LEVEL = 'model_checking'
RULE = ('family of solvers (and given results) x all sequences up to the depth of {cost of i, '
        'gradient of i, overwrite the returned gradient, read solver '
        'results, pulse A, pulse B, other times} over all cost functions that the solver '
        'serves; state = (family, word)')
ASSUMPTIONS = ['fixed noise traces', 'reference: the same cost function '
               'evaluated first on a solver of its own']
FAMILIES = ('qutrit', 'qutrit-eager', 'qutrit-grape', 'spectral', 'state',
            'two-qubits', 'noise', 'noise-eager', 'noise-liouville',
            'noise-states', 'lindblad', 'lindblad-states', 'filter', 'given')


def cases(tier, seed):
    out = []
    for family in FAMILIES:
        depth = 4 if tier == 'thorough' else 3
        n = {'lindblad-states': 3}.get(family, None)
        for first in range(40):
            out.append(dict(family=family, first=first, depth=depth))
            if family != 'given':
                out.append(dict(family=family, first=first, depth=2,
                                num_t=s.LONG))
    return out


class Given:
    """Stand-in for a solver of an open system with noise traces."""

    def __init__(self, h_ctrl, data):
        self.h_ctrl, self._sets = h_ctrl, data

    def set_optimization_parameters(self, pulse):
        which = int(pulse[0, 0] > PULSES[0][0, 0])
        self.forward_propagators = self._sets[which]['fwd']
        self.forward_propagators_noise = self._sets[which]['noise']


PULSES = []


def channel(u):
    return np.kron(u.conj(), u)


def build(family, seed, num_t=2):
    """(solver, list of cost functions, indices of those with gradient)"""
    from checks.c06 import generator
    from qopt import cost_functions as cf
    from qopt import solver_algorithms as sa
    rng = s.rng_for(seed, 'c27', family.split('-')[0])
    dim = dict(qutrit=3, spectral=3, state=3, noise=3, lindblad=2, filter=2,
               two=4, given=2)[family.split('-')[0]]
    system = s.System(seed, dim, 2, num_t, 'steps')
    init = m.ket(rng, dim)
    kw = dict(h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
              tau=s.taus(num_t))
    t2, td = s.op(m.unitary(rng, 2)), s.op(m.unitary(rng, dim))
    ket = s.op(m.ket(rng, dim))
    bra2 = s.op(m.ket(rng, 2).conj().T)
    noise = .3 * rng.standard_normal((1, 3, num_t))
    h_noise = [m.herm(rng, dim)]
    lind = [.3 * m.general(rng, dim)]
    if family in ('qutrit', 'qutrit-eager', 'qutrit-grape', 'spectral'):
        solver = sa.SchroedingerSolver(
            calculate_propagator_derivatives=family == 'qutrit-eager',
            frechet_deriv_approx_method='grape'
            if family == 'qutrit-grape' else None,
            exponential_method='spectral' if family == 'spectral' else None,
            **kw)
        fns = [cf.OperationInfidelity(solver=solver, target=td),
               cf.OperationInfidelity(solver=solver, target=t2,
                                      computational_states=[0, 2],
                                      map_to_closest_unitary=True),
               cf.LeakageError(solver=solver, computational_states=[0, 1]),
               cf.LeakageLiouville(solver=solver, computational_states=[1],
                                   input_unitary=True),
               cf.OperatorMatrixNorm(solver=solver, target=td,
                                     mode='vector')]
        return solver, fns, [0, 1, 2]
    if family == 'state':
        solver = sa.SchroedingerSolver(initial_state=s.op(init), **kw)
        fns = [cf.StateInfidelity(solver=solver, target=ket),
               cf.StateInfidelity(solver=solver, target=bra2,
                                  computational_states=[2, 1]),
               cf.StateInfidelity(solver=solver, target=bra2,
                                  computational_states=[0, 1],
                                  rescale_propagated_state=True)]
        return solver, fns, [0, 1, 2]
    if family == 'two-qubits':
        solver = sa.SchroedingerSolver(initial_state=s.op(init), **kw)
        fns = [cf.StateInfidelity(solver=solver, target=ket),
               cf.StateInfidelitySubspace(solver=solver, target=bra2,
                                          dims=[2, 2], remove=[0]),
               cf.StateInfidelitySubspace(solver=solver, target=bra2,
                                          dims=[2, 2], remove=[1])]
        return solver, fns, [0, 1, 2]
    if family == 'given':
        def superop():
            return s.op(sum(w * channel(m.unitary(rng, 2))
                            for w in (.7, .3)))
        data = [dict(fwd=[superop() for _ in range(3)],
                     noise=[[superop() for _ in range(3)] for _ in range(2)])
                for _ in range(2)]
        solver = Given(kw['h_ctrl'], data)
        fns = [cf.LeakageLiouville(solver=solver, computational_states=[i],
                                   monte_carlo=mc)
               for mc in (True, False) for i in (1, 0)]
        fns.append(cf.OperationInfidelity(solver=solver, target=td,
                                          super_operator_formalism=True))
        return solver, fns, []
    if family == 'noise-states':
        solver = sa.SchroedingerSMonteCarlo(
            h_noise=s.ops(h_noise), noise_trace_generator=generator([noise]),
            initial_state=s.op(init), **kw)
        fns = [cf.StateInfidelity(solver=solver, target=ket),
               cf.StateNoiseInfidelity(solver=solver, target=None),
               cf.StateNoiseInfidelity(solver=solver, target=ket,
                                       neglect_systematic_errors=False),
               cf.StateNoiseInfidelity(solver=solver, target=bra2,
                                       computational_states=[2, 0],
                                       rescale_propagated_state=True,
                                       neglect_systematic_errors=False),
               cf.StateNoiseInfidelity(solver=solver, target=None,
                                       computational_states=[1, 2])]
        return solver, fns, [0]
    if family == 'noise-liouville':
        solver = sa.SchroedingerSMonteCarlo(
            h_noise=s.ops(h_noise), noise_trace_generator=generator([noise]),
            **kw)
        fns = [cf.LiouvilleMonteCarloEntanglementInfidelity(
                   solver=solver, target=td),
               cf.LiouvilleMonteCarloEntanglementInfidelity(
                   solver=solver, target=t2, computational_states=[0, 2]),
               cf.OperationInfidelity(solver=solver, target=td),
               cf.LeakageLiouville(solver=solver, computational_states=[2],
                                   input_unitary=True, monte_carlo=True),
               cf.IncoherentLeakageError(solver=solver,
                                         computational_states=[0, 2])]
        return solver, fns, [2]
    if family.startswith('noise'):
        solver = sa.SchroedingerSMonteCarlo(
            h_noise=s.ops(h_noise), noise_trace_generator=generator([noise]),
            calculate_propagator_derivatives=family.endswith('eager'), **kw)
        fns = [cf.OperationInfidelity(solver=solver, target=td),
               cf.OperationNoiseInfidelity(solver=solver, target=None,
                                           neglect_systematic_errors=True),
               cf.OperationNoiseInfidelity(solver=solver, target=t2,
                                           computational_states=[2, 1],
                                           map_to_closest_unitary=True,
                                           neglect_systematic_errors=False),
               cf.IncoherentLeakageError(solver=solver,
                                         computational_states=[0, 1]),
               cf.LeakageLiouville(solver=solver, computational_states=[1],
                                   input_unitary=True, monte_carlo=True)]
        return solver, fns, [0, 1, 2]
    if family == 'lindblad':
        solver = sa.LindbladSolver(lindblad_operators=s.ops(lind), **kw)
        fns = [cf.OperationInfidelity(solver=solver, target=td,
                                      super_operator_formalism=True),
               cf.OperationInfidelity(solver=solver, target=s.op(np.eye(2)),
                                      super_operator_formalism=True),
               cf.LeakageLiouville(solver=solver, computational_states=[0])]
        return solver, fns, [0, 1]
    if family == 'lindblad-states':
        solver = sa.LindbladSolver(
            lindblad_operators=s.ops(lind),
            prefactor_function=lambda c, x: 1 + c[:, :1] ** 2,
            prefactor_derivative_function=lambda c, x: np.stack(
                [2 * c[:, :1], 0 * c[:, :1]], axis=1), **kw)
        fns = [cf.OperationInfidelity(solver=solver, target=td,
                                      super_operator_formalism=True),
               cf.LeakageLiouville(solver=solver, computational_states=[1])]
        return solver, fns, [0]
    kw['h_ctrl'] = s.ops([c - np.eye(2) * np.trace(c) / 2
                          for c in system.ctrls])
    solver = sa.SchroedingerSolver(filter_function_h_n=[
        [m.SX / 2, np.ones(num_t), 'b'],
        [m.SZ / 2, np.linspace(.5, 2., num_t), 'a']],
        **kw)
    omega = np.linspace(.1, 6, 40)
    fns = [cf.OperationInfidelity(solver=solver, target=td),
           cf.OperatorFilterFunctionInfidelity(
               solver=solver, noise_power_spec_density=lambda f: 1 / f,
               omega=omega),
           cf.OperatorFilterFunctionInfidelity(
               solver=solver, noise_power_spec_density=lambda f: .1 + 0 * f,
               omega=omega[::2])]
    return solver, fns, [0, 1, 2]


def reads(solver):
    out = dict(props=lambda: [p.data for p in solver.propagators],
               fwd=lambda: [p.data for p in solver.forward_propagators],
               rev=lambda: [p.data for p in solver.reversed_propagators],
               deriv=lambda: [[d.data for d in x] for x in
                              solver.frechet_deriv_propagators])
    if isinstance(solver, Given):
        for k in ('props', 'rev', 'deriv'):
            del out[k]
    if isinstance(solver, Given) or hasattr(type(solver),
                                            'propagators_noise'):
        out['noise'] = lambda: [[p.data for p in x] for x in
                                solver.forward_propagators_noise]
    return out


def run(case, ctx):
    family = case['family']
    num_t = case.get('num_t', 2)
    solver, fns, with_grad = build(family, ctx.seed, num_t)
    ops = [('cost', i) for i in range(len(fns))] \
        + [('grad', i) for i in with_grad] \
        + [('spoil', i) for i in with_grad] \
        + [('read', k) for k in reads(solver)] + [('pulse', 0), ('pulse', 1)]
    if family != 'given':
        # the other times last equally long
        ops += [('times', 1)]
        taus = [s.taus(num_t), s.taus(num_t)[::-1].copy()]
    if case['first'] >= len(ops):
        return
    rng = s.rng_for(ctx.seed, 'c27 pulses')
    # two pulses of the same numbers
    ps = [rng.standard_normal((num_t, 2))]
    ps.append(ps[0][::-1, ::-1].copy())
    ps.sort(key=lambda p: p[0, 0])
    PULSES[:] = ps
    memo = {}

    def want(op, p, tau):
        key = (op[0].replace('spoil', 'grad'), op[1], p, tau)
        if key not in memo:
            other, their, _ = build(family, ctx.seed, num_t)
            if tau:
                other.set_times(taus[tau])
            other.set_optimization_parameters(ps[p])
            memo[key] = np.array(
                reads(other)[op[1]]() if key[0] == 'read' else
                their[op[1]].costs() if key[0] == 'cost' else
                their[op[1]].grad())
        return memo[key]
    slow = family in ('filter', 'noise-eager', 'noise')
    final = [('cost', i) for i in range(len(fns))] \
        + [('grad', i) for i in with_grad]
    for rest in itertools.product(ops, repeat=case['depth'] - 1):
        word = (ops[case['first']],) + rest
        if slow and ctx.tier == 'quick' and len(set(word)) < len(word):
            continue
        solver, fns, _ = build(family, ctx.seed, num_t)
        solver.set_optimization_parameters(ps[0])
        p = tau = 0
        ctx.state(word)
        for op in word + tuple(final):
            ctx.step()
            if op[0] == 'times':
                tau = 1 - tau
                solver.set_times(taus[tau].copy())
                continue
            if op[0] == 'pulse':
                p = op[1]
                solver.set_optimization_parameters(ps[p])
                continue
            if op[0] == 'read':
                got = np.array(reads(solver)[op[1]]())
            elif op[0] == 'cost':
                got = fns[op[1]].costs()
            else:
                got = fns[op[1]].grad()
            ctx.close(got, want(op, p, tau), '%s %s after %s' % (op + (word,)))
            if op[0] == 'spoil':
                got *= 0
                got += 7.
        ctx.trace()
