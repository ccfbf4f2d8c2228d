"""Parallel optimisation equals sequential optimisation."""
import functools
import itertools

import numpy as np

from checks import c16
from mc import models as m
from mc import pool
from mc import systems as s

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = ('optimiser class x number of initial pulses x number of processes x '
        'all completion orders of the workers (controlled pool) x every '
        'failing worker; plus the real process pool')
ASSUMPTIONS = ['tasks are pickled and executed atomically by the stand-in']


class Prob:
    def __init__(self, seed, size=(2, 2)):
        from qopt import cost_functions as cf
        from qopt import simulator as sim
        from qopt import solver_algorithms as sa
        rng = s.rng_for(seed, 'c18', size)
        num_t, n = size
        system = s.System(seed, 2, n, num_t)
        self.solver = sa.SchroedingerSolver(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
            tau=s.taus(num_t))
        self.simulator = sim.Simulator(
            solvers=[self.solver],
            cost_funcs=[cf.OperationInfidelity(
                solver=self.solver, target=s.op(m.unitary(rng, 2)),
                label=['infid %d' % i]) for i in range(2)])
        self.n = 2


def cases(tier, seed):
    out = []
    for opt in ('lsq', 'lbfgs', 'nm'):
        for n in (1, 2, 3, 4) + ((5,) if tier == 'thorough' else ()):
            for dirty in (False, True):
                out.append(dict(kind='orders', opt=opt, n=n, dirty=dirty))
        out.append(dict(kind='fault', opt=opt, n=3))
    for processes in (1, 2, 3, None):
        out.append(dict(kind='real', opt='lbfgs', n=5, processes=processes))
        out.append(dict(kind='many', opt='lsq', n=21, processes=processes))
    out.append(dict(kind='real', opt='lsq', n=40, processes=3))
    return out


@functools.lru_cache(None)
def converged(seed, start):
    from scipy import optimize
    prob = Prob(seed)

    def cost(x):
        return np.sum(c16.weights('mixed', 2) * np.asarray(
            prob.simulator.wrapped_cost_functions(x.reshape(2, 2))))
    x = np.array(start)
    for _ in range(6):
        x = optimize.minimize(cost, x, method='BFGS',
                              options=dict(gtol=1e-9)).x
    return x.reshape(2, 2)


def make(case, ctx):
    prob = Prob(ctx.seed)
    rng = s.rng_for(ctx.seed, 'c18p')
    pulses = rng.standard_normal((case['n'], 2, 2)) * .8
    if case['n'] > 1:
        # starts where it ends: another status than the other pulses
        pulses[1] = converged(ctx.seed, tuple(pulses[1].flatten()))
    opt = c16.make_opt(case['opt'], prob, c16.weights('mixed', 2),
                       cond=dict(max_iterations=4))
    fresh = c16.make_opt(case['opt'], Prob(ctx.seed),
                         c16.weights('mixed', 2), cond=dict(max_iterations=4))
    seq = [fresh.run_optimization(p) for p in pulses]
    return prob, pulses, opt, seq


def verify(ctx, data, seq, pulses, name):
    n = len(pulses)
    ctx.trace()
    if not ctx.check(len(data) == n, 'one result per pulse' + name):
        return
    for key in ('final_costs', 'final_parameters', 'init_parameters',
                'costs', 'parameters', 'status', 'optimization_statistics'):
        if not ctx.check(len(getattr(data, key)) == n,
                         'one entry per pulse: ' + key + name):
            return
    ctx.check(data.indices == ['infid 0', 'infid 1'], 'labels' + name)
    for i in range(n):
        ctx.close(data.init_parameters[i], pulses[i],
                  'results are ordered like the pulses' + name)
        ctx.close(data.final_parameters[i], seq[i].final_parameters,
                  'final parameters' + name)
        ctx.close(data.final_costs[i], seq[i].final_cost, 'final cost' + name)
        ctx.close(data.costs[i], seq[i].optim_summary.costs, 'costs' + name)
        ctx.close(data.parameters[i], seq[i].optim_summary.parameters,
                  'parameters' + name)
        ctx.check(data.status[i] == seq[i].status, 'status' + name)
        ctx.check(len(data.optimization_statistics[i].cost_func_eval_times)
                  == len(seq[i].optim_summary.costs), 'statistics' + name)


def run(case, ctx):
    from qopt.parallel import run_optimization_parallel
    prob, pulses, opt, seq = make(case, ctx)
    keep = pulses.copy()
    if case['kind'] == 'real':
        ctx.state('real')
        ctx.step(case['n'])
        data = run_optimization_parallel(opt, pulses,
                                         processes=case['processes'])
        verify(ctx, data, seq, pulses, ' with a process pool')
        data = run_optimization_parallel(opt, list(pulses),
                                         processes=case['processes'])
        verify(ctx, data, seq, pulses, ' with a process pool, again')
    elif case['kind'] == 'many':
        n = case['n']
        ids = list(range(n))
        for order in (ids, ids[::-1], sorted(ids, key=str),
                      ids[1::2] + ids[::2], [k * 8 % n for k in ids]):
            with pool.controlled(lambda n: order):
                data = run_optimization_parallel(opt, pulses,
                                                 processes=case['processes'])
            ctx.state(order)
            ctx.step(n)
            verify(ctx, data, seq, pulses, ' in order %s' % (order,))
    elif case['kind'] == 'fault':
        for k in range(case['n']):
            for order in pool.all_orders(case['n']):
                with pool.controlled(lambda n: order, fail_index=k):
                    ctx.state((k, order))
                    ctx.step()
                    ctx.raises(lambda: run_optimization_parallel(
                        opt, pulses, processes=2),
                        'failing workers are reported', pool.PoolFault)
                with pool.controlled(lambda n: range(n)):
                    data = run_optimization_parallel(opt, pulses,
                                                     processes=2)
                verify(ctx, data, seq, pulses, ' after a failed worker')
    else:
        if case['dirty']:
            opt.run_optimization(pulses[0] + 1.)
        for order in pool.all_orders(case['n']):
            for processes in (1, 2, None):
                with pool.controlled(lambda n: order) as log:
                    data = run_optimization_parallel(opt, pulses,
                                                     processes=processes)
                ctx.state((order, processes))
                ctx.step(case['n'])
                verify(ctx, data, seq, pulses, ' in order %s' % (order,))
    ctx.check(np.array_equal(keep, pulses), 'pulses are not altered')
    res = opt.run_optimization(pulses[0])
    ctx.close(res.final_parameters, seq[0].final_parameters,
              'the optimizer can be used afterwards')
