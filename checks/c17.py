"""Runs that are cut off: wall time, errors, reuse afterwards."""
import itertools

import numpy as np

from checks import c16
from mc import optim

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = ('optimiser class x weights x all scripts of cost and derivative '
        'requests up to a depth x every position at which the wall time '
        'passes (controlled clock and numerical optimiser); real scipy '
        'methods x every evaluation at which the wall time passes or the '
        'cost function fails; afterwards the same optimiser is run again')
ASSUMPTIONS = ['wall time is only examined before a cost evaluation',
               'the best pulse of a cut off run is that with the smallest '
               'norm of the unweighted costs, the first one of a tie']
OPTS = ('lsq', 'lbfgs', 'nm')


def cases(tier, seed):
    out = []
    depth = 5 if tier == 'thorough' else 4
    for opt in OPTS:
        for w in ('none', 'mixed'):
            for jac in (True, False):
                out.append(dict(kind='script', opt=opt, w=w, jac=jac,
                                depth=depth))
    for opt in OPTS + ('Powell', 'SLSQP', 'COBYLA', 'lsq-lm', 'lsq-dogbox'):
        for jac in (True, False):
            for fault in ('time', 'error', 'interrupt'):
                for save in (True, False):
                    out.append(dict(kind='real', opt=opt, jac=jac,
                                    fault=fault, save=save))
    return out


def run(case, ctx):
    globals()['_' + case['kind']](case, ctx)


class Jumping(optim.ControlledScipy):
    """Lets the clock jump before request number k."""

    def __init__(self, script, offsets, clock, k):
        super().__init__(script, offsets)
        self.clock, self.k = clock, k

    def _drive(self, fun, jac, x0, kind, kw):
        n = [0]

        def tick():
            if n[0] == self.k:
                self.clock.now += 1000.
            n[0] += 1

        def fun_(x):
            tick()
            return fun(x)

        def jac_(x):
            tick()
            return jac(x)
        return super()._drive(fun_, jac_ if callable(jac) else jac, x0, kind,
                              kw)


def scripts(depth):
    letters = [('f', 1), ('j', 0), ('f', 2), ('f', 0)]
    for rest in itertools.product(letters, repeat=depth - 1):
        yield (('f', 0),) + rest


def _script(case, ctx):
    prob = optim.Problem(ctx.seed, 2, 2, vector=True)
    w = c16.w_array(case['w'], prob.n)
    offsets = [np.zeros(prob.size), .3 * np.cos(np.arange(prob.size)),
               -.2 + .1 * np.arange(prob.size)]
    pulse = prob.pulse(ctx.seed, 0)
    points = [pulse + c16.unflat(o, pulse.shape) for o in offsets]
    cost = [prob.costs(p) for p in points]
    jacs = [prob.jac(p) for p in points]
    scalar = case['opt'] != 'lsq'
    for script in scripts(case['depth']):
        opt = c16.make_opt(case['opt'], prob,
                           c16.weights(case['w'], prob.n), jac=case['jac'],
                           store=True, cond=dict(max_wall_time=60.))
        uses_jac = case['jac'] and case['opt'] != 'nm'
        requests = [c for c in script if c[0] == 'f' or uses_jac]
        for k in range(len(requests) + 1):
            clock = optim.Clock()
            sc = Jumping(script, offsets, clock, k)
            with clock.installed(), sc.installed():
                res = opt.run_optimization(pulse)
            ctx.state((script, k))
            ctx.step(k)
            ctx.trace()
            name = ' %s cut at %d' % (script, k)
            before = [i for what, i in requests[:k] if what == 'f']
            cut = any(what == 'f' for what, i in requests[k:])
            if not cut:
                before = [i for what, i in requests if what == 'f']
                ctx.check(res.status == 0, 'normal termination' + name)
            else:
                ctx.check(res.status == 5, 'status after the wall time'
                          + name)
                ctx.check('wall time' in res.termination_reason.lower(),
                          'reason after the wall time' + name)
            ctx.check(res.num_iter == len(before), 'number of evaluations'
                      + name, '%s %s' % (res.num_iter, before))
            s = res.optim_summary
            if ctx.check(len(s.costs) == len(s.parameters) == s.iter_num
                         == len(before), 'one record per evaluation' + name):
                ctx.close(s.costs, [cost[i] for i in before],
                          'recorded costs' + name)
                ctx.close(s.parameters, [points[i] for i in before],
                          'recorded parameters' + name)
            ctx.close(res.init_parameters, pulse, 'initial parameters' + name)
            ctx.check(res.indices == prob.labels, 'labels' + name)
            ctx.check(res.optimizer is opt, 'optimizer stored' + name)
            if not cut:
                continue
            if not before:
                ctx.check(res.final_parameters is None,
                          'no final parameters without evaluation' + name)
                continue
            best = min(before, key=lambda i: np.linalg.norm(cost[i]))
            ctx.close(res.final_parameters, points[best],
                      'best parameters' + name)
            ctx.close(res.final_cost, cost[best], 'best costs' + name)
            if scalar and case['jac']:
                j = jacs[best].transpose(1, 2, 0).reshape(prob.n, -1)
                g = np.sum(j * w[:, None], axis=0)
                ctx.close(res.final_grad_norm, np.linalg.norm(g),
                          'gradient norm of the best pulse' + name, tol=1e-5)
            stats = res.optimization_stats
            ctx.check(stats.start_t_opt == 1000. and stats.end_t_opt
                      == 2000., 'times of the run' + name)


class Failure(Exception):
    pass


class Faulty:
    """Lets something happen at the k-th evaluation of the costs."""

    def __init__(self, prob, k, fault, clock):
        self.n, self.k = 0, k
        inner = prob.simulator.cost_funcs[0]
        real = inner.costs

        def costs():
            self.n += 1
            if self.n - 1 == k:
                if fault == 'error':
                    raise Failure
                if fault == 'interrupt':
                    raise KeyboardInterrupt
                clock.now += 1e4
            return real()
        inner.costs = costs
        self.restore = lambda: delattr(inner, 'costs')


def _real(case, ctx):
    prob = optim.Problem(ctx.seed, 1, 2, n_costs=3)
    w = c16.weights('mixed', prob.n)
    pulses = [prob.pulse(ctx.seed, k) for k in range(2)]
    cond = dict(max_iterations=5, max_wall_time=60.)
    kw = dict(jac=case['jac'], cond=cond)

    def fresh(pulse):
        return c16.make_opt(case['opt'], prob, w, **kw).run_optimization(
            pulse)
    full = fresh(pulses[0])
    second = fresh(pulses[1])
    n = full.optim_summary.iter_num
    n_max = n if ctx.tier == 'thorough' else min(n, 14)
    if case['opt'] in ('Powell', 'SLSQP', 'COBYLA') and n > 40:
        n_max = min(n_max, 6)
    for k in range(n_max):
        opt = c16.make_opt(case['opt'], prob, w, save=case['save'], **kw)
        clock = optim.Clock()
        f = Faulty(prob, k, case['fault'], clock)
        name = ' cut during evaluation %d' % k
        ctx.state(k)
        ctx.step(k)
        ctx.trace()
        try:
            with clock.installed():
                res = opt.run_optimization(pulses[0])
            ctx.check(case['fault'] == 'time', 'errors are reported' + name)
        except (Failure, KeyboardInterrupt):
            res = None
            ctx.check(case['fault'] != 'time', 'no error' + name)
        finally:
            f.restore()
        if res is not None:
            costs = full.optim_summary.costs[:k + 1]
            params = full.optim_summary.parameters[:k + 1]
            if k + 1 < n:
                best = min(range(k + 1),
                           key=lambda i: np.linalg.norm(costs[i]))
                ctx.check(res.status == 5, 'status after the wall time'
                          + name)
                ctx.close(res.final_parameters, params[best],
                          'best parameters' + name)
                ctx.close(res.final_cost, costs[best], 'best costs' + name)
                ctx.check(res.num_iter == k + 1, 'number of evaluations'
                          + name)
            if case['save']:
                ctx.close(res.optim_summary.costs, costs, 'costs' + name)
                ctx.close(res.optim_summary.parameters, params,
                          'parameters' + name)
        # and again with the same optimiser
        for pulse, want in ((pulses[1], second), (pulses[0], full)):
            again = opt.run_optimization(pulse)
            for key in ('final_cost', 'final_parameters', 'init_parameters',
                        'num_iter', 'status'):
                ctx.close(getattr(again, key), getattr(want, key),
                          'run after' + name + ' ' + key)
            if case['save']:
                ctx.close(again.optim_summary.costs,
                          want.optim_summary.costs, 'costs after' + name)
                ctx.check(again.optim_summary.iter_num
                          == want.optim_summary.iter_num,
                          'records after' + name)
            ctx.step()
