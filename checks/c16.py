"""Bookkeeping of optimisations."""
import copy
import itertools

import numpy as np

from mc import optim
from mc import systems as s

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = ('optimiser class x weights x recording flags x number of costs x all '
        'scripts of cost and derivative requests of the numerical optimiser '
        'up to a depth (controlled stand-in for scipy), plus all sequences '
        'of runs on one optimiser, plus the real scipy methods with every '
        'evaluation monitored')
ASSUMPTIONS = ['final_cost of a normally terminated run is the weighted '
               'objective reported by scipy; records are unweighted']
WEIGHTS = dict(none=None, ones=1., mixed=2., zero=0., empty=())


def weights(kind, n):
    if kind == 'none':
        return None
    if kind == 'empty':
        return []
    w = .5 + np.arange(n) * 1.3
    if kind == 'negative':
        w[1::2] *= -1
    if kind == 'zero':
        w[0] = 0.
    if kind == 'column':
        return w.reshape(-1, 1)
    if kind == 'list':
        return list(w)
    return w


def w_array(kind, n):
    w = weights(kind, n)
    return np.ones(n) if w is None or len(w) == 0 \
        else np.asarray(w).flatten()


def cases(tier, seed):
    out = []
    depth = 4 if tier == 'thorough' else 3
    for opt in ('lsq', 'lbfgs', 'nm'):
        for w in ('none', 'mixed', 'zero', 'empty', 'column', 'list'):
            for save in (True, False):
                out.append(dict(kind='script', opt=opt, w=w, save=save,
                                depth=depth, shape=[2, 2], vector=False))
        for shape in ([1, 1], [3, 1], [1, 3], [2, 3]):
            out.append(dict(kind='script', opt=opt, w='mixed', save=True,
                            depth=2, shape=shape, vector=True))
        for w in ('mixed', 'negative', 'column'):
            # as many costs as parameters
            out.append(dict(kind='script', opt=opt, w=w, save=True, depth=3,
                            shape=[2, 1], vector=False))
            out.append(dict(kind='script', opt=opt, w=w, save=True, depth=2,
                            shape=[5, 1], vector=True))
        # many costs, long pulses, many controls
        for shape, n_costs in (([2, 2], 12), ([17, 1], 2), ([4, 5], 4)):
            for w in ('mixed', 'negative'):
                out.append(dict(kind='script', opt=opt, w=w, save=True,
                                depth=2, shape=shape, vector=n_costs == 4,
                                n_costs=n_costs))
        out.append(dict(kind='long', opt=opt))
    for opt in ('lsq', 'lbfgs', 'nm', 'Powell', 'SLSQP', 'COBYLA',
                'lsq-lm', 'lsq-dogbox'):
        for jac in (True, False):
            for w in ('none', 'mixed'):
                for bounds in (False, True):
                    if opt == 'lsq-lm' and bounds:
                        continue
                    out.append(dict(kind='real', opt=opt, w=w, jac=jac,
                                    bounds=bounds))
    for opt in ('lsq', 'lbfgs', 'nm'):
        for word in itertools.product(range(3), repeat=3 if tier
                                      == 'thorough' else 2):
            out.append(dict(kind='runs', opt=opt, word=list(word)))
        out.append(dict(kind='shapes', opt=opt))
    out.append(dict(kind='isolation'))
    return out


def make_opt(name, prob, w=None, save=True, store=False, jac=True,
             bounds=None, cond=None):
    from qopt import optimize as qo
    kw = dict(system_simulator=prob.simulator, cost_func_weights=w,
              save_intermediary_steps=save, store_optimizer=store,
              use_jacobian_function=jac)
    if bounds is not None:
        kw['bounds'] = bounds
    if cond is not None:
        kw['termination_cond'] = cond
    if name.startswith('lsq'):
        if '-' in name:
            kw['method'] = name.split('-')[1]
        return qo.LeastSquaresOptimizer(**kw)
    method = dict(lbfgs='L-BFGS-B', nm='Nelder-Mead').get(name, name)
    return qo.ScalarMinimizingOptimizer(method=method, **kw)


def run(case, ctx):
    globals()['_' + case['kind']](case, ctx)


def scripts(depth):
    """All request sequences of the given depth starting with a cost."""
    letters = [('f', 0), ('f', 1), ('j', 0), ('j', 1), ('f', 2)]
    for rest in itertools.product(letters, repeat=depth - 1):
        yield (('f', 0),) + rest


def unflat(x, shape):
    """Vector of the optimiser to pulse, as documented: times fastest."""
    return x.reshape(shape[::-1]).T


def _script(case, ctx):
    num_t, n_ctrl = case['shape']
    prob = optim.Problem(ctx.seed, num_t, n_ctrl, vector=case['vector'],
                         n_costs=case.get('n_costs', 2))
    w = w_array(case['w'], prob.n)
    offsets = [np.zeros(prob.size),
               .3 * np.cos(np.arange(prob.size)),
               -.5 + .2 * np.arange(prob.size)]
    pulse = prob.pulse(ctx.seed, 0)
    points = [pulse + unflat(o, pulse.shape) for o in offsets]
    cost = [prob.costs(p) for p in points]
    jacs = [prob.jac(p) for p in points]
    for script in scripts(case['depth']):
        for store in (False, True) if len(script) < 3 else (False,):
            opt = make_opt(case['opt'], prob, weights(case['w'], prob.n),
                           save=case['save'], store=store)
            sc = optim.ControlledScipy(script, offsets)
            keep = pulse.copy()
            prob.log.clear()
            with sc.installed():
                res = opt.run_optimization(pulse)
            ctx.check(np.array_equal(pulse, keep),
                      'the initial pulse is not altered')
            _verify(case, ctx, prob, opt, sc, script, points, cost, jacs, w,
                    res, store, pulse)


def _long(case, ctx):
    """Many evaluations in one run."""
    case = dict(case, w='mixed', save=True)
    prob = optim.Problem(ctx.seed, 2, 2)
    w = w_array('mixed', prob.n)
    offsets = [np.zeros(prob.size)] + [
        .3 * np.cos(np.arange(prob.size) * (k + 1.)) for k in range(23)]
    pulse = prob.pulse(ctx.seed, 0)
    points = [pulse + unflat(o, pulse.shape) for o in offsets]
    cost = [prob.costs(p) for p in points]
    jacs = [prob.jac(p) for p in points]
    up, down = range(24), range(23, -1, -1)
    for order in (up, down, [k * 7 % 24 for k in up]):
        for every in (1, 2, 5):
            script = tuple(itertools.chain.from_iterable(
                [('f', k)] + [('j', k)] * (i % every == 0)
                for i, k in enumerate(order)))
            opt = make_opt(case['opt'], prob, w)
            sc = optim.ControlledScipy(script, offsets)
            with sc.installed():
                res = opt.run_optimization(pulse)
            # the search of this schedule starts anywhere
            sc.kwargs[0] = sc.kwargs[0][:2] + (pulse.flatten(),)
            _verify(case, ctx, prob, opt, sc, script, points, cost, jacs, w,
                    res, False, pulse)


def _verify(case, ctx, prob, opt, sc, script, points, cost, jacs, w, res,
            store, pulse):
    name = ' after %s' % (script,)
    scalar = not case['opt'].startswith('lsq')
    ctx.state(script)
    ctx.step(len(script))
    ctx.trace()
    # what the numerical optimiser saw
    x0 = sc.kwargs[0][2]
    ctx.check(np.array_equal(np.sort(x0), np.sort(pulse.flatten())),
              'the search starts at the initial pulse')
    for what, i, val in sc.calls:
        if what == 'f':
            want = w * cost[i]
            want = np.sum(want) if scalar else want
            ctx.close(val, want, 'weighted costs' + name, tol=1e-9)
        else:
            j = jacs[i].transpose(1, 2, 0)       # cost, control, time
            j = j.reshape(j.shape[0], -1) * w[:, None]
            want = np.sum(j, axis=0) if scalar else j
            ctx.close(val, want, 'weighted derivatives' + name, tol=1e-6)
    f_calls = [i for what, i, _ in sc.calls if what == 'f']
    j_calls = [i for what, i, _ in sc.calls if what == 'j']
    # the records
    ctx.check(res.indices == prob.labels, 'cost labels' + name)
    ctx.close(res.init_parameters, pulse, 'initial parameters' + name)
    ctx.close(res.final_parameters, points[f_calls[-1]],
              'final parameters' + name)
    want = w * cost[f_calls[-1]]
    ctx.close(res.final_cost, np.sum(want) if scalar else want,
              'final cost' + name)
    ctx.check(res.num_iter == len(f_calls), 'number of evaluations' + name)
    ctx.check(res.status == 0 and res.termination_reason == 'scripted',
              'status and reason' + name)
    ctx.check((res.optimizer is opt) if store else res.optimizer is None,
              'optimizer stored on request' + name)
    summary = res.optim_summary
    if case['save']:
        ctx.check(summary.iter_num == len(f_calls),
                  'number of recorded steps' + name)
        ctx.check(summary.indices == prob.labels, 'recorded labels' + name)
        ctx.close(summary.costs, [cost[i] for i in f_calls],
                  'recorded costs' + name)
        ctx.close(summary.parameters, [points[i] for i in f_calls],
                  'recorded parameters' + name)
        ctx.close(summary.gradients, [jacs[i] for i in j_calls],
                  'recorded gradients' + name, tol=1e-6)
    else:
        ctx.check(summary is None, 'no record without the flag' + name)
    stats = res.optimization_stats
    ctx.check(len(stats.cost_func_eval_times) == len(f_calls),
              'one timing per cost evaluation' + name)
    ctx.check(len(stats.grad_func_eval_times) == len(j_calls),
              'one timing per derivative evaluation' + name)
    ctx.check(stats.end_t_opt >= stats.start_t_opt, 'run time' + name)
    ctx.check(stats.indices == prob.labels, 'labels of statistics' + name)
    d = res.to_dict()
    from qopt.optimization_data import OptimizationResult
    back = OptimizationResult.from_dict(d)
    for key in ('final_cost', 'indices', 'final_parameters', 'final_grad_norm',
                'init_parameters', 'num_iter', 'termination_reason', 'status',
                'optimizer', 'optimization_stats', 'optim_summary'):
        ctx.check(getattr(back, key) is getattr(res, key),
                  'dictionary keeps %s' % key)


def _real(case, ctx):
    prob = optim.Problem(ctx.seed, 2, 2, n_costs=5 if case['opt'] == 'lsq-lm'
                         else 2)
    w = w_array(case['w'], prob.n)
    pulse = prob.pulse(ctx.seed, 1)
    scalar = not case['opt'].startswith('lsq')
    low, up = pulse.T.flatten() - .15, pulse.T.flatten() + .1
    bounds = None
    if case['bounds']:
        bounds = (low, up) if not scalar else list(zip(low, up))
    cond = dict(max_iterations=8)
    store = case['jac'] != case['bounds']
    opt = make_opt(case['opt'], prob, weights(case['w'], prob.n),
                   jac=case['jac'], bounds=bounds, cond=cond, store=store)
    keep = pulse.copy()
    res = opt.run_optimization(pulse)
    ctx.check(np.array_equal(pulse, keep), 'the initial pulse is not altered')
    summary = res.optim_summary
    ctx.state('run')
    ctx.trace()
    n = len(summary.costs)
    ctx.step(n)
    ctx.check(n > 1 and len(summary.parameters) == n
              and summary.iter_num == n, 'one record per evaluation')
    ctx.check((res.optimizer is opt) if store else res.optimizer is None,
              'optimizer stored on request')
    ctx.close(summary.parameters[0], pulse, 'search starts at the pulse')
    for p, c in zip(summary.parameters, summary.costs):
        ctx.close(c, prob.costs(p), 'recorded costs belong to the recorded '
                  'parameters')
        if case['bounds'] and not case['opt'] in ('COBYLA', 'SLSQP'):
            ctx.check(np.all(p.T.flatten() >= low - 1e-7)
                      and np.all(p.T.flatten() <= up + 1e-7),
                      'bounds are respected at every evaluation')
    if case['bounds']:
        x = res.final_parameters.T.flatten()
        ctx.check(np.all(x >= low - 1e-9) and np.all(x <= up + 1e-9),
                  'bounds are respected by the result')
    want = w * prob.costs(res.final_parameters)
    first = w * prob.costs(pulse)
    if scalar:
        want, first = np.sum(want), np.sum(first)
    ctx.close(res.final_cost, want, 'final cost belongs to the final '
              'parameters')
    ctx.check(np.linalg.norm(res.final_cost) <= np.linalg.norm(first) + 1e-12,
              'the optimisation does not worsen the pulse')
    ctx.check(any(np.allclose(res.final_parameters, p, atol=1e-12)
                  for p in summary.parameters),
              'the final parameters were evaluated')
    ctx.close(res.init_parameters, pulse, 'initial parameters')
    jacobian = case['jac'] and case['opt'] in (
        'lsq', 'lbfgs', 'lsq-lm', 'lsq-dogbox')
    ctx.check(bool(summary.gradients) == bool(jacobian),
              'analytic derivatives are used on request')
    for j in summary.gradients:
        ctx.check(any(np.allclose(j, prob.jac(p), atol=1e-6)
                      for p in summary.parameters),
                  'recorded gradients belong to recorded parameters')
    if jacobian and case['opt'] in ('lsq', 'lbfgs') and not case['bounds']:
        # analytic derivatives and records are the default
        from qopt import optimize as qo
        cls = qo.ScalarMinimizingOptimizer if scalar \
            else qo.LeastSquaresOptimizer
        n_log = len(prob.log)
        plain = cls(system_simulator=prob.simulator, termination_cond=cond,
                    cost_func_weights=weights(case['w'], prob.n))
        _result(ctx, plain.run_optimization(pulse), res, 'default options')
        ctx.check(len(prob.log) > n_log, 'the simulator is used')
    if jacobian:
        j = prob.jac(res.final_parameters).transpose(1, 2, 0)
        j = j.reshape(j.shape[0], -1) * w[:, None]
        g = j.sum(axis=0) if scalar else j.T @ want
        ctx.close(res.final_grad_norm, np.linalg.norm(g),
                  'norm of the final gradient', tol=1e-5)
    if case['opt'] in ('lsq', 'lbfgs', 'lsq-lm', 'lsq-dogbox', 'nm') \
            and case['jac'] and case['opt'] != 'nm':
        ctx.check(res.num_iter == n, 'number of evaluations')


def _result(ctx, got, want, what):
    for key in ('final_cost', 'final_parameters', 'init_parameters',
                'num_iter', 'status'):
        ctx.close(getattr(got, key), getattr(want, key), what + ' ' + key)
    for key in ('costs', 'parameters', 'gradients'):
        a, b = (getattr(r.optim_summary, key) for r in (got, want))
        if ctx.check(len(a) == len(b), what + ' number of ' + key):
            ctx.close(a, b, what + ' ' + key)


def _runs(case, ctx):
    """Sequences of runs on one optimiser equal fresh optimisers."""
    prob = optim.Problem(ctx.seed, 2, 2)
    fresh = optim.Problem(ctx.seed, 2, 2)
    w = weights('mixed', prob.n)
    cond = dict(max_iterations=5)
    pulses = [prob.pulse(ctx.seed, k) for k in range(2)]
    opt = make_opt(case['opt'], prob, w, cond=cond)
    done = []
    for k in case['word']:
        if k == 2:
            # an unrelated use of the simulator in between
            prob.simulator.wrapped_cost_functions(pulses[1] + .3)
            prob.simulator.wrapped_jac_function(pulses[1] - .3)
            continue
        # the caller reuses its array after the run
        buffer = pulses[k].copy()
        res = opt.run_optimization(buffer)
        buffer[:] = 1e3 + k
        ctx.check(len(res.optimization_stats.cost_func_eval_times)
                  == len(res.optim_summary.costs), 'statistics of the run')
        want = make_opt(case['opt'], fresh, w,
                        cond=cond).run_optimization(pulses[k])
        done.append((res, want))
        ctx.step()
    for a, b in itertools.combinations([d[0] for d in done], 2):
        ctx.check(a.optimization_stats is not b.optimization_stats,
                  'statistics of their own')
    for i, (res, want) in enumerate(done):
        _result(ctx, res, want, 'run %d of %s' % (i, case['word']))
    ctx.state('end')
    ctx.trace()
    ctx.check(True, 'sequence done')


def _shapes(case, ctx):
    """One optimiser, pulses of other shapes one after another."""
    shapes = ((2, 3), (3, 2), (6, 1), (1, 6), (2, 2), (1, 1))
    probs = {sh: optim.Problem(ctx.seed, *sh) for sh in shapes}
    w = weights('mixed', 2)
    cond = dict(max_iterations=3)
    want = {sh: make_opt(case['opt'], p, w, cond=cond).run_optimization(
        p.pulse(ctx.seed, 0)) for sh, p in probs.items()}
    for word in itertools.permutations(shapes, 3):
        opt = make_opt(case['opt'], probs[word[0]], w, cond=cond)
        for sh in word:
            opt.system_simulator.solvers = [probs[sh].solver]
            opt.system_simulator.cost_funcs = probs[sh].simulator.cost_funcs
            res = opt.run_optimization(probs[sh].pulse(ctx.seed, 0))
            _result(ctx, res, want[sh], 'shapes %s: %s' % (word, sh))
            ctx.step()
        # restore the first simulator
        fresh = optim.Problem(ctx.seed, *word[0])
        probs[word[0]] = fresh
        ctx.state(word)
        ctx.trace()


def _isolation(case, ctx):
    from qopt import optimize as qo
    default = copy.deepcopy(qo.default_termination_conditions)
    prob = optim.Problem(ctx.seed, 2, 2)
    pulse = prob.pulse(ctx.seed, 0)
    offsets = [np.zeros(prob.size), np.full(prob.size, .1)]
    conds = [None, dict(max_wall_time=3.), dict(max_iterations=7,
                                                min_cost_gain=.5),
             dict(min_gradient_norm=.2, min_amplitude_change=.3)]
    for names in itertools.product(('lsq', 'lbfgs', 'nm'), repeat=2):
        for a, b in itertools.product(conds, repeat=2):
            ka, kb = copy.deepcopy(a), copy.deepcopy(b)
            first = make_opt(names[0], prob, cond=a)
            second = make_opt(names[1], prob, cond=b)
            ctx.check(a == ka and b == kb, 'conditions are not altered')
            for opt, c in ((first, a), (second, b)):
                ctx.check(opt.termination_conditions == dict(default,
                                                             **(c or {})),
                          'termination conditions of one optimizer')
            ctx.check(qo.default_termination_conditions == default,
                      'default conditions are not altered')
            sc = optim.ControlledScipy([('f', 0)], offsets)
            with sc.installed():
                first.run_optimization(pulse)
            cond = dict(default, **(a or {}))
            kind, kw, _ = sc.kwargs[0]
            if names[0] == 'lsq':
                ctx.check((kw['ftol'], kw['xtol'], kw['gtol'],
                           kw['max_nfev']) == (
                    cond['min_cost_gain'], cond['min_amplitude_change'],
                    cond['min_gradient_norm'], cond['max_iterations']),
                    'conditions of least squares')
            elif names[0] == 'lbfgs':
                ctx.check(kw['method'] == 'L-BFGS-B', 'requested method')
                o = kw['options']
                ctx.check((o['ftol'], o['gtol'], o['maxiter']) == (
                    cond['min_cost_gain'], cond['min_gradient_norm'],
                    cond['max_iterations']), 'conditions of L-BFGS-B')
            else:
                ctx.check(kw['method'] == 'Nelder-Mead', 'requested method')
                ctx.check(kw['options']['maxiter'] == cond['max_iterations'],
                          'conditions of Nelder-Mead')
            ctx.state((names, a, b))
            ctx.step()
            ctx.trace()
    keys = ('indices', 'iter_num', 'costs', 'gradients', 'parameters')
    for given in itertools.product((False, True), repeat=5):
        from qopt.optimization_data import OptimizationSummary
        values = dict(indices=['a'], iter_num=3, costs=[1., 2.],
                      gradients=[[.1]], parameters=[[.5]])
        kw = {k: values[k] for k, g in zip(keys, given) if g}
        got, other = OptimizationSummary(**kw), OptimizationSummary()
        for k in keys[2:]:
            ctx.check(getattr(got, k) == kw.get(k, []),
                      'the summary keeps %s' % k)
            getattr(got, k).append(7)
            ctx.check(getattr(other, k) == [], 'summaries are independent')
        for k in keys[:2]:
            if k in kw:
                ctx.check(getattr(got, k) == kw[k], 'the summary keeps ' + k)
        ctx.state(given)
    w = np.array([1., 2.])
    for name in ('lsq', 'lbfgs'):
        opt = make_opt(name, prob, w)
        opt.run_optimization(pulse)
        ctx.close(w, [1., 2.], 'weights are not altered')
