"""Simulated annealing of pulses."""
import itertools

import numpy as np

from mc import optim
from mc import rand

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = ('pulse shapes x bounds x step size x step ratio x all outcomes of '
        'the random draws of one move; and all short annealing schedules '
        '(every choice of the proposed steps and of acceptance) on a real '
        'simulator, also one after another on the same optimiser')
ASSUMPTIONS = ['integer valued pulses inside the bounds']


def cases(tier, seed):
    out = []
    for shape in ([1, 1], [1, 2], [2, 1], [3, 1]) + (
            ([2, 2],) if tier == 'thorough' else ()):
        for size in (1, 2, 3, 10):
            for ratio in (0., .3, .5, 1.):
                out.append(dict(kind='move', shape=shape, size=size,
                                ratio=ratio))
    for shape in ([17, 2], [3, 12]):
        for size in (1, 10):
            for ratio in (0., .3, .5, 1.):
                out.append(dict(kind='move', shape=shape, size=size,
                                ratio=ratio, large=True))
    depth = 4 if tier == 'thorough' else 3
    for shape in ([1, 2], [2, 1], [2, 3], [17, 1]):
        for first in range(4):
            for second in range(4):
                out.append(dict(kind='anneal', shape=shape, depth=depth,
                                word=[first, second]))
    out.append(dict(kind='errors'))
    return out


def run(case, ctx):
    globals()['_' + case['kind']](case, ctx)


def bounds_for(shape):
    low = -np.ones(shape, dtype=int) - np.arange(
        shape[0] * shape[1]).reshape(shape) % 2
    up = np.full(shape, 2) + np.arange(shape[0] * shape[1]).reshape(
        shape) % 3
    return np.array([low, up])


def silent(annealer):
    annealer.update = lambda *a, **k: None
    return annealer


def _move(case, ctx):
    from qopt.optimize import PulseAnnealer
    shape = tuple(case['shape'])
    size, ratio = case['size'], case['ratio']
    bounds = bounds_for(shape)
    n = shape[0] * shape[1]
    weight = np.arange(1., n + 1)

    def energy(x):
        return np.array([np.sum(weight * x), 1.])
    if case.get('large'):
        # one moving parameter, and mixtures
        steps = [tuple(size * v * (k == j) for k in range(n))
                 for j in range(n) for v in (-1, 1)] + [
            tuple((k * q) % (2 * size + 1) - size for k in range(n))
            for q in (1, 3, 7)]
        masks = [tuple((.1, .4, .9)[(k * q + r) % 3] for k in range(n))
                 for q in (1, 2) for r in range(3)]
        masks = [x for x in masks for _ in range(2)]
    else:
        steps = list(itertools.product(
            range(-size, size + 1) if size < 3
            else (-size, 1 - size, 0, size), repeat=n))
        masks = list(itertools.product((.1, .4, .9), repeat=n))
    if n > 2:
        masks = masks[::2 if case.get('large') else 4]
    starts = [bounds[0], bounds[1], np.zeros(shape, dtype=int),
              np.ones(shape)]
    for start, step, mask in itertools.product(starts, steps, masks):
        a = silent(PulseAnnealer(
            initial_state=start, bounds=bounds.copy(), energy_function=energy,
            step_size=size, step_ratio=ratio, Tmax=1., Tmin=.1, steps=3,
            updates=0))
        before = a.state
        keep = before.copy()
        draws = rand.Controlled(
            uniform=lambda sh: np.array(mask).reshape(sh),
            integer=lambda lo, hi, sh: lo + size
            + np.array(step).reshape(sh))
        with draws.installed():
            a.move()
        ctx.step()
        what = ' %s' % ((start.tolist(), step, mask),)
        lows = [e for e in draws.log if e[0] == 'integer']
        ctx.check([e[2] - e[1] for e in lows] == [2 * size + 1],
                  'every step up to the step size is possible', lows)
        want = start + np.array(step).reshape(shape) * (
            np.array(mask).reshape(shape) <= ratio)
        want = np.minimum(np.maximum(want, bounds[0]), bounds[1])
        ctx.close(a.state, want, 'state after a move' + what)
        ctx.check(np.all(a.state >= bounds[0])
                  and np.all(a.state <= bounds[1]), 'within bounds' + what)
        ctx.check(np.array_equal(before, keep),
                  'the previous state is not altered' + what)
        ctx.close(a.energy(), np.linalg.norm(energy(want.T.flatten())),
                  'energy is the norm of the costs' + what)
        ctx.state((start.tolist(), step, mask))
        ctx.trace()


def patterns(shape):
    n = shape[0] * shape[1]
    return [np.eye(1, n, 0, dtype=int)[0], -np.ones(n, dtype=int),
            np.arange(n) % 3 - 1, np.arange(n)[::-1] % 2]


def _anneal(case, ctx):
    from qopt.optimize import SimulatedAnnealing
    shape = tuple(case['shape'])
    prob = optim.Problem(ctx.seed, shape[0], shape[1],
                         stats=bool(sum(case['word']) % 2))
    bounds = bounds_for(shape)
    pats = patterns(shape)
    starts = [np.ones(shape, dtype=int), np.zeros(shape, dtype=int)]
    memo = {}

    def energy(x):
        key = x.tobytes()
        if key not in memo:
            memo[key] = np.linalg.norm(prob.costs(x))
        return memo[key]
    depth = case['depth']
    for store in (False, True):
        opt = SimulatedAnnealing(
            system_simulator=prob.simulator, bounds=bounds.copy(),
            store_optimizer=store, initial_temperature=1.,
            final_temperature=1e-3, step_size=1, step_ratio=1., steps=depth,
            updates=0)
        silent(opt.annealer)
        for rest in itertools.product(range(4), repeat=depth - 2):
            word = tuple(case['word']) + rest
            for accept in itertools.product((0., 1.), repeat=depth):
                if store and accept != (0.,) * depth:
                    continue
                for start in starts:
                    _schedule(ctx, opt, start, word, accept, pats, bounds,
                              energy, prob, store)


def _schedule(ctx, opt, start, word, accept, pats, bounds, energy, prob,
              store):
    moves, acc = iter(word), [0]

    def uniform(shape):
        if shape == ():
            # acceptance of the current move
            return np.array(accept[acc[0] - 1])
        return np.zeros(shape)

    def integer(low, high, shape):
        acc[0] += 1
        return (low + high - 1) // 2 + pats[next(moves)].reshape(shape)
    keep = start.copy()
    prob.log.clear()
    with rand.Controlled(uniform=uniform,
                         integer=integer).installed(python=True):
        res = opt.run_optimization(start)
    ctx.check(np.array_equal(start, keep), 'initial pulse is not altered')
    # the model
    state, e = start, energy(start)
    best, best_e = state, e
    for i, a in zip(word, accept):
        new = np.minimum(np.maximum(state + pats[i].reshape(state.shape),
                                    bounds[0]), bounds[1])
        e_new = energy(new)
        if e_new > e + 1e-13 and a == 1.:
            pass
        else:
            state, e = new, e_new
            if e < best_e:
                best, best_e = state, e
    name = ' %s %s' % (word, accept)
    ctx.step(len(word))
    ctx.state((word, accept, start.tolist()))
    ctx.trace()
    final = res.final_parameters
    ctx.close(res.final_cost, best_e, 'best energy' + name)
    ctx.close(energy(np.asarray(final)), res.final_cost,
              'final cost belongs to the final parameters' + name)
    ctx.check(np.all(final >= bounds[0]) and np.all(final <= bounds[1]),
              'result within bounds' + name)
    ctx.check(best_e <= energy(start) + 1e-12, 'not worse than the start')
    ctx.close(res.init_parameters, start, 'initial parameters' + name)
    ctx.check(res.indices == prob.labels, 'labels' + name)
    ctx.check((res.optimizer is opt) if store else res.optimizer is None,
              'optimizer on request')
    for y in prob.log:
        ctx.check(np.all(y >= bounds[0]) and np.all(y <= bounds[1]),
                  'every evaluated pulse is within bounds' + name)
    ctx.check(len(prob.log) == len(word) + 1, 'number of evaluations' + name)


def _errors(case, ctx):
    from qopt.optimize import PulseAnnealer
    for bad in (0, .5, 1.):
        a = PulseAnnealer(
            initial_state=np.zeros((1, 1), dtype=int),
            bounds=bounds_for((1, 1)), energy_function=lambda x: x,
            step_size=bad, step_ratio=1., Tmax=1., Tmin=.1, steps=3,
            updates=0)
        ctx.raises(a.move, 'the step size is a positive integer', ValueError)
        ctx.state(bad)
        ctx.step()
    ctx.trace()
