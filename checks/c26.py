"""The simulator: assembly of costs and gradients over several solvers.

Every ordered list of cost functions (of different solvers, dimensions,
transfer functions and numbers of values) is put into a simulator, and all
sequences of its operations up to the depth are executed.  The oracle
evaluates each cost function alone on a solver of its own."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C26'
LEVEL = 'model_checking'
RULE = ('all ordered lists of up to three cost functions on four solvers x '
        'statistics on/off x numeric jacobian x all sequences of {costs, '
        'gradient, numeric gradient (forward, symmetric), comparison, set '
        'pulse, use the stored pulse, set a solver to another pulse, failing '
        'evaluation} up to the depth; all pulses over {0, 1, -2} in several '
        'array types; state = (list, word)')
ASSUMPTIONS = ['fixed noise traces', 'finite differences follow their '
               'definition up to rounding']
COSTS = ('op', 'leak', 'super', 'noise', 'vector', 'incoherent', 'liouville')
GRAD = ('op', 'leak', 'super', 'noise')
SOLVER = dict(op=0, vector=0, leak=1, liouville=1, super=2, noise=3,
              incoherent=3)
OPS = ('cost0', 'cost1', 'cost', 'grad0', 'grad1', 'grad', 'pulse0',
       'pulse1', 'fwd', 'sym', 'compare', 'meddle', 'fail')
EPS = 2e-4
ENTRIES = (0, 1, -2)


def cases(tier, seed):
    out = []
    for n in (1, 2, 3):
        for word in itertools.product(COSTS, repeat=n):
            if n == 3 and tier == 'quick' and len(set(word)) == 2 \
                    and word[0] == word[1]:
                continue
            out.append(dict(kind='lists', costs=list(word)))
    # more cost functions, longer pulses
    for i in range(len(COSTS)):
        word = [COSTS[(i + 3 * k) % len(COSTS)] for k in range(13)]
        out.append(dict(kind='lists', costs=word[:4], num_t=5))
        out.append(dict(kind='lists', costs=word))
        word = [GRAD[(i + 3 * k + k // 4) % 4] for k in range(13)]
        out.append(dict(kind='lists', costs=word[:4]))
        out.append(dict(kind='lists', costs=word))
        if i < len(GRAD):
            out.append(dict(kind='lists', costs=word[:2], num_t=s.LONG))
    depth = 4 if tier == 'thorough' else 3
    for word in (['op', 'leak', 'super'], ['noise', 'op'],
                 ['leak', 'noise', 'leak']):
        for stats in (True, False):
            for numeric in (True, False):
                for first in OPS:
                    out.append(dict(kind='history', costs=word, stats=stats,
                                    numeric=numeric, first=first,
                                    depth=depth if word[0] != 'leak'
                                    and (stats or not numeric)
                                    else depth - 1))
    for first in range(6):
        out.append(dict(kind='shapes', first=first))
    out.append(dict(kind='timing'))
    for word in (['op'], ['leak', 'op'], ['super', 'noise'])[
            :None if tier == 'thorough' else 2]:
        for first in itertools.product(ENTRIES, repeat=2):
            out.append(dict(kind='entries', costs=word, first=list(first)))
    return out


def run(case, ctx):
    globals()['_' + case['kind']](case, ctx)


class Bad(Exception):
    pass


class Build:
    """Real solvers and cost functions."""

    def __init__(self, seed, num_t=2):
        from checks.c06 import generator
        from qopt import amplitude_functions as af
        from qopt import solver_algorithms as sa
        from qopt import transfer_function as tf
        self.seed = seed
        rng = s.rng_for(seed, 'c26')
        noise = .3 * rng.standard_normal((1, 3, num_t))
        h_noise = [s.op(m.herm(rng, 3))]
        lind = [s.op(.3 * m.general(rng, 2))]
        kernel = np.array([[.1, .2], [.6, .5], [.1, .3]])
        sy = [s.System(seed, d, 2, k, 'steps')
              for d, k in ((2, num_t), (3, 2 * num_t), (2, num_t),
                           (3, num_t))]
        kw = [dict(h_drift=x.h_drift(), h_ctrl=x.h_ctrl(),
                   tau=s.taus(num_t))
              for x in sy]
        self.solvers = [
            sa.SchroedingerSolver(**kw[0]),
            sa.SchroedingerSolver(
                transfer_function=tf.OversamplingTF(num_ctrls=2,
                                                    oversampling=2),
                amplitude_function=af.UnaryAnalyticAmpFunc(
                    lambda x: x + .1 * x ** 2, lambda x: 1 + .2 * x),
                **kw[1]),
            sa.LindbladSolver(
                lindblad_operators=lind,
                transfer_function=tf.ConvolutionTF(kernel=kernel,
                                                   num_ctrls=2), **kw[2]),
            sa.SchroedingerSMonteCarlo(
                h_noise=h_noise, noise_trace_generator=generator([noise]),
                **kw[3])]
        self.targets = [s.op(m.unitary(rng, 2)), s.op(m.unitary(rng, 3))]

    def cost(self, name, label=None):
        from qopt import cost_functions as cf
        k = dict(solver=self.solvers[SOLVER[name]])
        if label is not None:
            k['label'] = label
        if name == 'op':
            return cf.OperationInfidelity(target=self.targets[0], **k)
        if name == 'vector':
            return cf.OperatorMatrixNorm(target=self.targets[0],
                                         mode='vector', **k)
        if name == 'leak':
            return cf.LeakageError(computational_states=[2, 0], **k)
        if name == 'liouville':
            return cf.LeakageLiouville(computational_states=[0, 1],
                                       input_unitary=True, **k)
        if name == 'super':
            return cf.OperationInfidelity(
                target=self.targets[0], super_operator_formalism=True, **k)
        if name == 'noise':
            return cf.OperationNoiseInfidelity(
                target=self.targets[1], neglect_systematic_errors=False, **k)
        return cf.IncoherentLeakageError(computational_states=[1, 2], **k)


class Oracle:
    """Every cost function evaluated alone, memoised."""

    def __init__(self, seed, num_t=2):
        self.seed = seed
        self.num_t = num_t
        self.alone = {}
        self.memo = {}

    def one(self, name, pulse):
        key = (name, pulse.tobytes())
        if key not in self.memo:
            if name not in self.alone:
                b = Build(self.seed, self.num_t)
                self.alone[name] = (b.solvers[SOLVER[name]], b.cost(name))
            solver, fn = self.alone[name]
            solver.set_optimization_parameters(pulse)
            self.memo[key] = np.array(fn.costs(), dtype=float).ravel()
        return self.memo[key]

    def costs(self, names, pulse):
        return np.concatenate([self.one(n, pulse) for n in names])

    def numeric(self, names, pulse, eps, symmetric):
        out = []
        for idx in np.ndindex(*pulse.shape):
            d = np.zeros(pulse.shape)
            d[idx] = eps
            lo = self.costs(names, pulse - d if symmetric else pulse)
            out.append((self.costs(names, pulse + d) - lo)
                       / (2 * eps if symmetric else eps))
        return np.array(out).reshape(pulse.shape + (-1,)).transpose(0, 2, 1)

    def grad(self, names, pulse):
        key = ('grad', tuple(names), pulse.tobytes())
        if key not in self.memo:
            # Richardson extrapolation of central differences
            a = self.numeric(names, pulse, 1e-3, True)
            b = self.numeric(names, pulse, 5e-4, True)
            self.memo[key] = (4 * b - a) / 3
        return self.memo[key]


def pulses(seed, num_t=2):
    rng = s.rng_for(seed, 'c26 pulses')
    # the second pulse consists of the numbers of the first one
    first = rng.standard_normal((num_t, 2))
    return [first, first[::-1, ::-1].copy()]


def _lists(case, ctx):
    from qopt.simulator import Simulator
    names = case['costs']
    num_t = case.get('num_t', 2)
    oracle = Oracle(ctx.seed, num_t)
    ps = pulses(ctx.seed, num_t)
    used = sorted({SOLVER[n] for n in names})
    for order, given, stats in (
            (used, True, True), (used[::-1], False, False),
            ([0, 1, 2, 3], True, False), ([3, 2, 1, 0], False, True)):
        b = Build(ctx.seed, num_t)
        labels = [['label %d' % i] for i in range(len(names))]
        if len(names) > 1 and given:
            labels[-1] = ['x', 'y', 'z']
        fns = [b.cost(n, lab if given else None)
               for n, lab in zip(names, labels)]
        sim = Simulator(solvers=[b.solvers[i] for i in order],
                        cost_funcs=fns, record_performance_statistics=stats)
        want = sum(labels, []) if given else sum(
            [list(f.label) for f in fns], [])
        ctx.state((order, given, stats))
        for _ in range(2):
            ctx.check(list(sim.cost_indices) == want, 'labels of the costs '
                      'in the order of the cost functions', sim.cost_indices)
        for p in ps:
            keep = p.copy()
            value = sim.wrapped_cost_functions(p)
            ctx.step()
            ctx.check(isinstance(value, np.ndarray) and value.ndim == 1,
                      'costs are a one dimensional array', repr(value))
            ctx.close(value, oracle.costs(names, p), 'concatenated costs')
            if all(n in GRAD for n in names):
                g = sim.wrapped_jac_function(p)
                ctx.close(g, oracle.grad(names, p), 'concatenated gradients',
                          tol=1e-6)
            ctx.check(np.array_equal(p, keep), 'the pulse is not altered')
        ctx.trace()


class Failing:
    """Fails on request."""

    def __init__(self, solver):
        self.solver = solver
        self.label = ['failing']
        self.fail = False

    def costs(self):
        if self.fail:
            raise Bad()
        return 0.

    def grad(self):
        if self.fail:
            raise Bad()
        return np.zeros((2, 2))


def _history(case, ctx):
    names = case['costs']
    oracle = Oracle(ctx.seed)
    for rest in itertools.product(OPS, repeat=case['depth'] - 1):
        word = (case['first'],) + rest
        if word.count('fail') > 1 or word.count('meddle') > 1 or \
                word.count('fwd') + word.count('sym') \
                + word.count('compare') > 2:
            continue
        _word(case, ctx, names, oracle, word)


def _word(case, ctx, names, oracle, word):
    from qopt.simulator import Simulator
    ps = pulses(ctx.seed)
    b = Build(ctx.seed)
    fns = [b.cost(n) for n in names]
    bad = Failing(b.solvers[0])
    # the failing cost function sits before the last one
    fns.insert(len(fns) - 1, bad)
    used = sorted({SOLVER[n] for n in names})
    sim = Simulator(solvers=[b.solvers[i] for i in used], cost_funcs=fns,
                    optimization_parameters=ps[0].copy(),
                    record_performance_statistics=case['stats'],
                    numeric_jacobian=case['numeric'])
    stored = 0
    n_cost = 0
    n_grad = 0
    pos = sum(len(oracle.one(n, ps[0])) for n in names[:-1])

    def without(a, axis):
        row = np.take(a, [pos], axis=axis)
        ctx.check(np.all(row == 0), 'row of the cost function that vanishes')
        return np.delete(a, pos, axis=axis)
    ctx.state(word)
    size = ps[0].size
    for op in word:
        ctx.step()
        arg = ps[int(op[-1])] if op[-1] in '01' else None
        now = ps[stored] if arg is None else arg
        name = ' %s after %s' % (op, word)
        if op.startswith('cost'):
            got = without(sim.wrapped_cost_functions(arg) if arg is not None
                          else sim.wrapped_cost_functions(), 0)
            n_cost += 1
            ctx.close(got, oracle.costs(names, now), 'costs' + name)
        elif op.startswith('grad'):
            got = without(sim.wrapped_jac_function(arg) if arg is not None
                          else sim.wrapped_jac_function(), 1)
            ctx.close(got, oracle.grad(names, now), 'gradient' + name,
                      tol=3e-6 if case['numeric'] else 1e-6)
            if case['numeric']:
                n_cost = None
            else:
                n_grad += 1
        elif op in ('pulse0', 'pulse1'):
            stored = int(op[-1])
            sim.pulse = ps[stored]
            ctx.check(np.array_equal(sim.pulse, ps[stored]), 'stored pulse')
        elif op in ('fwd', 'sym'):
            keep = now.copy()
            got = without(sim.numeric_gradient(
                delta_eps=EPS, symmetric=op == 'sym'), 1)
            n_cost = None
            ctx.close(got, oracle.numeric(names, keep, EPS, op == 'sym'),
                      'finite differences' + name, tol=1e-9)
        elif op == 'compare':
            keep = now.copy()
            norm, rel = sim.compare_numeric_to_analytic_gradient(
                delta_eps=EPS)
            a = oracle.numeric(names, keep, EPS, False)
            g = oracle.grad(names, keep)
            want = np.linalg.norm(a - g)
            if case['numeric']:
                # the default step of the numeric jacobian
                ctx.check(abs(norm - want) < 1e-5, 'difference of the '
                          'gradients' + name, (norm, want))
            else:
                ctx.close(norm, want, 'difference of the gradients' + name,
                          tol=1e-6)
                ctx.close(rel, 2 * norm / (np.linalg.norm(a)
                                           + np.linalg.norm(g)),
                          'relative difference' + name, tol=1e-6)
                n_grad += 1
            n_cost = None
        elif op == 'meddle':
            b.solvers[used[0]].set_optimization_parameters(ps[1] * 2.)
        elif op == 'fail':
            bad.fail = True
            ctx.raises(lambda: sim.wrapped_cost_functions(ps[1]),
                       'the error reaches the caller', Bad)
            ctx.raises(lambda: sim.wrapped_jac_function(ps[1]),
                       'the error reaches the caller', Bad)
            bad.fail = False
            n_cost = n_grad = None
        if n_cost is None or n_grad is None:
            n_cost = n_grad = None
            break_stats = True
        else:
            break_stats = False
        if not case['stats']:
            ctx.check(sim.stats is None, 'no statistics')
        elif not break_stats:
            c, g = (sim.stats.cost_func_eval_times,
                    sim.stats.grad_func_eval_times)
            ctx.check(len(c) == n_cost and len(g) == n_grad,
                      'one record per evaluation' + name, (c, g))
            ctx.check(all(len(r) == len(fns) and min(r) >= 0
                          for r in c + g), 'one time per cost function'
                      + name, (c, g))
        else:
            n_cost = n_grad = 0
            sim.stats.cost_func_eval_times.clear()
            sim.stats.grad_func_eval_times.clear()
        if n_cost is None:
            n_cost = n_grad = 0
    ctx.check(size == 4 and all(np.array_equal(a, c) for a, c in zip(
        ps, pulses(ctx.seed))), 'the pulses are not altered')
    ctx.trace()


def _entries(case, ctx):
    """Pulses with zeros, of one sign, of integers, in any memory order."""
    from qopt.simulator import Simulator
    names = case['costs']
    oracle = Oracle(ctx.seed)
    b = Build(ctx.seed)
    fns = [b.cost(n) for n in names]
    used = sorted({SOLVER[n] for n in names})
    sim = Simulator(solvers=[b.solvers[i] for i in used], cost_funcs=fns)
    for rest in itertools.product(ENTRIES, repeat=2):
        p = np.array(case['first'] + list(rest), dtype=float).reshape(2, 2)
        ctx.state(p)
        costs, grad = oracle.costs(names, p), oracle.grad(names, p)
        diff = {sym: oracle.numeric(names, p, EPS, sym)
                for sym in (False, True)}
        for kind, q in (('float', p.copy()), ('fortran', np.asfortranarray(p)),
                        ('small', np.float32(p)),
                        ('view', np.repeat(p, 2, axis=0)[::2])):
            keep = q.copy()
            for given in (True, False):
                args = [q] if given else []
                if not given:
                    sim.pulse = q
                ctx.step()
                name = ' at %s %s %s' % (p.tolist(), kind, given)
                ctx.close(sim.wrapped_cost_functions(*args), costs,
                          'costs' + name)
                ctx.close(sim.wrapped_jac_function(*args), grad,
                          'gradient' + name, tol=1e-6)
                for sym in (False, True) if given == (kind != 'small') \
                        else ():
                    ctx.close(sim.numeric_gradient(
                        *args, delta_eps=EPS, symmetric=sym), diff[sym],
                        'finite differences' + name, tol=1e-8)
                    if kind != 'float':
                        continue
                    norm, _ = sim.compare_numeric_to_analytic_gradient(
                        *args, delta_eps=EPS, symmetric=sym)
                    ctx.close(norm, np.linalg.norm(diff[sym] - grad),
                              'difference of the gradients' + name, tol=1e-5)
            ctx.check(q.dtype == keep.dtype and np.array_equal(q, keep),
                      'the pulse is not altered' + name)
        ctx.trace()


def _shapes(case, ctx):
    """The stored pulse, used for pulses of all shapes one after another."""
    from qopt import cost_functions as cf
    from qopt import solver_algorithms as sa
    from qopt.simulator import Simulator
    rng = s.rng_for(ctx.seed, 'c26 shapes')
    shapes = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 2), (s.LONG, 3)]
    made = {}
    for shape in shapes:
        system = s.System(ctx.seed, 2, shape[1], shape[0], 'steps')
        solver = sa.SchroedingerSolver(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
            tau=s.taus(shape[0]))
        made[shape] = (solver, cf.OperationInfidelity(
            solver=solver, target=s.op(m.unitary(rng, 2))),
            rng.standard_normal(shape))
        # idle slots
        made[shape][2][1::3] = 0.
    memo = {}
    for rest in itertools.product(shapes, repeat=2):
        word = (shapes[case['first']],) + rest
        sim = None
        for shape in word:
            solver, fn, pulse = made[shape]
            if sim is None:
                sim = Simulator(solvers=[solver], cost_funcs=[fn])
                ctx.check(sim.pulse is None, 'no pulse yet')
            sim.solvers, sim.cost_funcs = [solver], [fn]
            sim.pulse = pulse
            ctx.step()
            value = sim.wrapped_cost_functions()
            fresh = Simulator(solvers=[solver], cost_funcs=[fn],
                              optimization_parameters=pulse)
            ctx.close(value, fresh.wrapped_cost_functions(), 'costs of the '
                      'stored pulse')
            if shape[0] < s.LONG or shape not in memo:
                memo[shape] = sim.numeric_gradient(
                    delta_eps=1e-5, symmetric=True)
            ctx.close(sim.wrapped_jac_function(), memo[shape],
                      'gradient at the stored pulse', tol=1e-6)
        sim.pulse = None
        ctx.check(sim.pulse is None, 'pulse removed')
        ctx.state(word)
        ctx.trace()


def _timing(case, ctx):
    """Recorded times are the durations of the evaluations."""
    import time
    from qopt.simulator import Simulator
    pause = .01
    build = Build(ctx.seed)
    pulse = np.array([[.3, -.2], [.5, .1]])
    for word in itertools.product((0, 1, 2), repeat=3):
        fns = [build.cost(n) for n in ('op', 'leak', 'super')]
        for fn, slow in zip(fns, word):
            for k, name in enumerate(('costs', 'grad')):
                if slow > k:
                    setattr(fn, name, _paused(getattr(fn, name), pause))
        sim = Simulator(solvers=build.solvers[:3], cost_funcs=fns,
                        record_performance_statistics=True)
        for k, (call, attr) in enumerate((
                (sim.wrapped_cost_functions, 'cost_func_eval_times'),
                (sim.wrapped_jac_function, 'grad_func_eval_times'))):
            for _ in range(2):
                n = len(getattr(sim.stats, attr))
                start = time.perf_counter()
                call(pulse)
                total = time.perf_counter() - start
                times = getattr(sim.stats, attr)
                if not ctx.check(len(times) == n + 1
                                 and len(times[-1]) == 3,
                                 'one record per evaluation'):
                    continue
                slow = [w > k for w in word]
                slept = pause * sum(slow)
                for x, late in zip(times[-1], slow):
                    ctx.check(x >= (.9 * pause if late else -1e-3)
                              and x <= total - slept + pause * late + 5e-3,
                              'recorded time is the time of the evaluation',
                              (times[-1], slow, total))
                ctx.check(sum(times[-1]) <= total + 5e-3,
                          'times do not overlap')
        ctx.state(word)
        ctx.step(4)
        ctx.trace()


def _paused(func, pause):
    def late(*args, **kwargs):
        import time
        time.sleep(pause)
        return func(*args, **kwargs)
    return late
