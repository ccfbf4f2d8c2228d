"""Analysis of stored optimisation runs."""
import itertools

import numpy as np

PROPERTY = 'C20'
LEVEL = 'model_checking'
RULE = ('all data sets of up to three runs over a finite alphabet of final '
        'costs and cost histories of different lengths, scalar and vector '
        'costs; compared with sums written out per run')
ASSUMPTIONS = ['every run has at least one recorded evaluation']
FINAL = ([0., 2.], [-1., .5], [1.2, 1.], [.5, .5], [-3., 0.],
         [2.1, -2.], [-3., 3.])
HIST = ((1,), (1, 2), (3, 1, 2), (2, 2))
# long records
LONG = HIST + (tuple(range(1, 13)), tuple(range(30, 0, -1)))


def cases(tier, seed):
    n = (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3)
    return [dict(runs=k, scalar=sc, width=w, scale=scale) for k in n
            for sc in (False, True) for w in (1, 2, 3)
            for scale in (1., 1e-9, 1e9)
            if not (sc and w > 1) and (scale == 1. or k == 2)] + [
        dict(runs=k, scalar=sc, width=w, scale=1., many=True)
        for k in (11, 25) for sc, w in ((True, 1), (False, 2), (False, 12))
    ] + [dict(near=True, runs=k) for k in (2, 3)]


def run(case, ctx):
    import matplotlib.pyplot as plt
    from qopt import optimization_data as od
    from qopt.analyser import Analyser
    from qopt.data_container import DataContainer
    from qopt.performance_statistics import PerformanceStatistics
    if 'near' in case:
        return _near(case, ctx)
    w, scale = case['width'], case['scale']
    letters = list(itertools.product(range(len(FINAL)), range(len(HIST))))
    if case['runs'] > 2:
        letters = letters[::3] if case['runs'] == 3 else letters[::5]
    labels = ['c%d' % i for i in range(w)]
    if 'many' in case:
        # every position of the best run
        rest = (2, 4, 5, 6)
        words = [tuple((3 if i == best else rest[i % 4],
                        (i + shift) % (len(HIST) + 2))
                       for i in range(case['runs']))
                 for best in range(case['runs']) for shift in range(3)]
    else:
        words = itertools.product(letters, repeat=case['runs'])
    for word in words:
        data = DataContainer(storage_path='.')
        finals, hists, stats = [], [], []
        for pos, (f, h) in enumerate(word):
            final = [scale * x for x in (FINAL[f] + [.25] * w)[:w]]
            hist = [scale * (np.array([x * (j + 1.) * (-1) ** j
                                       for j in range(w)])
                             + .1 * pos) for x in LONG[h]]
            st = PerformanceStatistics()
            st.start_t_opt, st.end_t_opt = 5. * pos, 5. * pos + 2. + h
            st.cost_func_eval_times = [[.1 * x + .01 * j for j in range(w)]
                                       for x in LONG[h]]
            st.grad_func_eval_times = [[.3 * x + .02 * j for j in range(w)]
                                       for x in LONG[h][1:] + (4,)]
            data.append_optim_result(od.OptimizationResult(
                final_cost=final[0] if case['scalar'] else np.array(final),
                indices=labels, final_parameters=np.zeros((1, 1)),
                init_parameters=np.zeros((1, 1)), status=1,
                optimization_stats=st,
                optim_summary=od.OptimizationSummary(
                    indices=labels, costs=hist, iter_num=len(hist),
                    parameters=[np.zeros((1, 1))] * len(hist))))
            finals.append(final)
            hists.append(hist)
            stats.append(st)
            if pos == 0:
                a = Analyser(data)
            # the data may grow between the requests
            if pos in (0, len(word) - 2) and sum(sum(x) for x in word) % 2:
                a.n_least_square, a.absolute_costs(), a.opt_times()
                a.total_cost_fkt_time(), a.total_grad_fkt_time()
                a.time_share_cost_fkt(), a.time_share_grad_fkt()
                a.integral_cost_fkt_times(pos), a.integral_grad_fkt_times(pos)
        name = ' %s' % (word,)
        ctx.state(word)
        ctx.step(case['runs'])
        sums = [sum((x / scale) ** 2 for x in f) for f in finals]
        got = a.n_least_square
        ctx.check(isinstance(got, int) and abs(sums[got] - min(sums)) < 1e-12,
                  'best run' + name, '%s %s' % (got, sums))
        n_max = max(len(h) for h in hists)
        want = np.full((len(hists), n_max), np.nan)
        for i, h in enumerate(hists):
            for j, c in enumerate(h):
                want[i, j] = np.sqrt(sum(x * x for x in c))
        abs_costs = a.absolute_costs()
        ok = ctx.check(abs_costs.shape == want.shape and np.array_equal(
            np.isnan(abs_costs), np.isnan(want)),
            'absolute costs are padded with nan' + name)
        if ok:
            ctx.close(np.nan_to_num(abs_costs) / scale,
                      np.nan_to_num(want) / scale,
                      'absolute costs' + name)
        total_c = total_g = 0.
        for i, st in enumerate(stats):
            c = [sum(t[j] for t in st.cost_func_eval_times)
                 for j in range(w)]
            g = [sum(t[j] for t in st.grad_func_eval_times)
                 for j in range(w)]
            ctx.close(a.integral_cost_fkt_times(i), c, 'time per cost'
                      + name)
            ctx.close(a.integral_grad_fkt_times(i), g, 'time per gradient'
                      + name)
            total_c += sum(c)
            total_g += sum(g)
            if i == 0:
                ctx.close(a.integral_cost_fkt_times(), c,
                          'the first run by default' + name)
                ctx.close(a.integral_grad_fkt_times(), g,
                          'the first run by default' + name)
        times = [st.end_t_opt - st.start_t_opt for st in stats]
        ctx.close(a.opt_times(), times, 'run times' + name)
        ctx.close(a.total_cost_fkt_time(), total_c, 'total time' + name)
        ctx.close(a.total_grad_fkt_time(), total_g, 'total time' + name)
        ctx.close(a.time_share_cost_fkt(), total_c / sum(times),
                  'share of time' + name)
        ctx.close(a.time_share_grad_fkt(), total_g / sum(times),
                  'share of time' + name)
        ctx.trace()
        if case['runs'] == 1 or (case['runs'] == 2 and word[0][0] == 0
                                 and word[1][0] == 1):
            for n in range(case['runs']):
                for log_y in (True, False):
                    _, axis = plt.subplots()
                    ax = a.plot_costs(n, log_y=log_y, ax=axis)
                    ctx.check(ax is axis, 'axis in use')
                    lines = ax.get_lines()
                    if ctx.check(len(lines) == w, 'one line per cost'):
                        for j, line in enumerate(lines):
                            ctx.close(line.get_ydata(),
                                      [c[j] for c in hists[n]],
                                      'plotted costs' + name, tol=0.)
                            ctx.check(line.get_label() == labels[j],
                                      'label of the line')
                    ctx.check(ax.get_yscale() == ('log' if log_y else
                                                  'linear'), 'scale')
                    plt.close('all')
            lines = a.plot_costs().get_lines()
            if ctx.check(len(lines) == w, 'one line per cost'):
                for j, line in enumerate(lines):
                    ctx.close(line.get_ydata(), [c[j] for c in hists[0]],
                              'the first run is plotted by default' + name,
                              tol=0.)
            fig, ax = a.plot_absolute_costs()
            ctx.check(len(ax.get_lines()) == case['runs']
                      and ax.get_yscale() == 'log',
                      'one line per run, logarithmic')
            for i, line in enumerate(ax.get_lines()):
                y = np.asarray(line.get_ydata(), dtype=float)
                ctx.close(np.nan_to_num(y) / scale,
                          np.nan_to_num(want[i]) / scale,
                          'plotted absolute costs' + name)
            plt.close('all')


# final costs that are nearly equal, and that are small in different orders
NEAR = (1., 1. + 1e-9, 1. - 1e-9, -1. - 2e-9)
TINY = (1e-5, -3e-6, 2e-8, 5e-12)
BIG = (1e9, 1e9 + 1., -1e9 + 1., 3e12)


def _near(case, ctx):
    """The best run among runs of nearly the same costs."""
    from qopt import optimization_data as od
    from qopt.analyser import Analyser
    from qopt.data_container import DataContainer
    for values, vector in itertools.product((NEAR, TINY, BIG), (0, 1, 2)):
        for word in itertools.permutations(range(len(values)), case['runs']):
            finals = [values[i] for i in word]
            if vector:
                # the second cost is the same small one for all runs
                finals = [np.array([.5 * min(map(abs, values)), f][::2 * (
                    vector == 1) - 1]) for f in finals]
            data = DataContainer(storage_path='.')
            for f in finals:
                data.append_optim_result(od.OptimizationResult(
                    final_cost=f, indices=['a', 'b'][:1 + bool(vector)],
                    final_parameters=np.zeros((1, 1)),
                    init_parameters=np.zeros((1, 1)), status=1))
            want = min(range(len(word)), key=lambda k: abs(values[word[k]]))
            got = Analyser(data).n_least_square
            ctx.state((word, vector, values[0]))
            ctx.step(case['runs'])
            ctx.check(got == want, 'best run', '%s of %s' % (got, finals))
            ctx.trace()
