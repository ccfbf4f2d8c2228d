"""Quasi static noise traces."""
import itertools
from statistics import NormalDist

import numpy as np

from mc import rand

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = ('standard deviations x number of traces x samples per trace x '
        'sampling mode x correction flag x redraw flag x all sequences of '
        'reads up to a depth; random draws are controlled (unit impulses '
        'through the linear sampling map)')
ASSUMPTIONS = ['deterministic mode: one block of traces per operator']
STDS = ([1.], [.3], [2., .5], [.1, 4., 1.], [1., 1.], [.2, .2, .2, .7],
        [3e-13, 2e9], [.1 + .7 * (5 * i % 12) for i in range(12)])


def cases(tier, seed):
    out = []
    traces = (2, 3, 4, 5, 8, 11) + ((20, 101, 1000) if tier == 'thorough'
                                    else (50, 101, 400))
    for i in range(len(STDS)):
        for n in traces:
            for samples in (1, 2, 5):
                for corr in (True, False):
                    out.append(dict(kind='det', std=i, n=n, samples=samples,
                                    corr=corr))
    for i in range(len(STDS)):
        for n in (1, 2, 3):
            for samples in (1, 3):
                out.append(dict(kind='mc', std=i, n=n, samples=samples))
    out.append(dict(kind='reads', depth=5 if tier == 'thorough' else 4))
    out.append(dict(kind='bell'))
    return out


def run(case, ctx):
    globals()['_' + case['kind']](case, ctx)


def _det(case, ctx):
    from qopt import noise
    std = STDS[case['std']]
    n, samples = case['n'], case['samples']
    arg = list(std)
    for redraw in (True, False):
        g = noise.NTGQuasiStatic(
            standard_deviation=arg, n_samples_per_trace=samples, n_traces=n,
            always_redraw_samples=redraw,
            correct_std_for_discrete_sampling=case['corr'],
            sampling_mode='uncorrelated_deterministic')
        ctx.check(arg == std, 'arguments are not altered')
        k = len(std)
        ctx.state(redraw)
        for _ in range(2):
            ctx.step()
            x = g.noise_samples
            if not ctx.check(x.shape == (k, k * n, samples), 'shape'):
                return
            ctx.check(g.n_traces == k * n and g.n_noise_operators == k
                      and g.n_samples_per_trace == samples, 'sizes')
            ctx.check(np.array_equal(x, np.repeat(x[:, :, :1], samples, 2)),
                      'constant along every trace')
            for i in range(k):
                for j in range(k):
                    block = x[i, j * n:(j + 1) * n, 0]
                    if i != j:
                        ctx.check(np.all(block == 0),
                                  'one operator at a time')
                        continue
                    q = np.array([NormalDist().inv_cdf((2 * a + 1) / 2 / n)
                                  for a in range(n)])
                    if case['corr']:
                        q = q / np.sqrt(np.mean(q ** 2))
                    block = block / std[i]
                    ctx.close(block, q,
                              'samples divide the Gaussian distribution in '
                              'intervals of equal weight')
                    ctx.close(np.mean(block), 0., 'no bias')
                    if case['corr']:
                        ctx.close(np.sqrt(np.mean(block ** 2)), 1.,
                                  'standard deviation of the samples')
            ctx.trace()


def _mc(case, ctx):
    from qopt import noise
    std = STDS[case['std']]
    n, samples, k = case['n'], case['samples'], len(std)
    for corr in (False, True) if n > 1 else (False,):
        g = noise.NTGQuasiStatic(
            standard_deviation=list(std), n_samples_per_trace=samples,
            n_traces=n, always_redraw_samples=True,
            correct_std_for_discrete_sampling=corr,
            sampling_mode='monte_carlo')
        ctx.check(g.n_traces == n, 'number of traces')
        seen = np.zeros((k, n))
        for pos in range(k * n):
            with rand.Controlled(gauss=rand.impulse(pos)).installed():
                x = g.noise_samples
            ctx.state((corr, pos))
            ctx.step()
            if not ctx.check(x.shape == (k, n, samples), 'shape'):
                return
            ctx.check(np.array_equal(x, np.repeat(x[:, :, :1], samples, 2)),
                      'constant along every trace')
            hit = np.argwhere(x[:, :, 0] != 0)
            if ctx.check(len(hit) == 1, 'draws are independent'):
                i, j = hit[0]
                seen[i, j] += 1
                ctx.close(x[i, j, 0] / std[i], 1.,
                          'draws are scaled by the standard deviation')
            ctx.trace()
        ctx.check(np.all(seen == 1), 'one draw per operator and trace')


class Count:
    def __init__(self):
        self.n = 0

    def __call__(self, shape):
        self.n += 1
        return np.full(shape, float(self.n))


READS = ('noise_samples', 'n_traces', 'n_samples_per_trace',
         'n_noise_operators')


def _reads(case, ctx):
    from qopt import noise
    given = np.arange(24.).reshape(2, 3, 4)
    for mode, redraw in itertools.product(('mc', 'mc-given', 'coloured'),
                                          (True, False)):
        for word in itertools.product(READS, repeat=case['depth']):
            count = Count()
            kw = dict(always_redraw_samples=redraw, n_samples_per_trace=4,
                      n_traces=3)
            with rand.Controlled(gauss=count).installed():
                if mode == 'coloured':
                    g = noise.NTGColoredNoise(
                        noise_spectral_density=lambda f: f ** 0, dt=.5,
                        n_noise_operators=2, **kw)
                else:
                    g = noise.NTGQuasiStatic(
                        standard_deviation=[1., 2.],
                        sampling_mode='monte_carlo',
                        correct_std_for_discrete_sampling=False,
                        noise_samples=None if mode == 'mc' else given.copy(),
                        **kw)
                n_before = 0
                last = given if mode == 'mc-given' else None
                for r in word:
                    value = getattr(g, r)
                    ctx.step()
                    if r == 'noise_samples':
                        fresh = count.n - n_before
                        want = 1 if redraw or last is None else 0
                        ctx.check(fresh == want, 'number of draws %s'
                                  % ((mode, redraw, word),),
                                  '%d, expected %d' % (fresh, want))
                        if not redraw and last is not None:
                            ctx.check(np.array_equal(value, last),
                                      'samples are kept')
                        last = np.array(value)
                        n_before = count.n
                    else:
                        want = dict(n_traces=3, n_samples_per_trace=4,
                                    n_noise_operators=2)[r]
                        ctx.check(value == want, r)
                        ctx.check(count.n == n_before,
                                  'sizes are known without a draw')
            ctx.state((mode, redraw, word))
            ctx.trace()
    # sizes that are not given are those of the given samples
    sizes = dict(n_traces=3, n_samples_per_trace=4)
    for left in itertools.product((0, 1), repeat=2):
        kw = {k: v if keep else None
              for keep, (k, v) in zip(left, sizes.items())}

        class Given(noise.NoiseTraceGenerator):
            def _sample_noise(self, **kwargs):
                raise AssertionError('nothing to draw')

        for cls in ('quasi', 'coloured'):
            for word in itertools.permutations(READS):
                if cls == 'coloured':
                    g = Given(noise_samples=given.copy(),
                              n_noise_operators=2,
                              always_redraw_samples=False, **kw)
                else:
                    g = noise.NTGQuasiStatic(
                        standard_deviation=[1., 2.],
                        sampling_mode='monte_carlo',
                        correct_std_for_discrete_sampling=False,
                        noise_samples=given.copy(),
                        always_redraw_samples=False, **kw)
                for r in word:
                    value = getattr(g, r)
                    ctx.step()
                    if r == 'noise_samples':
                        ctx.close(value, given, 'given samples')
                    else:
                        ctx.check(value == dict(sizes, n_noise_operators=2)[
                            r], 'size of the given samples: ' + r)
                ctx.state((left, cls, word))
                ctx.trace()
    ctx.raises(lambda: noise.NTGQuasiStatic(
        standard_deviation=[1.], n_samples_per_trace=2, n_traces=1),
        'a single trace has no standard deviation', RuntimeWarning)
    ctx.raises(lambda: noise.NTGQuasiStatic(
        standard_deviation=[1.], n_samples_per_trace=2, n_traces=3,
        correct_std_for_discrete_sampling=False,
        sampling_mode='other').noise_samples, 'unknown mode', ValueError)
    ctx.raises(lambda: noise.NTGQuasiStatic(
        standard_deviation=[1.], n_samples_per_trace=2, n_traces=3,
        correct_std_for_discrete_sampling=False,
        sampling_mode='other').n_traces, 'unknown mode', ValueError)


def _bell(case, ctx):
    from qopt import noise
    for std in (.2, 1., 3.3):
        x = np.linspace(-12 * std, 12 * std, 20001)
        dx = x[1] - x[0]
        y = noise.bell_curve_1dim(x, std)
        ctx.close(np.sum(y) * dx, 1., 'normalised', tol=1e-8)
        ctx.close(np.sum(y * x * x) * dx, std ** 2, 'variance', tol=1e-7)
        ctx.close(noise.bell_curve_1dim(.7, std),
                  NormalDist(0, std).pdf(.7), 'density')
        for std2 in (.5, 2.):
            ctx.close(noise.bell_curve_2dim(.3, std, -.8, std2),
                      NormalDist(0, std).pdf(.3)
                      * NormalDist(0, std2).pdf(-.8), 'density, plane')
        for mean in (-1., 0., 2.5):
            for n in range(1, 8):
                got = noise.sample_1dim_gaussian_distribution(std, n, mean)
                ctx.close(got, [NormalDist(mean, std).inv_cdf(
                    (2 * k + 1) / 2 / n) for k in range(n)], 'quantiles')
                ctx.state((std, mean, n))
                ctx.step()
        for z in (.01, .3, .5, .9):
            ctx.close(noise.inverse_cumulative_gaussian_distribution_function(
                z, std, .4), NormalDist(.4, std).inv_cdf(z), 'inverse')
    ctx.trace()
