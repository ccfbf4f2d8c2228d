"""Coloured noise: exact second moments by linearity."""
import numpy as np

from mc import rand
from mc.rand import impulse

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = ('spectral densities x sampling times x number of samples (odd, even) '
        'x extension ratio x every unit impulse of the white noise; all '
        'impulses together determine the linear map and with it the exact '
        'expectation of the periodogram and of all correlations')
ASSUMPTIONS = ['the white noise is independent with unit variance']
PSD = dict(white=lambda f: 3. + 0 * f, pink=lambda f: .7 / f,
           square=lambda f: 1 / f ** 2, grow=lambda f: .2 + f,
           bin=lambda f: np.where(np.argmin(np.abs(f - .31 * np.max(f)))
                                  == np.arange(len(f)), 2., 0.))


def cases(tier, seed):
    out = []
    ns = (2, 3, 4, 5, 8, 9) + ((6, 7, 16, 17, 31, 32) if tier == 'thorough'
                               else (16,))
    for psd in PSD:
        for dt in (1., .1, 7.):
            for n in ns:
                for ext in (1, 2, 3):
                    out.append(dict(kind='gen', psd=psd, dt=dt, n=n, ext=ext,
                                    shape=[1, 1]))
            out.append(dict(kind='gen', psd=psd, dt=dt, n=5, ext=2,
                            shape=[2, 3]))
        out.append(dict(kind='gen', psd=psd, dt=.5, n=3, ext=1,
                        shape=[11, 2]))
        out.append(dict(kind='gen', psd=psd, dt=.5, n=3, ext=2,
                        shape=[2, 12]))
        out.append(dict(kind='gen', psd=psd, dt=1e-9, n=33, ext=1,
                        shape=[1, 1]))
        out.append(dict(kind='gen', psd=psd, dt=1e6, n=5, ext=13,
                        shape=[1, 1]))
        out.append(dict(kind='gen', psd=psd, dt=.3, n=3, ext=40,
                        shape=[1, 1]))
        for n in ns + (12, 15, 64, 65, 100):
            for p2 in (True, False):
                out.append(dict(kind='fast', psd=psd, n=n, p2=p2))
        out.append(dict(kind='periodogram', psd=psd))
    out.append(dict(kind='args'))
    return out


def model(psd, dt, n):
    """Linear map of white noise to coloured noise: cosine transform of the
    square root of the density, written out."""
    f = np.arange(n // 2 + 1) / (n * dt)
    s = np.zeros(len(f))
    s[1:] = PSD[psd](f[1:])
    amp = np.sqrt(s / (2 * dt))
    out = np.zeros((n, n))
    for t in range(n):
        for u in range(n):
            acc = 0.
            for k in range(1, len(f)):
                weight = 1. if 2 * k == n else 2.
                acc += weight * amp[k] * np.cos(2 * np.pi * k * (t - u) / n)
            out[t, u] = acc / n
    return out, f, s


def run(case, ctx):
    globals()['_' + case['kind']](case, ctx)


def periodogram(ctx, m, f, s, dt, name):
    """Expectation of the one sided periodogram of the full trace."""
    n = len(m)
    ft = np.array([[np.sum(m[:, u] * np.exp(-2j * np.pi * k * np.arange(n)
                                            / n)) for u in range(n)]
                   for k in range(len(f))])
    p = np.sum(np.abs(ft) ** 2, axis=1) * dt / n
    p[1:] *= 2
    if n % 2 == 0:
        p[-1] /= 2
        s = s.copy()
        s[-1] /= 2
    ctx.close(p, s, 'expected periodogram' + name, tol=1e-8, rtol=1)


def _gen(case, ctx):
    from qopt import noise
    n, ext, dt = case['n'], case['ext'], case['dt']
    a, b = case['shape']
    calls = []

    def psd(f):
        calls.append(np.array(f))
        return PSD[case['psd']](f)
    g = noise.NTGColoredNoise(
        n_samples_per_trace=n, noise_spectral_density=psd, dt=dt, n_traces=b,
        n_noise_operators=a, always_redraw_samples=True,
        low_frequency_extension_ratio=ext)
    total = n * ext
    want, f, s = model(case['psd'], dt, total)
    got = {}
    for pos in range(a * b * total):
        with rand.Controlled(gauss=impulse(pos)).installed() as r:
            x = g.noise_samples
        ctx.step()
        ctx.state(pos)
        if not ctx.check(x.shape == (a, b, n), 'shape', x.shape):
            return
        # the scale of the noise depends on the unit of time
        eps = 1e-9 * np.max(np.abs(want))
        hit = np.argwhere(np.any(np.abs(x) > max(eps, 1e-15), axis=2))
        full = np.max(np.abs(want)) > 1e-15
        ctx.check(len(hit) <= 1, 'traces and operators are independent')
        if not len(hit):
            continue
        i, j = hit[0]
        # which white sample of the trace was it
        dist = np.max(np.abs(want[:n] - x[i, j][:, None]), axis=0)
        cols = got.setdefault((i, j), {})
        best = sorted((d, u) for u, d in enumerate(dist) if u not in cols)
        if not ctx.check(best, 'one white sample per sample'):
            return
        u = best[0][1]
        ctx.close(x[i, j], want[:n, u], 'response to a unit impulse',
                  tol=1e-9, rtol=1)
        cols[u] = x[i, j]
    if full:
        ctx.check(len(got) == a * b, 'every trace has noise of its own')
    for key, cols in got.items():
        if ext == 1 and ctx.check(len(cols) == total,
                                 'one white sample per sample'):
            mat = np.array([cols[u] for u in range(total)]).T
            ctx.check(np.allclose(np.sum(mat, axis=0), 0,
                                  atol=1e-9 * max(1, np.max(abs(mat)))),
                      'no constant part')
            periodogram(ctx, mat, f, s, dt, ' of a trace')
    ctx.check(all(np.all(c > 0) for c in calls),
              'the density is only evaluated at positive frequencies')
    for c in calls:
        ctx.close(np.sort(c), f[1:], 'frequencies', tol=1e-12, rtol=1)
    ctx.trace()


def _fast(case, ctx):
    from qopt import noise
    n, dt = case['n'], .3
    size = n
    if case['p2']:
        size = 1
        while 2 * size <= n:
            size *= 2
    want, f, s = model(case['psd'], dt, size)
    cols = []
    for pos in range(size):
        with rand.Controlled(gauss=impulse(pos)).installed():
            x = noise.fast_colored_noise(
                PSD[case['psd']], dt=dt, n_samples=n, output_shape=(1, 1),
                r_power_of_two=case['p2'])
        ctx.state(pos)
        ctx.step()
        if not ctx.check(x.shape == (1, 1, size), 'shape', x.shape):
            return
        cols.append(x[0, 0])
        ctx.close(x[0, 0], want[:, pos], 'response', tol=1e-9, rtol=1)
    periodogram(ctx, np.array(cols).T, f, s, dt, '')
    ctx.trace()


def _periodogram(case, ctx):
    """The comparison of periodogram and density uses independent traces."""
    from qopt import noise
    n, avg = 9, 4
    g = noise.NTGColoredNoise(
        n_samples_per_trace=n, noise_spectral_density=PSD[case['psd']],
        dt=.5, n_traces=2, n_noise_operators=1)
    want, f, s = model(case['psd'], .5, n)
    for pos in range(avg * n):
        with rand.Controlled(gauss=impulse(pos)).installed():
            dev = g.plot_periodogram(n_average=avg, draw_plot=False)
        x = want[:, pos % n]
        p = np.array([abs(np.sum(x * np.exp(-2j * np.pi * k * np.arange(n)
                                            / n))) ** 2 for k in range(
            len(f))]) * 2 * .5 / n / avg
        ctx.close(dev, np.linalg.norm((p - s)[1:-1]), 'deviation', tol=1e-8,
                  rtol=1)
        if pos < 4:
            # white enough at zero frequency to be drawn logarithmically
            with rand.Controlled(gauss=impulse(pos)).installed():
                got = g.plot_periodogram(n_average=avg, draw_plot=False,
                                         scaling='spectrum')
            ctx.close(got, np.linalg.norm((p / (n * .5) - s)[1:-1]),
                      'deviation of the spectrum', tol=1e-8, rtol=1)
            _drawn(ctx, g, pos, (None, 'semilogy', 'semilogx',
                                 'loglog')[pos], avg, f, p, s, dev)
        ctx.state(pos)
        ctx.step()
    ctx.trace()


def _drawn(ctx, g, pos, log_plot, avg, f, p, s, dev):
    """The plot shows the mean periodogram and the density."""
    import matplotlib.pyplot as plt
    show, shown = plt.show, []
    plt.close('all')
    plt.show = lambda *a, **k: shown.append(1)
    try:
        with rand.Controlled(gauss=impulse(pos)).installed():
            got = g.plot_periodogram(n_average=avg, log_plot=log_plot)
        ctx.close(got, dev, 'deviation does not depend on the plot')
        if not ctx.check(len(plt.get_fignums()) == 1 and shown == [1],
                         'one figure is shown'):
            return
        ax = plt.gca()
        lines = ax.get_lines()
        if ctx.check(len(lines) == 2, 'two curves'):
            for line, want in zip(lines, (p, s)):
                x, y = line.get_xdata(), line.get_ydata()
                ctx.close(x, f, 'frequencies of the curve')
                ctx.close(y[1:-1], want[1:-1], 'curve', tol=1e-8, rtol=1)
        scales = dict(semilogy=('linear', 'log'), semilogx=('log', 'linear'),
                      loglog=('log', 'log')).get(log_plot,
                                                 ('linear', 'linear'))
        ctx.check((ax.get_xscale(), ax.get_yscale()) == scales,
                  'scales of the plot', log_plot)
        ctx.raises(lambda: g.plot_periodogram(n_average=1, log_plot='other'),
                   'unknown modes are refused')
        ctx.raises(lambda: g.plot_periodogram(
            n_average=1, scaling='other', draw_plot=False),
            'unknown scalings are refused')
    finally:
        plt.show = show
        plt.close('all')


def _args(case, ctx):
    from qopt import noise
    for psd in PSD:
        x = {}
        for name, kw in (('default', {}), ('explicit', dict(
                n_traces=1, n_noise_operators=1, always_redraw_samples=True,
                low_frequency_extension_ratio=1))):
            with rand.Controlled(gauss=impulse(2)).installed():
                x[name] = noise.NTGColoredNoise(
                    n_samples_per_trace=5, dt=.4,
                    noise_spectral_density=PSD[psd], **kw).noise_samples
        ctx.close(x['default'], x['explicit'], 'one trace of one operator, '
                  'not extended, by default')
        ctx.check(x['default'].shape == (1, 1, 5), 'shape')
    kw = dict(n_samples_per_trace=4, noise_spectral_density=PSD['white'])
    ctx.raises(lambda: noise.NTGColoredNoise(dt=[1., 2.], **kw),
               'dt is a scalar', ValueError)
    ctx.raises(lambda: noise.NTGColoredNoise(
        dt=1., low_frequency_extension_ratio=0, **kw), 'extension ratio',
        ValueError)
    ctx.state('args')
    ctx.step()
    ctx.trace()
