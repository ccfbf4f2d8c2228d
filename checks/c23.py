"""Plots show the numbers they are named after."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s
from mc import tfs

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = ('energy spectra of all Hamiltonians of a family (structured entries, '
        'degenerate, up to four levels) and every basis vector of the colour '
        'map; Bloch spheres of all control words x initial states; pulse '
        'plots of every transfer function x every unit pulse; the drawn '
        'artists are read back')
ASSUMPTIONS = ['colours are only compared for eigenvalues that are not '
               'degenerate']


def cases(tier, seed):
    out = [dict(kind='colors', n=n) for n in (1, 2, 3, 4, 5, 6, 7, 10, 17)]
    for dim in (1, 2, 3, 4, 11):
        for k in (1, 2, 3, 12, 60):
            if k > 3 and dim not in (2, 4):
                continue
            out.append(dict(kind='spectrum', dim=dim, k=k))
    for depth in (1, 2, 3, s.LONG):
        out.append(dict(kind='bloch', depth=depth))
    ds = [tfs.with_n(d, n) for d in tfs.atoms(False) for n in (1, 2)]
    ds += tfs.composites(False)
    if tier == 'quick':
        ds = ds[::3]
    large = tfs.large()[::1 if tier == 'thorough' else 4]
    for i in range(0, len(large), 5):
        out.append(dict(kind='pulse', chunk=large[i:i + 5], long=True))
    for i in range(0, len(ds), 10):
        out.append(dict(kind='pulse', chunk=ds[i:i + 10]))
    return out


def run(case, ctx):
    import matplotlib.pyplot as plt
    try:
        globals()['_' + case['kind']](case, ctx)
    finally:
        plt.close('all')


def palette(n):
    import matplotlib
    return np.array(matplotlib.colormaps['brg'](np.linspace(0, 1, n)))[:, :3]


def mixed(vector):
    """colour of a vector, from the definition"""
    colors = palette(len(vector))
    rgb = [sum(abs(v) * c[k] for v, c in zip(vector, colors))
           for k in range(3)]
    return np.array(rgb) / max(rgb)


def _colors(case, ctx):
    from qopt.energy_spectrum import vector_color_map
    n = case['n']
    rng = s.rng_for(ctx.seed, 'c23', n)
    family = [np.eye(n, dtype=complex)[i] * z for i in range(n)
              for z in (1, -1, 1j, .2)]
    family += [np.array(v, dtype=complex) for v in itertools.product(
        (0, 1, -2j), repeat=min(n, 3)) if any(v)] if n <= 3 else [
        rng.standard_normal(n) + 1j * rng.standard_normal(n)
        for _ in range(20)]
    for k in (1, 2, 3):
        for i in range(len(family)):
            rows = np.array([family[(i + j) % len(family)]
                             for j in range(k)])
            keep = rows.copy()
            got = vector_color_map(rows)
            ctx.step()
            ctx.state((k, i))
            ctx.close(got, [mixed(v) for v in rows], 'colours')
            ctx.check(np.all(got >= 0) and np.all(got <= 1 + 1e-12),
                      'valid colours')
            ctx.check(np.array_equal(rows, keep), 'vectors are unaltered')
    ctx.trace()


def hamiltonians(dim, ctx):
    rng = s.rng_for(ctx.seed, 'c23 h', dim)
    out = [np.diag(np.arange(dim)[::-1]).astype(complex),
           np.eye(dim, dtype=complex), m.herm(rng, dim), m.herm(rng, dim),
           np.diag([2.] + [1.] * (dim - 1)).astype(complex)]
    if dim > 1:
        x = np.zeros((dim, dim), dtype=complex)
        x[0, 1], x[1, 0] = 1j, -1j
        out.append(x + np.diag(np.arange(dim) * .1))
    return out


def _spectrum(case, ctx):
    import matplotlib.pyplot as plt
    from qopt.energy_spectrum import plot_energy_spectrum
    dim = case['dim']
    family = hamiltonians(dim, ctx)
    words = itertools.product(range(len(family)), repeat=case['k']) \
        if case['k'] < 4 else s.long_words(len(family), case['k'], 1)
    for word in words:
        hs = [family[i] for i in word]
        x_val = np.concatenate([[.5, -1., 2.], 3. + np.arange(
            case['k']) * 17 % 61])[:case['k']]
        colored = sum(word) % 3 != 0
        given = sum(word) % 2 == 0
        axis = plt.subplots()[1] if given else None
        operators = s.ops(hs)
        ax = plot_energy_spectrum(
            operators, x_val, 'field', ax=axis,
            use_spectral_decomposition=colored, s=7.)
        ctx.step()
        ctx.state(word)
        for o, h in zip(operators, hs):
            ctx.check(np.array_equal(o.data, h), 'Hamiltonians unaltered')
        if given:
            ctx.check(ax is axis, 'draws in the given axes')
        ctx.check(ax.get_xlabel() == 'field', 'label of the axis')
        drawn = []
        for col in ax.collections:
            pts = np.asarray(col.get_offsets())
            rgb = np.asarray(col.get_facecolors())
            rgb = np.broadcast_to(rgb, (len(pts), 4))
            ctx.close(col.get_sizes(), 7. * np.ones(len(col.get_sizes())),
                      'arguments of the plot are passed on')
            drawn += [(p[0], p[1], c[:3]) for p, c in zip(pts, rgb)]
        ctx.check(len(drawn) == dim * case['k'], 'one point per eigenvalue')
        for x, h in zip(x_val, hs):
            w, v = np.linalg.eigh(h)
            mine = sorted([d for d in drawn if d[0] == x],
                          key=lambda d: d[1])
            if not ctx.check(len(mine) == dim, 'points at each x value'):
                continue
            ctx.close([d[1] for d in mine], w, 'eigenvalues')
            for i in range(dim):
                gap = min([abs(w[i] - w[j]) for j in range(dim) if j != i]
                          + [1.])
                if not colored:
                    ctx.close(mine[i][2], np.zeros(3), 'black points')
                elif gap > 1e-6:
                    ctx.close(mine[i][2], mixed(v[:, i]), 'colour shows the '
                              'contributions to the eigenvector')
        plt.close('all')
        ctx.trace()


def _bloch(case, ctx):
    import matplotlib.pyplot as plt
    from qopt import solver_algorithms as sa
    from qopt.plotting import plot_bloch_vector_evolution
    letters = s.alphabet(2, ctx.seed, 4)
    depth = case['depth']
    rng = s.rng_for(ctx.seed, 'c23 bloch')
    kets = [np.array([[1], [0]]), np.array([[0], [1]]),
            np.array([[1], [1]]) / np.sqrt(2),
            np.array([[1], [1j]]) / np.sqrt(2), m.ket(rng, 2)]
    words = list(s.words(letters, depth) if depth < 4 else s.long_words(
        len(letters), depth))
    if ctx.tier == 'quick' and depth == 3:
        words = words[::8]
    for w in words:
        system = s.System(ctx.seed, 2, 2, depth)
        solver = sa.SchroedingerSolver(
            h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
            tau=s.taus(depth))
        pulse = np.array([letters[i] for i in w])
        solver.set_optimization_parameters(pulse)
        props = m.forward(m.propagators(system.drifts, system.ctrls, pulse,
                                        s.taus(depth)), np.eye(2))
        for i, ket in enumerate(kets):
            if depth == 3 and ctx.tier == 'quick' and (i + sum(w)) % 3:
                continue
            b = plot_bloch_vector_evolution(
                solver.forward_propagators, s.op(ket), return_bloch=True)
            ctx.step(depth)
            ctx.state((w, i))
            want = np.array([[(p @ ket).conj().T @ a @ (p @ ket)
                              for p in props]
                             for a in (m.SX, m.SY, m.SZ)]).real
            got = np.concatenate([np.asarray(x, dtype=float).reshape(3, -1)
                                  for x in b.points], axis=1)
            ctx.close(got, want.reshape(3, -1), 'points on the sphere')
            ctx.trace()
            plt.close('all')
            b = plot_bloch_vector_evolution(
                solver.forward_propagators, s.op(ket), return_bloch=True,
                figsize=[3 + i, 4], view=[10 * i, 20], background=bool(i % 2))
            ctx.close(np.concatenate([np.asarray(x, dtype=float).reshape(
                3, -1) for x in b.points], axis=1), got,
                'points do not depend on the style')
            ctx.close(b.fig.get_size_inches(), [3 + i, 4], 'figure size')
            ctx.close([b.axes.azim, b.axes.elev], [10 * i, 20], 'view')
            ctx.check(b.background == bool(i % 2), 'style of the sphere')
            plt.close('all')
            none = plot_bloch_vector_evolution(
                solver.forward_propagators, s.op(ket)) if i == 0 else None
            ctx.check(none is None, 'no return value unless requested')
            plt.close('all')
    ctx.raises(lambda: plot_bloch_vector_evolution(
        [s.op(np.eye(3))], s.op(np.eye(3)[:, :1])), 'only for one qubit',
        ValueError)


def _pulse(case, ctx):
    for d in case['chunk']:
        if 'long' in case:
            for grid in ('uniform', 'uneven'):
                if grid == 'uniform' or 'exp' not in repr(d):
                    _one_pulse(ctx, *d, grid)
            continue
        for n_y in (1, 3):
            for grid in ('uniform', 'uneven'):
                if grid == 'uneven' and ('exp' in repr(d) or n_y == 1):
                    continue
                _one_pulse(ctx, d, n_y, grid)


def bars(axes):
    out = []
    for r in axes.patches:
        h = r.get_height()
        out.append((r.get_x(), r.get_x() + r.get_width(), h, r.get_fill()))
    return out


def _one_pulse(ctx, d, n_y, grid):
    import matplotlib.pyplot as plt
    n = tfs.n_ctrl(d)
    tau = s.taus(n_y, grid)
    func = tfs.build(d)
    func.set_times(tau)
    rng = s.rng_for(ctx.seed, 'c23 pulse', n_y, n)
    y = rng.standard_normal((n_y, n))
    keep = y.copy()
    show, plt.show = plt.show, lambda *a, **k: None
    try:
        func.plot_pulse(y)
    finally:
        plt.show = show
    ctx.step()
    ctx.state((d, n_y, grid))
    ctx.check(np.array_equal(y, keep), 'the pulse is not altered')
    x = func(y)
    edges = np.concatenate([[0], np.cumsum(func.x_times)])
    figs = [plt.figure(i) for i in plt.get_fignums()]
    if ctx.check(len(figs) == n, 'one figure per control', len(figs)):
        for k, fig in enumerate(figs):
            drawn = bars(fig.axes[0])
            filled = [b[:3] for b in drawn if b[3]]
            want = [(edges[i], edges[i + 1], x[i, k]) for i in range(len(x))]
            ctx.close(filled, want, 'transferred pulse at its times')
            if 'concat' in d['tf']:
                continue        # shows the input of the second function
            start = np.sum(func.x_times[:func.num_padding_elements[0]])
            hollow = [b[:3] for b in drawn if not b[3]]
            inner = start + np.concatenate([[0], np.cumsum(tau)])
            want = [(inner[i], inner[i + 1], y[i, k]) for i in range(n_y)]
            ctx.close(hollow, want, 'pulse at its times')
    plt.close('all')
    ctx.trace()
