"""Transfer functions: time axis and transferred values."""
import numpy as np

from mc import models as m
from mc import systems as s
from mc import tfs

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = ('every elementary transfer function x oversampling x padding type '
        'and length x offset x boundary mode x number of slots x number of '
        'controls x time grid; on each one the unit pulses and the zero '
        'pulse (which determine the affine map) and all words over the '
        'alphabet up to two slots')
ASSUMPTIONS = ['the exponential saturation is only used with time slots of '
               'one length']


def cases(tier, seed):
    return [dict(d=d) for d in tfs.atoms(tier == 'thorough')] \
        + [dict(d=dict(tf='custom'), y=y, n=n) for y in (1, 2, 3)
           for n in (1, 2)] + [dict(d=dict(tf='errors'))] \
        + [dict(d=d, y=y) for d, y in tfs.large()] \
        + [dict(d=d, unit=u) for d in tfs.atoms() for u in (1e-9, 1e7)
           if d['tf'] in ('over', 'over-m', 'exp')
           and d.get('offset') != 0.]


def grids(n_y, d):
    yield 'uniform', s.taus(n_y, 'uniform')
    if d['tf'] != 'exp' and n_y > 1:
        yield 'uneven', s.taus(n_y)


def run(case, ctx):
    d = case['d']
    full = ctx.tier == 'thorough'
    if d['tf'] == 'errors':
        return _errors(ctx)
    if d['tf'] == 'custom':
        for c in tfs.customs(case['y'], case['n']):
            for name, tau in grids(case['y'], c):
                _one(ctx, c, case['y'], case['n'], tau, name)
        return
    if 'y' in case:
        for name, tau in grids(case['y'], d):
            _one(ctx, d, case['y'], d['n'], tau, name)
        return
    if 'unit' in case:
        return _units(ctx, d, case['unit'])
    for n in (1, 2, 3):
        for n_y in (1, 2, 3, 4, 5) if full else (1, 2, 3, 4):
            for name, tau in grids(n_y, d):
                _one(ctx, tfs.with_n(d, n), n_y, n, tau, name)


def _units(ctx, d, unit):
    """The same function and pulse in other units of time."""
    n_y, n = 3, 2
    d = tfs.with_n(d, n)
    scaled = dict(d, rise=d['rise'] * unit) if d['tf'] == 'exp' else d
    rng = s.rng_for(ctx.seed, 'c09 units')
    y = rng.standard_normal((n_y, n))
    for name, tau in grids(n_y, d):
        func = tfs.build(scaled)
        for absolute in (False, True):
            if absolute:
                # rounding of the sum limits what can be expected
                if d['tf'] == 'exp':
                    continue
                func.set_absolute_times(
                    np.concatenate(([0.], np.cumsum(tau * unit))))
            else:
                func.set_times(tau * unit)
            ctx.close(func.x_times / unit, tfs.times(d, tau),
                      'durations in other units', tol=1e-8)
            ctx.close(func(y), tfs.value(d, y, tau),
                      'values in other units', tol=1e-9)
            ctx.state((d, unit, name, absolute))
            ctx.step(n_y)
            ctx.trace()


def _one(ctx, d, n_y, n, tau, grid):
    func = tfs.build(d)
    given = tau.copy()
    func.set_times(given if n % 2 else list(tau))
    given[:] = 30.
    x_times = tfs.times(d, tau)
    key = (d, n_y, n, grid)
    ctx.state(key)
    ctx.close(func.x_times, x_times, 'durations of the transferred slots')
    ctx.check(func.num_x == len(x_times), 'number of transferred slots',
              func.num_x)
    if not d.get('x_times'):
        s0, e0 = m.padding(d.get('bound'), d.get('over', 1))
        ctx.check(tuple(func.num_padding_elements) == (s0, e0),
                  'numbers of padding elements', func.num_padding_elements)
        inner = func.x_times[s0:len(func.x_times) - e0]
        ctx.close(np.sum(inner), np.sum(tau), 'the total time is conserved')
    pulses = [np.zeros((n_y, n))]
    for idx in np.ndindex(n_y, n):
        e = np.zeros((n_y, n))
        e[idx] = 1.
        pulses.append(e)
    letters = s.alphabet(n, ctx.seed, 5)
    if n_y <= 2 and n <= 3:
        pulses += [np.array([letters[i] for i in w])
                   for w in s.words(letters, n_y)]
    else:
        pulses.append(np.array([letters[(i + 1) % 5] for i in range(n_y)]))
    for y in pulses:
        keep = y.copy()
        x = func(y)
        ctx.close(x, tfs.value(d, y, tau), 'transferred values', tol=1e-10)
        ctx.close(y, keep, 'the pulse is left unaltered')
        ctx.step(len(x_times))
        ctx.trace()
    y = pulses[-1]
    wide = np.full((2 * n_y, 2 * n), 9.)
    wide[::2, ::2] = y
    for form in (np.asfortranarray(y), wide[::2, ::2],
                 np.repeat(y.T[None], 1, axis=0)[0].T):
        ctx.close(func(form), tfs.value(d, y, tau),
                  'values do not depend on the layout', tol=1e-10)
    y32 = y.astype(np.float32)
    ctx.close(func(y32), tfs.value(d, y32.astype(float), tau),
              'single precision', tol=1e-5, rtol=1)
    if d['tf'] in ('over-m', 'exp', 'custom'):
        mat = func.transfer_matrix
        ctx.check(mat.shape == (len(x_times), n_y, n),
                  'shape of the transfer matrix', mat.shape)
        off = d.get('offset') or 0.
        y = pulses[-1]
        ctx.close(np.einsum('ijk,jk->ik', mat, y) + off, func(y),
                  'the matrix describes the transfer function')
    if d['tf'] == 'over-m' and not d.get('offset'):
        plain = tfs.build(dict(d, tf='over'))
        plain.set_times(tau)
        ctx.close(plain(pulses[-1]), func(pulses[-1]),
                  'both implementations of the oversampling agree')
        ctx.close(plain.x_times, func.x_times,
                  'both implementations have one time axis')
    if d['tf'] in ('over', 'over-m', 'exp', 'identity'):
        other = tfs.build(d)
        for form in (np.concatenate(([0.], np.cumsum(tau))),
                     3 + np.concatenate(([0.], np.cumsum(tau)))):
            other.set_absolute_times(form if n % 2 else list(form))
            ctx.close(other.x_times, x_times, 'absolute times', tol=1e-8)


def _errors(ctx):
    for d in tfs.atoms():
        for n_y, n in ((1, 1), (2, 2), (3, 1)):
            d = tfs.with_n(d, n)
            func = tfs.build(d)
            if d['tf'] != 'identity':
                ctx.raises(lambda: func(np.ones((n_y, n))),
                           'evaluation before the times are set')
            func.set_times(s.taus(n_y))
            for shape in ((n_y + 1, n), (n_y, n + 1), (n_y,), (n_y, n, 1)):
                if d['tf'] != 'identity':
                    ctx.raises(lambda: func(np.ones(shape)),
                               'a pulse of wrong shape is refused')
            ctx.raises(lambda: func.set_times(np.ones((2, 2))),
                       'times must be one dimensional')
            ctx.raises(lambda: func.set_absolute_times(np.array([0, 2, 1.])),
                       'absolute times must be sorted')
            ctx.state((d, n_y))
            ctx.step()
            ctx.trace()
