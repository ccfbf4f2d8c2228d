"""Composed transfer functions, and every history of set_times and reads."""
import itertools

import numpy as np

from mc import systems as s
from mc import tfs

PROPERTY = 'C11'
LEVEL = 'model_checking'
RULE = ('every composed transfer function of the bounded family (two and '
        'three levels) on unit pulses; for representative elementary and '
        'composed ones every history up to the depth of {set times 1, 2, 3 '
        '(other number of slots), evaluate, pull back, read the matrix}; '
        'state = (function, current times, reads since)')
ASSUMPTIONS = ['uniform times for the exponential saturation']

OPS = ('T1', 'T2', 'T3', 'call', 'grad', 'matrix')


def hist():
    e = dict(tf='exp', over=2, bound=['x', 1], rise=.3, offset=.1)
    o = dict(tf='over-m', over=2, bound=None, offset=.7)
    p = dict(tf='over', over=3, bound=['n', 1])
    g = dict(tf='gauss', sigma=.8, order=0, mode='reflect', truncate=4.)
    k = dict(tf='conv', kernel=[[.2], [.5], [.3]], mode='nearest')
    out = [tfs.with_n(x, 2) for x in (e, o, p, g, k, dict(tf='identity'))]
    w = tfs.with_n
    out += [dict(tf='concat', a=w(p, 2), b=w(e, 2)),
            dict(tf='concat', a=w(e, 2), b=w(k, 2)),
            dict(tf='concat-m', a=w(o, 2), b=w(e, 2)),
            dict(tf='concat-m', a=w(e, 2), b=w(o, 2)),
            dict(tf='parallel', a=w(g, 1), b=w(k, 1)),
            dict(tf='parallel-m', a=w(e, 1),
                 b=w(dict(o, bound=['x', 1]), 1))]
    deep = dict(tf='concat-m', a=out[-1], b=w(o, 2))
    two = dict(tf='over', over=2, bound=None)
    out += [deep, dict(tf='parallel', a=w(o, 1), b=w(two, 1)),
            dict(tf='concat', a=w(two, 2), b=w(p, 2)),
            dict(tf='concat', a=w(k, 2), b=w(o, 2)),
            dict(tf='concat-m', a=w(o, 2),
                 b=w(dict(o, bound=['n', 2], over=1), 2)),
            dict(tf='concat', a=out[-2], b=w(p, 2)),
            dict(tf='parallel', a=dict(tf='concat', a=w(two, 1), b=w(k, 1)),
                 b=w(o, 1))]
    return out


def cases(tier, seed):
    full = tier == 'thorough'
    comp = tfs.composites(full)
    out = [dict(kind='values', chunk=comp[i:i + 15])
           for i in range(0, len(comp), 15)]
    out.append(dict(kind='mismatch'))
    out += [dict(kind='large', d=d, y=y) for d, y in tfs.large_composites()]
    for i, d in enumerate(hist()):
        for first in OPS:
            out.append(dict(kind='history', d=d, first=first,
                            depth=6 if full else 5))
            if first.startswith('T'):
                out += [dict(kind='history', d=in_units(d, u), first=first,
                             depth=4, unit=u) for u in (1e-9, 1e7)]
    return out


def in_units(d, unit):
    """The same functions in another unit of time."""
    out = {k: in_units(v, unit) if k in ('a', 'b') else v
           for k, v in d.items()}
    if 'rise' in out:
        out['rise'] = out['rise'] * unit
    return out


# T1 and T3 last equally long, the uneven T1, T2 and T3 all do
UNIFORM = dict(T1=np.full(2, .6), T2=np.full(2, .25), T3=np.full(3, .4))
UNEVEN = dict(T1=np.array([.4, .8]), T2=np.array([.8, .4]),
              T3=np.array([.3, .7, .2]))


def atoms_of(d):
    if 'a' in d:
        return atoms_of(d['a']) + atoms_of(d['b'])
    return [d['tf']]


def run(case, ctx):
    if case['kind'] == 'large':
        _values(ctx, case['d'], case['y'], 'uniform')
        if 'exp' not in atoms_of(case['d']):
            _values(ctx, case['d'], case['y'], 'uneven')
    elif case['kind'] == 'values':
        for d in case['chunk']:
            for n_y in (1, 2, 3):
                _values(ctx, d, n_y, 'uniform')
                if 'exp' not in atoms_of(d) and n_y > 1:
                    _values(ctx, d, n_y, 'uneven')
    else:
        globals()['_' + case['kind']](case, ctx)


def _values(ctx, d, n_y, grid):
    n = tfs.n_ctrl(d)
    tau = s.taus(n_y, grid)
    func = tfs.build(d)
    func.set_times(tau)
    ctx.state((d, n_y, grid))
    x_times = tfs.times(d, tau)
    ctx.close(func.x_times, x_times, 'time axis of composed functions')
    ctx.check(func.num_x == len(x_times), 'number of transferred slots',
              func.num_x)
    ctx.check(func.num_ctrls == n, 'number of controls', func.num_ctrls)
    pulses = [np.zeros((n_y, n))]
    for idx in np.ndindex(n_y, n):
        e = np.zeros((n_y, n))
        e[idx] = 1.
        pulses.append(e)
    rng = s.rng_for(ctx.seed, 'c11', n_y, n)
    pulses.append(rng.standard_normal((n_y, n)))
    for y in pulses:
        keep = y.copy()
        ctx.close(func(y), tfs.value(d, y, tau), 'values of composed '
                  'functions', tol=1e-9)
        ctx.close(y, keep, 'the pulse is left unaltered')
        ctx.step(len(x_times))
        ctx.trace()
    ctx.raises(lambda: func(np.ones((n_y, n + 1))),
               'a pulse with too many controls is refused')
    ctx.raises(lambda: func(np.ones((n_y + 1, n))),
               'a pulse with too many slots is refused')


def _mismatch(case, ctx):
    """Functions of different time axes cannot act in parallel."""
    from qopt import transfer_function as tfm
    parts = [dict(tf='over-m', over=o, bound=b, offset=None)
             for o in (1, 2, 3, 4) for b in tfs.bounds((0, 1, 2))]
    parts += [dict(tf='exp', over=o, bound=b, offset=.2, rise=.3)
              for o in (1, 2) for b in (None, ['n', 1], ['x', 1])]

    def axis(d, n):
        return [1] * n if d is None else tfs.times(d, [1.] * n)
    for a in parts:
        for b in parts:
            same = a['over'] == b['over'] and a['bound'] == b['bound']
            ctx.step()
            ctx.state((a, b))
            fa, fb = tfs.build(a), tfs.build(b)
            if same:
                tfm.ParallelMTF(fa, fb)
            elif any(len(axis(a, k)) != len(axis(b, k)) for k in (1, 2, 3)):
                ctx.raises(lambda: tfm.ParallelMTF(fa, fb),
                           'different oversampling or padding')
            for times in ((3, 3), (3, 2), (1, 2)):
                fa, fb = tfs.build(a), tfs.build(b)
                fa.set_times(np.ones(times[0]))
                fb.set_times(np.ones(times[1]))
                fits = times[0] == times[1] and len(axis(a, times[0])) == \
                    len(axis(b, times[1]))
                if fits:
                    tfm.ParallelTF(fa, fb)
                else:
                    ctx.raises(lambda: tfm.ParallelTF(fa, fb),
                               'different numbers of time steps')
                if times[0] != times[1]:
                    ctx.raises(lambda: tfm.ParallelMTF(fa, fb),
                               'different numbers of time steps')
    # matrices that do not fit the times
    for x in range(1, 9):
        for y in range(1, 5):
            mat = np.arange(1., x * y + 1).reshape(x, y, 1)
            func = tfm.CustomMTF(mat)
            ctx.step()
            if x % y:
                ctx.raises(lambda: func.set_times(np.ones(y)),
                           'no integer number of samples')
            else:
                func.set_times(np.ones(y))
                ctx.close(func(np.ones((y, 1))), np.sum(mat, axis=1),
                          'custom matrix')
            func = tfm.CustomMTF(mat, x_times=np.ones(x))
            for n in range(1, 5):
                if n != y:
                    ctx.raises(lambda: func.set_times(np.ones(n)),
                               'other number of time steps')
    ctx.trace()


def _history(case, ctx):
    d = case['d']
    n = tfs.n_ctrl(d)
    unit = case.get('unit', 1.)
    TIMES = {k: v * unit for k, v in (
        UNIFORM if 'exp' in atoms_of(d) else UNEVEN).items()}
    rng = s.rng_for(ctx.seed, 'c11h')
    pulse = {k: rng.standard_normal((len(v), n)) for k, v in TIMES.items()}
    vals, jacs, zeros = {}, {}, {}
    for k, v in TIMES.items():
        vals[k] = tfs.value(d, pulse[k], v)
        zero = zeros[k] = tfs.value(d, 0 * pulse[k], v)
        jac = []
        for idx in np.ndindex(*pulse[k].shape):
            e = np.zeros_like(pulse[k])
            e[idx] = 1.
            jac.append(tfs.value(d, e, v) - zero)
        jacs[k] = np.array(jac).reshape(pulse[k].shape + zero.shape)
    deriv = {k: rng.standard_normal((len(vals[k]), 2, n)) for k in TIMES}
    matrix = d['tf'] in ('exp', 'over-m', 'concat-m', 'parallel-m')
    for rest in itertools.product(OPS, repeat=case['depth'] - 1):
        seq = (case['first'],) + rest
        if not matrix and 'matrix' in seq:
            continue
        if not seq[0].startswith('T') and seq[0] != 'call':
            continue
        func = tfs.build(d)
        now, done, reads = None, (), 0
        for o in seq:
            ctx.step()
            if o.startswith('T'):
                now, done = o, ()
                # the caller may reuse all arrays
                given = TIMES[o].copy()
                func.set_times(given)
                given[:] = 50.
                box = np.zeros_like(pulse[o])
                ctx.close(np.array(func.x_times) / unit,
                          np.array(tfs.times(d, TIMES[o])) / unit,
                          'time axis after a history')
            elif now is None:
                break
            elif o == 'call':
                reads += 1
                box[:] = pulse[now] if reads % 2 else 0.
                got = func(box)
                ctx.close(got, vals[now] if reads % 2 else zeros[now],
                          'values after a history', tol=1e-9)
                if not np.shares_memory(got, box):
                    got[:] = 70.
            elif o == 'grad':
                want = np.einsum('jkia,ifa->jfk', jacs[now], deriv[now])
                given = deriv[now].copy()
                got = func.gradient_chain_rule(given)
                ctx.close(got, want, 'derivatives after a history', tol=1e-9)
                if not np.shares_memory(got, given):
                    got[:] = 70.
            elif o == 'matrix':
                jac = jacs[now]
                want = np.array([jac[:, k, :, k] for k in range(n)])
                ctx.close(func.transfer_matrix, want.transpose(2, 1, 0),
                          'matrix after a history', tol=1e-9)
            done += (o,)
            ctx.state((now, tuple(sorted(set(done)))))
        ctx.trace()
