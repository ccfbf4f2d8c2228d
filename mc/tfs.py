"""Descriptors of transfer functions, their construction, and their models."""
import numpy as np

from mc import models as m


def bounds(k):
    out = [None]
    for i in k:
        out += [['n', i], ['x', i], ['right_n', i]]
    return out


def build(d):
    from qopt import transfer_function as tf
    k = d['tf']
    n = d.get('n', 1)
    b = d.get('bound')
    kw = dict(num_ctrls=n)
    if k in ('over', 'over-m', 'exp'):
        kw.update(oversampling=d['over'])
        if b is not None or k != 'exp':
            kw['bound_type'] = None if b is None else tuple(b)
        else:
            kw['bound_type'] = None
    if k in ('over-m', 'exp') and d.get('offset') is not None:
        kw['offset'] = d['offset']
    if k == 'identity':
        return tf.IdentityTF(num_ctrls=n)
    if k == 'over':
        return tf.OversamplingTF(**kw)
    if k == 'over-m':
        return tf.OversamplingMTF(**kw)
    if k == 'exp':
        return tf.ExponentialMTF(awg_rise_time=d['rise'], **kw)
    if k == 'conv':
        return tf.ConvolutionTF(kernel=np.array(d['kernel']),
                                mode=d['mode'], cval=d.get('cval', 0.), **kw)
    if k == 'gauss':
        return tf.GaussianConvolution(sigma=d['sigma'], order=d['order'],
                                      mode=d['mode'],
                                      truncate=d['truncate'], **kw)
    if k == 'custom':
        return tf.CustomMTF(
            custom_matrix(d), num_ctrls=n, offset=d.get('offset'),
            bound_type=None if b is None else tuple(b),
            x_times=None if d.get('x_times') is None
            else np.array(d['x_times']))
    cls = dict(concat=tf.ConcatenateTF, parallel=tf.ParallelTF)
    cls['concat-m'] = tf.ConcatenateMTF
    cls['parallel-m'] = tf.ParallelMTF
    return cls[k](build(d['a']), build(d['b']))


def custom_matrix(d):
    b = d.get('bound')
    s, e = m.padding(b, d['over'])
    rng = np.random.default_rng(d.get('seed', 3))
    return rng.standard_normal((d['y'] * d['over'] + s + e, d['y'], d['n']))


def n_ctrl(d):
    k = d['tf']
    if k.startswith('parallel'):
        return n_ctrl(d['a']) + n_ctrl(d['b'])
    if k.startswith('concat'):
        return n_ctrl(d['a'])
    return d.get('n', 1)


def times(d, tau):
    k = d['tf']
    tau = np.asarray(tau, dtype=float)
    if k in ('over', 'over-m', 'exp'):
        return m.tf_times(tau, d['over'], d.get('bound'))
    if k == 'custom':
        if d.get('x_times') is not None:
            return np.array(d['x_times'])
        return m.tf_times(tau, d['over'], d.get('bound'))
    if k.startswith('concat'):
        return times(d['b'], times(d['a'], tau))
    if k.startswith('parallel'):
        return times(d['a'], tau)
    return tau


def value(d, y, tau):
    k = d['tf']
    off = d.get('offset')
    if k in ('over', 'over-m'):
        return m.tf_oversampling(y, d['over'], d.get('bound'), off)
    if k == 'exp':
        return m.tf_exponential(y, tau, d['rise'], d['over'],
                                d.get('bound'), off)
    if k == 'identity':
        return np.array(y)
    if k == 'conv':
        return m.convolve(y, np.array(d['kernel']).reshape(
            len(d['kernel']), -1), d['mode'],
                          d.get('cval', 0.))
    if k == 'gauss':
        return m.gaussian(y, d['sigma'], d['order'], d['mode'],
                          d['truncate'])
    if k == 'custom':
        mat = custom_matrix(d)
        x = np.array([[sum(mat[i, j, c] * y[j, c] for j in range(len(y)))
                       for c in range(y.shape[1])]
                      for i in range(mat.shape[0])])
        return x + (0 if off is None else off)
    if k.startswith('concat'):
        return value(d['b'], value(d['a'], y, tau), times(d['a'], tau))
    if k.startswith('parallel'):
        c = n_ctrl(d['a'])
        return np.concatenate((value(d['a'], y[:, :c], tau),
                               value(d['b'], y[:, c:], tau)), axis=1)
    raise ValueError(k)


KERNELS = ([[.5]], [[.2], [.5], [.3]], [[.1], [.6], [.2], [.4]],
           [[.1, .05, 0.], [.5, .1, .2], [.15, -.1, .3]],
           [[.3, .2], [-.1, .4]], [[1., 2., -1.]], [.2, .5, .3],
           [.7, -.1, .2, .4])


def with_n(d, n):
    """The descriptor for n controls in total (composites: as they are)."""
    d = dict(d)
    if d['tf'].startswith('concat'):
        d['a'], d['b'] = with_n(d['a'], n), with_n(d['b'], n)
    elif d['tf'].startswith('parallel'):
        raise ValueError
    else:
        d['n'] = n
    return d


def atoms(full=False):
    """Elementary transfer functions without the number of controls."""
    out = [dict(tf='identity')]
    overs = (1, 2, 3, 4) if full else (1, 2, 3)
    for over in overs:
        for b in bounds((0, 1, 2, 3) if full else (0, 1, 2)):
            out.append(dict(tf='over', over=over, bound=b))
            for off in (None, 0., .7):
                out.append(dict(tf='over-m', over=over, bound=b, offset=off))
                for rise in (.15, 2.):
                    out.append(dict(tf='exp', over=over, bound=b, rise=rise,
                                    offset=off))
    for kernel in KERNELS:
        for mode in ('nearest', 'reflect', 'mirror', 'wrap', 'constant'):
            out.append(dict(tf='conv', kernel=kernel, mode=mode))
            if mode == 'constant':
                out.append(dict(tf='conv', kernel=kernel, mode=mode,
                                cval=.6))
    for sigma in (.4, 1.1):
        for order in (0, 1, 2):
            for mode in ('nearest', 'reflect', 'mirror', 'wrap', 'constant'):
                for truncate in (1., 4.):
                    out.append(dict(tf='gauss', sigma=sigma, order=order,
                                    mode=mode, truncate=truncate))
    return out


def customs(n_y, n):
    out = []
    for over in (1, 2, 3):
        for b in bounds((1, 2)):
            for off in (None, .4):
                out.append(dict(tf='custom', over=over, bound=b, offset=off,
                                y=n_y, n=n))
        out.append(dict(tf='custom', over=over, bound=None, offset=.4, y=n_y,
                        n=n, x_times=[.1 * (i + 1)
                                      for i in range(n_y * over)]))
    return out


def composites(full=False):
    """Composed transfer functions with their numbers of controls."""
    some = [dict(tf='over', over=2, bound=None),
            dict(tf='over', over=1, bound=['n', 1]),
            dict(tf='over-m', over=2, bound=None, offset=.7),
            dict(tf='over-m', over=3, bound=['right_n', 2], offset=-.3),
            dict(tf='exp', over=2, bound=['x', 1], rise=.3, offset=None),
            dict(tf='exp', over=1, bound=['n', 1], rise=.4, offset=.2),
            dict(tf='conv', kernel=[[.2], [.5], [.3]], mode='nearest'),
            dict(tf='conv', kernel=[[.1, .05], [.5, .1]], mode='wrap'),
            dict(tf='gauss', sigma=.8, order=0, mode='reflect',
                 truncate=4.),
            dict(tf='identity')]
    mat = [x for x in some if x['tf'] in ('over-m', 'exp')]
    out = []
    for n in (1, 2):
        for a in some:
            for b in some:
                out.append(dict(tf='concat', a=with_n(a, n),
                                b=with_n(b, n)))
        for a in mat:
            for b in mat:
                out.append(dict(tf='concat-m', a=with_n(a, n),
                                b=with_n(b, n)))
    # pairs generating the same time axis
    pairs = [(some[0], some[2]), (some[6], some[8]), (some[9], some[7]),
             (dict(tf='over', over=2, bound=['x', 1]), some[4]),
             (some[5], dict(tf='over-m', over=1, bound=['n', 1],
                            offset=.6)),
             (some[5], some[1]), (some[3], some[3])]
    for a, b in pairs + [(b, a) for a, b in pairs]:
        for na, nb in ((1, 1), (2, 1), (1, 2)):
            out.append(dict(tf='parallel', a=with_n(a, na),
                            b=with_n(b, nb)))
            if a['tf'] in ('over-m', 'exp') and b['tf'] in ('over-m', 'exp'):
                out.append(dict(tf='parallel-m', a=with_n(a, na),
                                b=with_n(b, nb)))
    # three parallel parts, the outer ones equal, the middle one different
    triples = [(mat[0], dict(tf='exp', over=2, bound=None, rise=.5,
                             offset=None)),
               (dict(tf='over-m', over=2, bound=['x', 1], offset=None),
                some[4]), (some[6], some[8]), (some[9], some[6]),
               (some[5], some[1])]
    for a, b in triples:
        for k in ('parallel', 'parallel-m'):
            if k == 'parallel-m' and not (a in mat or a['tf'] == 'over-m')\
                    or b['tf'] not in ('exp', 'over-m') and k[-1] == 'm':
                continue
            a1, b1 = with_n(a, 1), with_n(b, 1)
            for x, y in ((a1, b1), (b1, a1)):
                out.append(dict(tf=k, a=dict(tf=k, a=x, b=y), b=x))
                out.append(dict(tf=k, a=x, b=dict(tf=k, a=y, b=x)))
    # three levels
    par = [d for d in out if d['tf'].startswith('parallel')]
    cat = [d for d in out if d['tf'].startswith('concat')]
    deep = []
    for i, p in enumerate(par):
        n = n_ctrl(p)
        for j, a in enumerate(some):
            if (i + j) % (1 if full else 4):
                continue
            deep.append(dict(tf='concat', a=p, b=with_n(a, n)))
            deep.append(dict(tf='concat', a=with_n(a, n), b=p))
            if p['tf'] == 'parallel-m' and a in mat:
                deep.append(dict(tf='concat-m', a=p, b=with_n(a, n)))
                deep.append(dict(tf='concat-m', a=with_n(a, n), b=p))
    for i, a in enumerate(cat[::3 if full else 11]):
        b = dict(a)
        deep.append(dict(tf='parallel-m' if a['tf'] == 'concat-m'
                         else 'parallel', a=a, b=b))
    return out + deep


def large():
    """(descriptor, number of slots) beyond the exhaustive family: long
    pulses, many controls, fine oversampling, long padding, wide kernels."""
    out = []
    for over, b in ((10, None), (5, ['n', 7]), (4, ['x', 3]),
                    (7, ['right_n', 12]), (1, ['n', 9])):
        out.append(dict(tf='over', over=over, bound=b))
        out.append(dict(tf='over-m', over=over, bound=b, offset=-.4))
        for rise in (.05, 3., 40.):
            out.append(dict(tf='exp', over=over, bound=b, rise=rise,
                            offset=.3))
    wide = [[.03 * (i % 5) - .02 * i] for i in range(12)]
    for mode in ('nearest', 'reflect', 'mirror', 'wrap', 'constant'):
        out.append(dict(tf='conv', kernel=wide, mode=mode, cval=.2))
        out.append(dict(tf='gauss', sigma=3., order=0, mode=mode,
                        truncate=4.))
    out.append(dict(tf='identity'))
    return [(with_n(d, n), y) for d in out for y, n in ((9, 4), (17, 1),
                                                       (3, 7))]


def large_composites():
    e = [dict(tf='exp', over=2, bound=['n', 1], rise=.1 + .2 * i,
              offset=.1 * i, n=1 + i % 2) for i in range(5)]
    o = [dict(tf='over', over=2, bound=['n', 1], n=1 + i % 2)
         for i in range(5)]
    out = []
    for k, parts in (('parallel', e), ('parallel-m', e),
                     ('parallel', [e[0], o[1], e[2], o[3], e[4]])):
        left, right = parts[0], parts[-1]
        for p in parts[1:]:
            left = dict(tf=k, a=left, b=p)
        for p in parts[-2::-1]:
            right = dict(tf=k, a=p, b=right)
        out += [left, right]
    two = [dict(tf='over-m', over=2, bound=['right_n', i], offset=.2 * i, n=2)
           for i in range(4)]
    for k in ('concat', 'concat-m'):
        left, right = two[0], two[-1]
        for p in two[1:]:
            left = dict(tf=k, a=left, b=p)
        for p in two[-2::-1]:
            right = dict(tf=k, a=p, b=right)
        out += [left, right]
    return [(d, y) for d in out for y in (2, 9)]
