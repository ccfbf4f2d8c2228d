"""Amplitude functions: values and chain rule for every word and dtype."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = ('library of scalar and coupled amplitude functions x number of '
        'slots x controls x number of costs; all words over an alphabet '
        'that contains zeros, integers and negative values; the Jacobian is '
        'complete (every unit derivative); all sequences of requests at '
        'arrays overwritten in between')
ASSUMPTIONS = ['differentiable functions']

UNARY = dict(
    square=(lambda x: x ** 2, lambda x: 2 * x),
    exp=(lambda x: np.exp(.7 * x), lambda x: .7 * np.exp(.7 * x)),
    sine=(np.sin, np.cos),
    constant=(lambda x: 1, lambda x: 0),
    small=(lambda x: 1e-7 * x ** 2, lambda x: 2e-7 * x),
    branch=(lambda x: 0 if x <= 0 else x ** 3 + x ** 2 / 2,
            lambda x: 0 if x <= 0 else 3 * x ** 2 + x),
    inverse=(lambda x: 1 / (2 + x ** 2),
             lambda x: -2 * x / (2 + x ** 2) ** 2),
)


def custom(name, n):
    """value(x) -> u; derivative [t, parameter, amplitude]"""
    if name == 'polar':            # needs 2 -> 2
        def value(x):
            return np.stack([x[:, 0] * np.cos(x[:, 1]),
                             x[:, 0] * np.sin(x[:, 1])], axis=1)

        def deriv(x):
            out = np.zeros((len(x), 2, 2))
            out[:, 0, 0] = np.cos(x[:, 1])
            out[:, 0, 1] = np.sin(x[:, 1])
            out[:, 1, 0] = -x[:, 0] * np.sin(x[:, 1])
            out[:, 1, 1] = x[:, 0] * np.cos(x[:, 1])
            return out
        return value, deriv, 2
    rng = np.random.default_rng([n, len(name)])
    k = n if name in ('linear', 'small') else n + 1 if name == 'more' else 1
    a = rng.standard_normal((n, k))
    b = rng.standard_normal((n, k))
    if name == 'small':
        a, b = a * 1e-7, b * 1e-7

    def value(x):
        return x @ a + x ** 2 @ b

    def deriv(x):
        return a[None] + 2 * x[:, :, None] * b[None]
    return value, deriv, k


def cases(tier, seed):
    depth = 4 if tier == 'thorough' else 3
    out = [dict(kind='unary', f=f, n=n, depth=depth) for f in UNARY
           for n in (1, 2, 3)]
    out += [dict(kind='custom', f=f, n=n, depth=depth)
            for f in ('linear', 'more', 'sum', 'small') for n in (1, 2, 3)]
    out += [dict(kind='custom', f='polar', n=2, depth=depth)]
    out += [dict(kind='identity', n=n, depth=depth) for n in (1, 2, 3)]
    for n in (1, 6):
        out += [dict(kind='unary', f=f, n=n, depth=s.LONG) for f in UNARY]
        out += [dict(kind='custom', f=f, n=n, depth=s.LONG)
                for f in ('linear', 'more', 'sum')]
        out.append(dict(kind='identity', n=n, depth=s.LONG))
    return out


def run(case, ctx):
    from qopt import amplitude_functions as af
    n = case['n']
    k = n
    if case['kind'] == 'unary':
        f, df = UNARY[case['f']]
        func = af.UnaryAnalyticAmpFunc(f, df)

        def value(x):
            return np.array([[float(f(v)) for v in row] for row in x])

        def deriv(x):
            out = np.zeros((len(x), n, n))
            for t in range(len(x)):
                for i in range(n):
                    out[t, i, i] = df(x[t, i])
            return out
    elif case['kind'] == 'custom':
        value, deriv, k = custom(case['f'], n)
        func = af.CustomAmpFunc(value, deriv)
    else:
        func = af.IdentityAmpFunc()

        def value(x):
            return x

        def deriv(x):
            return np.array([np.eye(n)] * len(x))
    letters = [np.zeros(n), np.full(n, 2.), -np.arange(1., n + 1)] \
        + s.alphabet(n, ctx.seed, 4)[1:3]
    for d in range(1, case['depth'] + 1) if case['depth'] < s.LONG \
            else (s.LONG,):
        rng = s.rng_for(ctx.seed, 'c12', d, n)
        up = np.concatenate((np.eye(d * k).reshape(d * k, d, k),
                             rng.standard_normal((2, d, k)))) \
            .transpose(1, 0, 2)
        for w in s.words(letters, d) if d < s.LONG \
                else s.long_words(len(letters), every=True):
            x = np.array([letters[i] for i in w])
            keep = x.copy()
            u = func(x)
            ctx.state((d, w))
            ctx.step(d)
            ctx.close(u, value(x), 'amplitudes')
            if np.array_equal(x, np.round(x)) and case['kind'] == 'unary':
                ctx.close(func(x.astype(int)), value(x), 'integer parameters')
                ctx.close(func.derivative_by_chain_rule(up, x.astype(int)),
                          np.einsum('tiu,tfu->tfi', deriv(x), up),
                          'derivatives at integer parameters')
            for up_ in (up, up[:, :1]):
                got = func.derivative_by_chain_rule(up_, x)
                want = np.einsum('tiu,tfu->tfi', deriv(x), up_)
                scale = 1e7 if case.get('f') == 'small' else 1.
                ctx.close(got * scale, want * scale,
                          'derivatives by the optimization parameters')
            if d == 1 and case['kind'] != 'identity' and np.all(x != 0):
                num = m.central(lambda v: value(v), x)[0]
                ctx.close(deriv(x)[0], num[:, 0, :], 'reference derivative',
                          tol=1e-6)
            ctx.close(x, keep, 'the parameters are left unaltered')
            ctx.trace()
    if case['depth'] < s.LONG:
        history(case, ctx, func, value, deriv, letters, k)


def history(case, ctx, func, value, deriv, letters, k):
    """Requests in any order, at arrays that are overwritten in between."""
    n = case['n']
    rng = s.rng_for(ctx.seed, 'c12 history', n)
    up = rng.standard_normal((2, 3, k))
    pulses = [np.array([letters[i], letters[j]])
              for i, j in ((0, 1), (1, 2), (2, 0), (1, 1))]
    ops = [(what, i) for what in ('value', 'deriv') for i in range(2)] \
        + [('write', i, j) for i in range(2) for j in (1, 2, 3)]
    for word in itertools.product(ops, repeat=case['depth']):
        boxes = [pulses[0].copy(), np.asfortranarray(pulses[1])]
        for op in word + (('value', 0), ('deriv', 0), ('deriv', 1)):
            box = boxes[op[1]]
            ctx.step()
            if op[0] == 'write':
                box[:] = pulses[op[2]]
            elif op[0] == 'value':
                got = func(box)
                ctx.close(got, value(box), 'amplitudes after %s' % (word,))
            else:
                got = func.derivative_by_chain_rule(up.copy(), box)
                ctx.close(got, np.einsum('tiu,tfu->tfi', deriv(box), up),
                          'derivatives after %s' % (word,))
                if case['kind'] != 'identity':
                    got += 1.
        ctx.state(word)
        ctx.trace()
