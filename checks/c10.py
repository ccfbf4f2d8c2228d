"""The gradient chain rule of transfer functions is the exact adjoint."""
import numpy as np

from mc import systems as s
from mc import tfs

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = ('every elementary and composed transfer function of the bounded '
        'family x number of slots x controls x number of cost functions; '
        'every unit derivative is pulled back and compared with the '
        'Jacobian, which is built from every unit pulse')
ASSUMPTIONS = ['all transfer functions of the package are affine']


def cases(tier, seed):
    full = tier == 'thorough'
    out = [dict(d=tfs.with_n(d, n), y=y) for d in tfs.atoms(full)
           for n in (1, 2, 3) for y in (1, 2, 3, 4)]
    out += [dict(d=d, y=y) for d in tfs.composites(full)
            for y in (1, 2, 3)]
    out += [dict(d=d, y=y) for d, y in tfs.large() + tfs.large_composites()]
    out += [dict(d=d, y=y) for y in (1, 2, 3) for n in (1, 2)
            for d in tfs.customs(y, n)]
    # one case per chunk keeps the list short
    return [dict(chunk=out[i:i + 20]) for i in range(0, len(out), 20)]


def run(case, ctx):
    for c in case['chunk']:
        _one(ctx, c['d'], c['y'])


def parts(d):
    if 'a' in d:
        return parts(d['a']) + parts(d['b'])
    return [d['tf']]


def _one(ctx, d, n_y):
    n = tfs.n_ctrl(d)
    tau = s.taus(n_y, 'uniform' if 'exp' in parts(d) or n_y % 2
                 else 'uneven')
    func = tfs.build(d)
    func.set_times(tau)
    zero = func(np.zeros((n_y, n)))
    n_x = zero.shape[0]
    jac = np.zeros((n_y, n, n_x, n))
    rng = s.rng_for(ctx.seed, 'c10')
    base = rng.standard_normal((n_y, n))
    f0 = func(base)
    for idx in np.ndindex(n_y, n):
        e = np.zeros((n_y, n))
        e[idx] = 1.
        jac[idx] = func(e) - zero
        ctx.close(func(base + e) - f0, jac[idx], 'the map is affine',
                  tol=1e-10)
    ctx.state((d, n_y))
    # the derivatives of as many costs as there are transferred values
    unit = np.eye(n_x * n).reshape((n_x * n, n_x, n))
    for deriv in (unit.transpose(1, 0, 2),
                  rng.standard_normal((n_x, 1, n)),
                  rng.standard_normal((n_x, 3, n))):
        keep = deriv.copy()
        got = func.gradient_chain_rule(deriv)
        want = np.einsum('jkia,ifa->jfk', jac, deriv)
        ctx.close(got, want, 'pulled back derivatives %s' % d['tf'],
                  tol=1e-10)
        ctx.close(deriv, keep, 'the derivatives are left unaltered')
        wide = np.full((n_x, 2 * deriv.shape[1], n + 1), 3.)
        wide[:, ::2, 1:] = deriv
        for form in (np.asfortranarray(deriv), wide[:, ::2, 1:]):
            ctx.close(func.gradient_chain_rule(form), want,
                      'derivatives do not depend on the layout', tol=1e-10)
        got[:] = 5.
        ctx.close(func.gradient_chain_rule(keep), want,
                  'the result belongs to the caller', tol=1e-10) \
            if not np.shares_memory(got, deriv) else None
        ctx.step(deriv.shape[1])
        ctx.trace()
