"""Vectorisation, superoperators, partial trace, subspaces."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = ('all factorisations of small dimensions x all subsets and orders of '
        'removed factors; all ordered selections of subspace indices; all '
        'matrix units through the vectorisation and superoperator maps')
ASSUMPTIONS = ['full rank matrices for the closest unitary']


def cases(tier, seed):
    out = []
    dims = [(2,), (3,), (2, 2), (2, 3), (3, 2), (2, 2, 2), (1, 3), (3, 1, 2),
            (2, 3, 2), (4, 2), (2, 1, 2, 2), (2, 2, 2, 2)]
    if tier == 'thorough':
        dims += [(3, 3, 2), (2, 3, 4), (2, 2, 3, 2), (5, 3), (4, 4),
                 (2, 2, 2, 2, 2), (3, 1, 3, 1, 2)]
    for d in dims:
        out.append(dict(kind='ptrace', dims=list(d)))
    for d in (1, 2, 3, 4) + ((5, 6, 8, 9) if tier == 'thorough'
                                 else (5, 8)):
        out.append(dict(kind='vec', dim=d))
        out.append(dict(kind='subspace', dim=d))
        out.append(dict(kind='unitary', dim=d))
    out.append(dict(kind='errors'))
    return out


def run(case, ctx):
    globals()['_' + case['kind']](case, ctx)


def _ptrace(case, ctx):
    dims = case['dims']
    n = int(np.prod(dims))
    rng = s.rng_for(ctx.seed, 'c15p', tuple(dims))
    a = m.general(rng, n)
    parts = [m.general(rng, d) for d in dims]
    prod = np.eye(1)
    for p in parts:
        prod = np.kron(prod, p)
    psi = m.ket(rng, n)
    for k in range(0, len(dims) + 1):
        for remove in itertools.permutations(range(len(dims)), k):
            want = m.ptrace(a, dims, list(remove))
            ctx.state(remove)
            ctx.step(4)
            x = s.op(a)
            args = (list(dims), list(remove))
            if k == 0 and not len(remove):
                pass
            ctx.close(x.ptrace(*args), want, 'partial trace %s' % (remove,))
            ctx.close(x, a, 'the operator is not altered')
            ctx.check(args == (list(dims), list(remove)),
                      'arguments are not altered')
            ctx.close(x.ptrace(tuple(dims), tuple(remove)), want,
                      'partial trace %s' % (remove,))
            ctx.close(x.ptrace(np.array(dims), np.array(remove, dtype=int)),
                      want, 'partial trace %s' % (remove,))
            ctx.close(s.op(psi).ptrace(dims, remove),
                      m.ptrace(psi @ psi.conj().T, dims, list(remove)),
                      'partial trace of a ket %s' % (remove,))
            f = 1.
            keep = np.eye(1)
            for i, p in enumerate(parts):
                if i in remove:
                    f = f * np.trace(p)
                else:
                    keep = np.kron(keep, p)
            ctx.close(s.op(prod).ptrace(dims, remove), f * keep,
                      'partial trace of a product %s' % (remove,))
            y = s.op(a)
            r = y.ptrace(dims, remove, do_copy=False)
            ctx.check(r is y, 'in place partial trace')
            ctx.close(y, want, 'in place partial trace %s' % (remove,))
            ctx.trace()
    if n > 1:
        ctx.raises(lambda: s.op(a).ptrace(list(dims) + [2], [0]),
                   'dimensions that do not match are refused')
        ctx.raises(lambda: s.op(a).ptrace([n + 1], [0]),
                   'dimensions that do not match are refused')


def _vec(case, ctx):
    from qopt import matrix as qm
    d = case['dim']
    rng = s.rng_for(ctx.seed, 'c15v', d)
    u, v = m.unitary(rng, d), m.unitary(rng, d)
    units = []
    for i in range(d):
        for j in range(d):
            e = np.zeros((d, d), dtype=complex)
            e[i, j] = 1 - .5j
            units.append(e)
    units += [m.general(rng, d), m.herm(rng, d)]
    sup = qm.convert_unitary_to_super_operator(s.op(u))
    sup_a = qm.convert_unitary_to_super_operator(u.copy())
    ctx.close(sup, sup_a, 'superoperators of arrays and operators')
    sup_v = qm.convert_unitary_to_super_operator(s.op(v))
    ctx.close(sup * sup_v, qm.convert_unitary_to_super_operator(
        s.op(u @ v)), 'superoperators compose')
    ctx.close(sup.data @ sup.data.conj().T, np.eye(d * d),
              'superoperators of unitaries are unitary')
    for k, rho in enumerate(units):
        ctx.state(k)
        ctx.step(4)
        x = s.op(rho)
        w = qm.ket_vectorize_density_matrix(x)
        ctx.check(w.shape == (d * d, 1), 'vectorised as ket')
        ctx.close(w, m.vec(rho), 'column stacking %d' % k)
        ctx.close(x, rho, 'operand unaltered')
        ctx.close(qm.ket_vectorize_density_matrix(rho.copy()), m.vec(rho),
                  'column stacking of arrays')
        ctx.close(qm.convert_ket_vectorized_density_matrix_to_square(w), rho,
                  'vectorisation is inverted %d' % k)
        ctx.close(w, m.vec(rho), 'operand unaltered')
        ctx.close(qm.convert_ket_vectorized_density_matrix_to_square(
            m.vec(rho)), rho, 'vectorisation of arrays is inverted')
        out = qm.convert_ket_vectorized_density_matrix_to_square(sup * w)
        ctx.close(out, u @ rho @ u.conj().T,
                  'superoperator acts as conjugation %d' % k)
        ctx.trace()


def _subspace(case, ctx):
    from qopt import matrix as qm
    d = case['dim']
    rng = s.rng_for(ctx.seed, 'c15s', d)
    a, psi = m.general(rng, d), m.ket(rng, d)
    for k in range(1, d + 1):
        for idx in itertools.permutations(range(d), k):
            if d > 4 and list(idx) != sorted(idx) \
                    and list(idx) != sorted(idx)[::-1]:
                continue
            ctx.state(idx)
            ctx.step(5)
            x, y, z = s.op(a), s.op(psi), s.op(psi.conj().T)
            sub = a[np.ix_(idx, idx)]
            what = ' %s' % (idx,)
            ctx.close(x.truncate_to_subspace(list(idx)), sub,
                      'block' + what)
            ctx.close(x.truncate_to_subspace(
                list(idx), map_to_closest_unitary=True),
                m.closest_unitary(sub), 'unitarised block' + what)
            if d > 1:
                ctx.close(y.truncate_to_subspace(list(idx)), psi[list(idx)],
                          'truncated ket' + what)
                ctx.close(z.truncate_to_subspace(list(idx)),
                          psi.conj().T[:, list(idx)], 'truncated bra' + what)
                n = np.linalg.norm(psi[list(idx)])
                ctx.close(y.truncate_to_subspace(list(idx), True),
                          psi[list(idx)] / n, 'rescaled ket' + what)
                ctx.close(z.truncate_to_subspace(list(idx), True),
                          psi.conj().T[:, list(idx)] / n,
                          'rescaled bra' + what)
            ctx.close(x, a, 'operand unaltered')
            ctx.close(y, psi, 'operand unaltered')
            ctx.close(z, psi.conj().T, 'operand unaltered')
            ctx.trace()
    ctx.close(s.op(a).truncate_to_subspace(None), a, 'no subspace')
    ctx.close(s.op(a).truncate_to_subspace(None,
                                           map_to_closest_unitary=False), a,
              'no subspace')


def _unitary(case, ctx):
    from qopt.matrix import closest_unitary
    d = case['dim']
    rng = s.rng_for(ctx.seed, 'c15u', d)
    pool = [m.general(rng, d), m.unitary(rng, d), m.herm(rng, d),
            m.unitary(rng, d) * 3., np.diag(np.arange(1, d + 1) * 1j),
            np.eye(d) * .5]
    others = [m.unitary(rng, d) for _ in range(5)]
    for k, a in enumerate(pool):
        ctx.state(k)
        ctx.step()
        x = s.op(a)
        got = closest_unitary(x)
        g = got.data
        from qopt import util
        y = a.copy()
        ctx.close(np.asarray(util.closest_unitary(y)), g,
                  'both functions agree %d' % k)
        ctx.check(np.array_equal(y, a), 'the array is not altered')
        ctx.close(g @ g.conj().T, np.eye(d), 'unitary %d' % k)
        h = g.conj().T @ a
        ctx.close(h, h.conj().T, 'polar decomposition %d' % k)
        ctx.check(np.all(np.linalg.eigvalsh(h) > -1e-9),
                  'positive factor %d' % k)
        for o in others:
            ctx.check(np.linalg.norm(a - g)
                      <= np.linalg.norm(a - o) + 1e-9,
                      'no unitary is closer %d' % k)
        ctx.close(x, a, 'operand unaltered')
        if k == 1:
            ctx.close(got, a, 'unitaries are fixed points')
        ctx.trace()


def _errors(case, ctx):
    from qopt import matrix as qm
    a = np.arange(6.).reshape(2, 3)
    ctx.state('errors')
    ctx.step()
    ctx.raises(lambda: qm.ket_vectorize_density_matrix(s.op(a)),
               'not square', ValueError)
    ctx.raises(lambda: qm.ket_vectorize_density_matrix(a), 'not square',
               ValueError)
    ctx.raises(lambda: qm.convert_ket_vectorized_density_matrix_to_square(
        s.op(a)), 'not a ket', ValueError)
    ctx.raises(lambda: qm.convert_ket_vectorized_density_matrix_to_square(
        np.eye(4)), 'not a ket', ValueError)
    ctx.raises(lambda: qm.convert_unitary_to_super_operator([[1, 0], [0, 1]]),
               'lists are refused', ValueError)
    ctx.trace()
