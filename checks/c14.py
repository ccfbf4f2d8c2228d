"""Matrix exponentials and their directional derivatives."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C14'
LEVEL = 'model_checking'
RULE = ('all matrices over a finite set of entries (dimension 1 and 2, '
        'skew Hermitian and general, with all degeneracy patterns) and a set '
        'of larger structured ones x units of 1e-9 to 1e9 x durations x methods x all directions of '
        'a matrix unit basis; compared with a scaled and squared Taylor '
        'series of an augmented matrix')
ASSUMPTIONS = ['spectral methods: diagonalisable matrices',
               'spectral derivative: growth factors of at most e^10',
               'polynomial methods: the exponential returned along with the '
               'derivative is not specified']
ORDERS = dict(first_order=1, second_order=2, third_order=3)
TAUS = (1, .37, -1.2, 2., .5 - .8j, 0.)


def cases(tier, seed):
    out = []
    for diag in itertools.product((-1, 0, 2), repeat=2):
        out.append(dict(kind='skew2', diag=list(diag)))
    for first in itertools.product((0, 1, -1, 1j), repeat=2):
        out.append(dict(kind='general2', row=[str(x) for x in first]))
    for dim in (1, 3, 4) + ((5, 6, 8, 9, 17) if tier == 'thorough'
                              else (6, 9, 17)):
        for struct in ('skew', 'general', 'degenerate', 'zero', 'diagonal',
                       'large', 'nearly'):
            out.append(dict(kind='struct', dim=dim, struct=struct))
    for dim in (2, 3, 4):
        for power in (-9, -6, -3, 3, 6, 9):
            out.append(dict(kind='units', dim=dim, power=power))
    out.append(dict(kind='args'))
    for dim in (1, 2, 3, 5):
        out.append(dict(kind='weak', dim=dim))
    for dim in (1, 2, 3):
        for skew in (False, True):
            for first in MODS:
                out.append(dict(kind='history', dim=dim, skew=skew,
                                first=first,
                                depth=4 if tier == 'thorough' else 3))
    return out


# changes of an operator which keep it anti-hermitian, if it is
MODS = ('imul', 'itruediv', 'iadd', 'isub', 'set', 'dag', 'conj', 'transpose',
        'copy', 'same-data', 'data', 'neg', 'direction')


def history(case, ctx):
    """Exponentials of operators that are changed between them."""
    d, skew = case['dim'], case['skew']
    rng = s.rng_for(ctx.seed, 'c14h', d, skew)

    def draw():
        return 1j * m.herm(rng, d) if skew else m.general(rng, d)
    start, other, third, e, e2 = draw(), draw(), draw(), draw(), draw()
    readers = [(method, flag) for method in ('spectral', 'Frechet')
               for flag in ((False, True) if skew else (False,))]

    def read(x, a, y, e, tau, name):
        want_e, want_d = m.dexpm(a * tau, e * tau)
        for method, flag in readers:
            at = ' %s %s %s' % (name, method, flag)
            ctx.close(x.exp(tau=tau, method=method, is_skew_hermitian=flag),
                      want_e, 'exponential' + at, tol=1e-8, rtol=1)
            both = x.dexp(y, tau=tau, method=method, compute_expm=True,
                          is_skew_hermitian=flag)
            ctx.close(both[0], want_e, 'exponential with derivative' + at,
                      tol=1e-8, rtol=1)
            ctx.close(both[1], want_d, 'derivative' + at, tol=1e-7, rtol=1)
            ctx.close(x.dexp(y, tau=tau, method=method,
                             is_skew_hermitian=flag), want_d,
                      'derivative' + at, tol=1e-7, rtol=1)
        ctx.close(x, a, 'the operator is not altered' + name)
    for rest in itertools.product(MODS, repeat=case['depth'] - 1):
        word = (case['first'],) + rest
        x, a, y, v = s.op(start), start.copy(), s.op(e), e.copy()
        left = []
        read(x, a, y, v, .7, 'at first')
        for k, o in enumerate(word):
            if o == 'imul':
                x *= -1.3
                a = a * -1.3
            elif o == 'itruediv':
                x /= 1.7
                a = a / 1.7
            elif o == 'iadd':
                x += s.op(other)
                a = a + other
            elif o == 'isub':
                x -= third.copy()
                a = a - third
            elif o == 'set':
                x[0, 0] = .4j
                a = a.copy()
                a[0, 0] = .4j
            elif o == 'dag':
                x.dag(do_copy=False)
                a = a.conj().T
            elif o == 'conj':
                x.conj(do_copy=False)
                a = a.conj()
            elif o == 'transpose':
                x.transpose(do_copy=False)
                a = a.T
            elif o == 'copy':
                left.append((x, a))
                x = x.copy()
                x *= .9
                a = a * .9
            elif o == 'same-data':
                # another operator of the same memory
                z = type(x)(x)
                z *= 1.2
                a = a * 1.2
            elif o == 'data':
                x.data = x.data * .8
                a = a * .8
            elif o == 'neg':
                left.append((x, a))
                x = -1. * x
                a = -a
            elif o == 'direction':
                y += s.op(e2)
                v = v + e2
            tau = (.7, .7, -1.1, .4)[k]
            read(x, a, y, v, tau, 'after %s' % (word[:k + 1],))
            ctx.step()
        if 'same-data' not in word and 'set' not in word:
            for x, a in left:
                read(x, a, y, v, .7, 'left behind by %s' % (word,))
        ctx.state(word)
        ctx.trace()


def directions(dim, limit=None):
    out = []
    for i in range(dim):
        for j in range(dim):
            e = np.zeros((dim, dim), dtype=complex)
            e[i, j] = 1
            out.append(e)
            if i <= j:
                h = e + 1j * e
                out.append(h + h.conj().T)
    out.append(np.arange(dim * dim).reshape(dim, dim) * (1 - .3j))
    return out[:limit] if limit else out


def matrices(case, seed):
    """Yields (label, matrix, skew, diagonalisable)."""
    if case['kind'] == 'skew2':
        a, b = case['diag']
        for re, im in itertools.product((-1, 0, .5), repeat=2):
            h = np.array([[a, re - 1j * im], [re + 1j * im, b]])
            yield (re, im), -1j * h, True, True
    elif case['kind'] == 'general2':
        row = [complex(x) for x in case['row']]
        for other in itertools.product((0, 1, -1, 1j), repeat=2):
            a = np.array([row, list(other)], dtype=complex)
            disc = (a[0, 0] - a[1, 1]) ** 2 + 4 * a[0, 1] * a[1, 0]
            scalar = np.array_equal(a, a[0, 0] * np.eye(2))
            yield other, a, False, abs(disc) > .1 or scalar
    else:
        d = case['dim']
        rng = s.rng_for(seed, 'c14', d, case['struct'])
        st = case['struct']
        # norms of the order of those in small dimensions
        size = min(1., 6. / d)
        h = size * m.herm(rng, d)
        if st == 'skew':
            yield st, -1j * h, True, True
        elif st == 'general':
            yield st, size * m.general(rng, d), False, True
        elif st == 'degenerate':
            u = m.unitary(rng, d)
            val = np.array([1., 1., -2., 1.] * d)[:d]
            yield st, -1j * (u * val) @ u.conj().T, True, True
        elif st == 'zero':
            yield st, np.zeros((d, d), dtype=complex), True, True
        elif st == 'diagonal':
            yield st, np.diag(-1j * np.arange(d)), True, True
            yield st + 'general', np.diag(size * np.arange(d) * (.5 - .1j)), False,\
                True
        elif st == 'large':
            yield st, -12j * h, True, True
        elif st == 'nearly':
            val = np.arange(d) // 2 + 1e-9 * np.arange(d)
            yield st, np.diag(-1j * val), True, True
            for gap in (1e-7, 1e-6, 1e-5, 1e-4, 1e-3):
                val = np.arange(d) // 2 + gap * np.arange(d)
                yield '%s %g' % (st, gap), np.diag(-1j * val), True, True
                if gap > 1e-6:
                    u = m.unitary(rng, d)
                    yield '%s rotated %g' % (st, gap), \
                        -1j * (u * val) @ u.conj().T, True, True


def poly(a, order):
    out = np.eye(len(a), dtype=complex)
    term = out
    for k in range(1, order + 1):
        term = term @ a / k
        out = out + term
    return out


def dpoly(a, e, order):
    n = len(a)
    big = np.zeros((2 * n, 2 * n), dtype=complex)
    big[:n, :n] = big[n:, n:] = a
    big[:n, n:] = e
    return poly(big, order)[:n, n:]


def units(case, ctx):
    """The choice of units (rad/s or rad/ns) must not matter."""
    d, unit = case['dim'], 10. ** case['power']
    rng = s.rng_for(ctx.seed, 'c14u', d)
    herm, gen = -1j * m.herm(rng, d), m.general(rng, d)
    diag = np.diag(-1j * np.arange(d))
    for label, a, skew in (('herm', herm, True), ('general', gen, False),
                           ('diagonal', diag, True),
                           ('zero', 0 * diag, True)):
        for tau in (1., -.7, .3):
            exact = m.expm(a * tau)
            ctx.state((label, tau))
            for method in ('Frechet', 'spectral', 'third_order'):
                want = poly(a * tau, 3) if method in ORDERS else exact
                for flag in (False, True) if skew else (False,):
                    got = s.op(a * unit).exp(
                        tau=tau / unit, method=method, is_skew_hermitian=flag)
                    ctx.close(got, want, 'exponential %s in units of %g %s'
                              % (method, unit, (label, tau, flag)), tol=1e-7,
                              rtol=1)
                    for k, e in enumerate([1j * m.herm(rng, d),
                                           m.general(rng, d)]
                                          + directions(d, 4)):
                        want_e, want_d = m.dexpm(a * tau, e * tau)
                        if method in ORDERS:
                            want_d = dpoly(a * tau, e * tau, 3)
                        for both in (False, True):
                            got = s.op(a * unit).dexp(
                                direction=s.op(e * unit), tau=tau / unit,
                                method=method, compute_expm=both,
                                is_skew_hermitian=flag)
                            name = 'in units of %g %s' % (
                                unit, (method, label, tau, k, flag, both))
                            if both:
                                if method not in ORDERS:
                                    ctx.close(got[0], want_e,
                                              'exponential ' + name,
                                              tol=1e-7, rtol=1)
                                got = got[1]
                            ctx.close(got, want_d, 'derivative ' + name,
                                      tol=1e-6, rtol=1)
                            ctx.step()
            ctx.trace()


def weak(case, ctx):
    """Exponentials of small operators."""
    d = case['dim']
    rng = s.rng_for(ctx.seed, 'c14w', d)
    for k, a in enumerate((-1j * m.herm(rng, d), m.general(rng, d),
                           np.diag(-1j * np.arange(1, d + 1)))):
        for size in (1e-3, 1e-5, 1e-7, 1e-9):
            for tau in (1., -.7, .3j):
                ctx.state((k, size, tau))
                for method in ('Frechet', 'approx', 'spectral', 'third_order'):
                    for flag in (False, True) if k != 1 else (False,):
                        # the size is in the operator, or in the time
                        for x, t in ((a * size, tau), (a, tau * size)):
                            ctx.step()
                            ctx.close(s.op(x).exp(
                                tau=t, method=method,
                                is_skew_hermitian=flag), poly(x * t, 3)
                                if method in ORDERS else m.expm(x * t),
                                'exponential of a small operator %s' % (
                                    (method, k, size, tau, flag),),
                                tol=3e-13)
                        if method == 'approx':
                            continue
                        e = m.general(rng, d)
                        want = m.dexpm(a * size * tau, e * tau)[1] \
                            if method not in ORDERS else \
                            dpoly(a * size * tau, e * tau, 3)
                        for both in (False, True):
                            got = s.op(a * size).dexp(
                                direction=s.op(e), tau=tau, method=method,
                                compute_expm=both, is_skew_hermitian=flag)
                            ctx.close(got[1] if both else got, want,
                                      'derivative at a small operator %s' % (
                                          (method, k, size, tau, flag),),
                                      tol=1e-11)
        ctx.trace()


def run(case, ctx):
    if case['kind'] == 'weak':
        return weak(case, ctx)
    if case['kind'] == 'args':
        return _args(ctx)
    if case['kind'] == 'history':
        return history(case, ctx)
    if case['kind'] == 'units':
        return units(case, ctx)
    for label, a, skew, diagonalisable in matrices(case, ctx.seed):
        flags = (False, True) if skew else (False,)
        for tau in TAUS:
            ctx.state((label, tau))
            exact = m.expm(a * tau)
            for method in ('Frechet', 'approx', 'spectral') + tuple(ORDERS):
                if method == 'spectral' and not diagonalisable:
                    continue
                want = poly(a * tau, ORDERS[method]) if method in ORDERS \
                    else exact
                for flag in flags:
                    x = s.op(a)
                    got = x.exp(tau=tau, method=method,
                                is_skew_hermitian=flag)
                    ctx.close(got, want, 'exponential %s %s' % (
                        method, (label, tau, flag)), tol=1e-8, rtol=1)
                    ctx.close(x, a, 'the operator is not altered')
                    ctx.step()
            x = s.op(a)
            if diagonalisable:
                ctx.close(x.exp(tau), exact, 'default method of exp',
                          tol=1e-8, rtol=1)
                ctx.close(x.prop(tau), exact, 'prop', tol=1e-8, rtol=1)
            for k, e in enumerate(directions(len(a),
                                             None if len(a) < 4 else 8)):
                want_e, want_d = m.dexpm(a * tau, e * tau)
                for method in ('Frechet', 'approx', 'spectral') \
                        + tuple(ORDERS):
                    if method == 'spectral' and not diagonalisable:
                        continue
                    if method == 'approx' and (k % 3 or label == 'large'):
                        continue
                    if method == 'spectral' and label == 'large' \
                            and np.imag(tau):
                        continue
                    for flag in flags:
                        name = '%s %s' % (method, (label, tau, k, flag))
                        _derivative(ctx, a, e, tau, method, flag, want_e,
                                    want_d, name)
            ctx.trace()


def _derivative(ctx, a, e, tau, method, flag, want_e, want_d, name):
    x, y = s.op(a), s.op(e)
    both = x.dexp(direction=y, tau=tau, compute_expm=True, method=method,
                  is_skew_hermitian=flag)
    one = x.dexp(direction=y, tau=tau, compute_expm=False, method=method,
                 is_skew_hermitian=flag)
    if method in ORDERS:
        want_d = dpoly(a * tau, e * tau, ORDERS[method])
    else:
        ctx.close(both[0], want_e, 'exponential with derivative ' + name,
                  tol=1e-8, rtol=1)
    # difference quotient with a step of 1e-10
    tol = 2e-5 * max(1, np.linalg.norm(want_e)) if method == 'approx' \
        else 1e-7
    ctx.close(both[1], want_d, 'derivative with exponential ' + name,
              tol=tol, rtol=1)
    ctx.close(one, want_d, 'derivative ' + name, tol=tol, rtol=1)
    if method == 'Frechet':
        ctx.close(x.dexp(direction=np.array(e), tau=tau, method=method),
                  want_d, 'array as direction ' + name, tol=tol, rtol=1)
    ctx.close(x, a, 'the operator is not altered ' + name)
    ctx.close(y, e, 'the direction is not altered ' + name)
    ctx.step()


def _args(ctx):
    rng = s.rng_for(ctx.seed, 'c14a')
    a, e = m.general(rng, 3), m.general(rng, 3)
    x, y = s.op(a), s.op(e)
    ctx.state('args')
    ctx.step()
    ctx.trace()
    for bad in ('', 'unknown', 'Spectral'):
        ctx.raises(lambda: x.exp(method=bad), 'unknown methods are refused')
        ctx.raises(lambda: x.dexp(y, method=bad),
                   'unknown methods are refused')
    want = m.dexpm(a, e)[1]
    ctx.close(x.dexp(y), want, 'default arguments of dexp', tol=1e-8, rtol=1)
    for eps in (1e-6, 1e-7):
        ctx.close(x.dexp(y, method='approx', epsilon=eps), want,
                  'step of the difference quotient', tol=1e-4, rtol=1)
