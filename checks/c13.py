"""Operator algebra: every short program over a pool of operators.

A program is a sequence of operations on three named operators.  The model
keeps plain arrays; after every program all operators, also those that did
not take part, must have the value of the model (no aliasing)."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C13'
LEVEL = 'model_checking'
RULE = ('all programs of the given length over {+, -, *, scalar and array '
        'operands on both sides, /, dag, conj, transpose, kron, in place '
        'versions, item assignment, copy, identity, partial trace, '
        'truncation} acting on three operators; state = values of all '
        'operators')
ASSUMPTIONS = ['square operators for programs; kets and bras separately']

# name, arity; result goes to register r
BIN = ('add', 'sub', 'mul', 'mul-array', 'rmul-array', 'add-array', 'kron')
UN = ('mul-scalar', 'rmul-scalar', 'div', 'dag', 'conj', 'transpose',
      'conjugate', 'copy', 'identity', 'sub-scalar', 'rmul-np')
INBIN = ('iadd', 'isub', 'imul', 'iadd-array', 'isub-array', 'imul-array')
INUN = ('imul-scalar', 'idiv', 'idag', 'iconj', 'itranspose', 'set',
        'iadd-scalar', 'imul-complex', 'isub-scalar')
REGS = ('a', 'b')


def alphabet():
    out = []
    for o in BIN:
        if o != 'kron':
            for x in REGS:
                for y in REGS:
                    out.append((o, x, y))
    for o in UN:
        for x in REGS:
            out.append((o, x, x))
    for o in INBIN:
        for x in REGS:
            for y in REGS:
                out.append((o, x, y))
    for o in INUN:
        for x in REGS:
            out.append((o, x, x))
    return out


def cases(tier, seed):
    out = []
    for i, o in enumerate(alphabet()):
        out.append(dict(kind='program', first=i,
                        depth=3 if tier == 'thorough' else 2))
    for dim in (1, 2, 3, 4, 6, 9, 17):
        out.append(dict(kind='single', dim=dim))
    out.append(dict(kind='construct'))
    return out


SC = 1.7
SZ_ = .4 - 1.3j


def model_op(o, x, y):
    """Returns (result, is_inplace)."""
    table = dict(
        add=lambda: x + y, sub=lambda: x - y, mul=lambda: x @ y,
        kron=lambda: np.kron(x, y), dag=lambda: x.conj().T,
        conj=lambda: x.conj(), conjugate=lambda: x.conj(),
        transpose=lambda: x.T, copy=lambda: x,
        identity=lambda: np.eye(len(x), dtype=complex),
        iadd=lambda: x + y, isub=lambda: x - y, imul=lambda: x @ y)
    table.update({
        'mul-array': lambda: x @ y, 'rmul-array': lambda: y @ x,
        'add-array': lambda: x + y, 'mul-scalar': lambda: x * SC,
        'rmul-scalar': lambda: x * SZ_, 'rmul-np': lambda: x * SC,
        'div': lambda: x / SZ_, 'sub-scalar': lambda: x - SC,
        'iadd-array': lambda: x + y, 'isub-array': lambda: x - y,
        'imul-array': lambda: x @ y, 'imul-scalar': lambda: x * SC,
        'imul-complex': lambda: x * SZ_, 'idiv': lambda: x / SC,
        'idag': lambda: x.conj().T, 'iconj': lambda: x.conj(),
        'itranspose': lambda: x.T, 'iadd-scalar': lambda: x + SZ_,
        'isub-scalar': lambda: x - SC})
    if o == 'set':
        out = x.copy()
        out[0, -1] = 5 - 1j
        return out, True
    return np.array(table[o]()), o.startswith('i') and o != 'identity'


def real_op(o, x, y):
    """(result, in place): the result of in place operations is x itself."""
    if o == 'add':
        return x + y
    if o == 'sub':
        return x - y
    if o == 'mul':
        return x * y
    if o == 'kron':
        return x.kron(y)
    if o == 'mul-array':
        return x * np.array(y.data)
    if o == 'rmul-array':
        return np.array(y.data) * x
    if o == 'add-array':
        return x + np.array(y.data)
    if o == 'mul-scalar':
        return x * SC
    if o == 'rmul-scalar':
        return SZ_ * x
    if o == 'rmul-np':
        return np.float64(SC) * x
    if o == 'div':
        return x / SZ_
    if o == 'sub-scalar':
        return x - SC
    if o == 'dag':
        return x.dag()
    if o == 'conj':
        return x.conj()
    if o == 'conjugate':
        return x.conjugate()
    if o == 'transpose':
        return x.transpose()
    if o == 'copy':
        return x.copy()
    if o == 'identity':
        return x.identity_like()
    if o == 'iadd':
        x += y
    elif o == 'isub':
        x -= y
    elif o == 'imul':
        x *= y
    elif o == 'iadd-array':
        x += np.array(y.data)
    elif o == 'isub-array':
        x -= np.array(y.data)
    elif o == 'imul-array':
        x *= np.array(y.data)
    elif o == 'imul-scalar':
        x *= SC
    elif o == 'imul-complex':
        x *= SZ_
    elif o == 'idiv':
        x /= SC
    elif o == 'idag':
        x.dag(do_copy=False)
    elif o == 'iconj':
        x.conj(do_copy=False)
    elif o == 'itranspose':
        x.transpose(do_copy=False)
    elif o == 'set':
        x[0, -1] = 5 - 1j
    elif o == 'iadd-scalar':
        x += SZ_
    elif o == 'isub-scalar':
        x -= SC
    else:
        raise ValueError(o)
    return x


def run(case, ctx):
    if case['kind'] == 'single':
        return _single(case, ctx)
    if case['kind'] == 'construct':
        return _construct(ctx)
    al = alphabet()
    first = al[case['first']]
    rng = s.rng_for(ctx.seed, 'c13')
    starts = [dict(a=m.general(rng, 2), b=m.general(rng, 2)),
              # special values: real, Hermitian, symmetric, diagonal, zero
              dict(a=m.SX + 0 * m.SX, b=np.array([[.5, 1.5], [-2., 3.]]) + 0j),
              dict(a=m.SY.copy(), b=np.diag([1., 2.]) + 0j),
              dict(a=np.eye(2) + 0j, b=np.zeros((2, 2), dtype=complex))]
    for start, rest in itertools.product(
            starts, itertools.product(al, repeat=case['depth'] - 1)):
        prog = (first,) + rest
        model = {k: v.copy() for k, v in start.items()}
        real = {k: s.op(v) for k, v in start.items()}
        results = []           # (real, model array) of all values ever made
        for o, x, y in prog:
            want, inplace = model_op(o, model[x], model[y])
            identity = real[x]
            got = real_op(o, real[x], real[y])
            if inplace:
                model[x] = want
                if got is not identity:
                    ctx.fail('in place operations return the operator', o)
                real[x] = got
            else:
                if got is identity:
                    ctx.fail('a new operator is returned', o)
                results.append((got, want))
                # continue with the new operator in the other register
                other = 'b' if x == 'a' else 'a'
                results.append((real[other], model[other]))
                real[other], model[other] = got, want
            ctx.step()
        ctx.state(list(model.values()))
        for k in REGS:
            ctx.close(real[k], model[k], 'value after the program %s'
                      % (prog,))
        live = [real[k] for k in REGS]
        for got, want in results:
            if not any(got is x for x in live):
                ctx.close(got, want, 'operators that are not addressed keep '
                          'their value %s' % (prog,))
        ctx.trace()


def _single(case, ctx):
    dim = case['dim']
    rng = s.rng_for(ctx.seed, 'c13s', dim)
    for k in range(4):
        a = m.general(rng, dim)
        b = m.general(rng, k + 1)
        x, y = s.op(a), s.op(b)
        ctx.state((dim, k))
        ctx.step(12)
        ctx.close(x.kron(y), np.kron(a, b), 'Kronecker product')
        ctx.close(x.kron(b.copy()), np.kron(a, b), 'Kronecker product')
        ctx.close(x.tr(), sum(a[i, i] for i in range(dim)), 'trace')
        ctx.close(x.flatten(), a.flatten(), 'flattened')
        ctx.check(x.shape == (dim, dim), 'shape')
        ctx.close(x[0, dim - 1], a[0, dim - 1], 'item')
        ctx.close(x.norm('fro'), np.sqrt(np.sum(np.abs(a) ** 2)), 'norm')
        ctx.close(x.norm(), np.sqrt(np.sum(np.abs(a) ** 2)), 'default norm')
        psi, phi = m.ket(rng, dim), m.ket(rng, dim)
        ctx.close(x * s.op(psi), a @ psi, 'operator times ket')
        ctx.close(s.op(phi).dag() * x, phi.conj().T @ a, 'bra times operator')
        ctx.close(s.op(phi).dag() * s.op(psi), phi.conj().T @ psi, 'overlap')
        ctx.close(s.op(phi) * s.op(psi).dag(), phi @ psi.conj().T,
                  'dyadic product')
        ctx.close(s.op(psi).kron(s.op(phi)), np.kron(psi, phi),
                  'Kronecker product of kets')
        for sc in (2, 2., 2j, np.float32(2), np.float64(2), np.int32(2),
                   np.int64(2), np.complex128(2j), np.complex64(2j)):
            ctx.close(x * sc, a * complex(sc), 'scalar from the right')
            ctx.close(sc * x, a * complex(sc), 'scalar from the left')
            ctx.close(x / sc, a / complex(sc), 'division')
        ctx.close(x, a, 'no operand is altered')
        h = a + a.conj().T
        val, vec = s.op(h).spectral_decomposition(hermitian=True)
        ctx.close(vec @ np.diag(val) @ vec.conj().T, h,
                  'spectral decomposition')
        val, vec = x.spectral_decomposition()
        ctx.close(a @ vec, vec @ np.diag(val), 'eigenvectors')
        # entry by entry
        nb = m.general(rng, dim) + 3.
        for arr in (nb, nb.real.copy()):
            ctx.close(x / arr, a / arr, 'division by an array')
            z = s.op(a)
            keep = arr.copy()
            first = z
            z /= arr
            ctx.check(z is first, 'division in place returns the operator')
            ctx.close(z, a / arr, 'division by an array in place')
            ctx.close(arr, keep, 'no operand is altered')
        # nearly real values and other units
        for small in (1e-8, 1e-11, 1e-14):
            for re, im in ((1., small), (small, 1.), (small, small)):
                c = re * a.real + 1j * im * a.imag
                z = s.op(c)
                got = [z.dag(), z.conj(), z.conjugate(), z.transpose(),
                       z * .5, z / 2j, z + z, z - .3 * z, z.kron(y)]
                want = [c.conj().T, c.conj(), c.conj(), c.T, .5 * c,
                        c / 2j, 2 * c, .7 * c, np.kron(c, b)]
                for way in ('dag', 'conj', 'transpose'):
                    q = s.op(c)
                    getattr(q, way)(do_copy=False)
                    got.append(q)
                    want.append(dict(dag=c.conj().T, conj=c.conj(),
                                     transpose=c.T)[way])
                for g, w in zip(got, want):
                    g = g.data
                    for part in ('real', 'imag'):
                        p = getattr(w, part)
                        unit = max(np.max(np.abs(p)), small * 1e-3)
                        ctx.close(getattr(g, part) / unit, p / unit,
                                  'values in small units', tol=1e-6)
        for bad in ('text', None, [1, 2]):
            ctx.raises(lambda: x * bad, 'unknown factors are refused')
            ctx.raises(lambda: x + bad, 'unknown summands are refused')
        ctx.trace()


def _construct(ctx):
    import scipy.sparse as sp
    from qopt.matrix import DenseOperator
    from qutip import Qobj
    rng = s.rng_for(ctx.seed, 'c13c')
    for dim in (1, 2, 3):
        a = m.general(rng, dim)
        for name, obj in (('complex', a), ('real', a.real.copy()),
                          ('int', np.round(4 * a.real).astype(int)),
                          ('sparse', sp.csr_matrix(a)),
                          ('qobj', Qobj(a)), ('dense', DenseOperator(a)),
                          ('fortran', np.asfortranarray(a))):
            x = DenseOperator(obj)
            want = dict(real=a.real, int=np.round(4 * a.real)).get(name, a)
            ctx.state((dim, name))
            ctx.step()
            ctx.close(x, want, 'constructed from %s' % name)
            ctx.check(x.data.dtype == np.complex128, 'complex data')
            ctx.trace()
        ctx.raises(lambda: DenseOperator('text'), 'unknown data is refused')
        ctx.raises(lambda: DenseOperator(None), 'unknown data is refused')
    ctx.close(DenseOperator.pauli_0(), np.eye(2), 'identity')
    ctx.close(DenseOperator.pauli_x(), m.SX, 'pauli x')
    ctx.close(DenseOperator.pauli_y(), m.SY, 'pauli y')
    ctx.close(DenseOperator.pauli_z(), m.SZ, 'pauli z')
    ctx.close(DenseOperator.pauli_p(), (m.SX + 1j * m.SY) / 2, 'pauli plus')
    ctx.close(DenseOperator.pauli_m(), (m.SX - 1j * m.SY) / 2, 'pauli minus')
