"""Reference models: plain numpy, independent of qopt and of scipy.linalg."""
import itertools

import numpy as np

SX = np.array([[0, 1], [1, 0]], dtype=complex)
SY = np.array([[0, -1j], [1j, 0]], dtype=complex)
SZ = np.array([[1, 0], [0, -1]], dtype=complex)
I2 = np.eye(2, dtype=complex)


# ---------------------------------------------------------------- matrices
def expm(a):
    """Scaling and squaring with a long Taylor series."""
    a = np.asarray(a, dtype=complex)
    n = np.linalg.norm(a, 1)
    s = max(0, int(np.ceil(np.log2(n))) + 3) if n > 0 else 0
    b = a / 2 ** s
    out = np.eye(a.shape[0], dtype=complex)
    term = out
    for k in range(1, 24):
        term = term @ b / k
        out = out + term
    for _ in range(s):
        out = out @ out
    return out


def dexpm(a, e):
    """(exp(a), directional derivative of exp at a along e)."""
    n = a.shape[0]
    big = np.zeros((2 * n, 2 * n), dtype=complex)
    big[:n, :n] = a
    big[n:, n:] = a
    big[:n, n:] = e
    x = expm(big)
    return x[:n, :n], x[:n, n:]


def herm(rng, d, scale=1.):
    a = rng.standard_normal((d, d)) + 1j * rng.standard_normal((d, d))
    return scale * (a + a.conj().T) / 2


def general(rng, d):
    return rng.standard_normal((d, d)) + 1j * rng.standard_normal((d, d))


def unitary(rng, d):
    q, r = np.linalg.qr(general(rng, d))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def ket(rng, d):
    v = general(rng, d)[:, :1]
    return v / np.linalg.norm(v)


def closest_unitary(a):
    u, _, vh = np.linalg.svd(a)
    return u @ vh


def vec(rho):
    """Column stacking as (n, 1) ket."""
    return rho.reshape((-1, 1), order='F')


def unvec(v):
    d = int(round(np.sqrt(v.size)))
    return v.reshape((d, d), order='F')


def ptrace(mat, dims, remove):
    """Partial trace by explicit summation over index tuples."""
    keep = [i for i in range(len(dims)) if i not in remove]
    kd = [dims[i] for i in keep]
    rd = [dims[i] for i in remove]
    n = int(np.prod(kd)) if kd else 1
    out = np.zeros((n, n), dtype=complex)

    def flat(kidx, ridx):
        full = [0] * len(dims)
        for p, v in zip(keep, kidx):
            full[p] = v
        for p, v in zip(remove, ridx):
            full[p] = v
        pos = 0
        for d, v in zip(dims, full):
            pos = pos * d + v
        return pos
    ks = list(itertools.product(*[range(x) for x in kd]))
    for i, ki in enumerate(ks):
        for j, kj in enumerate(ks):
            for r in itertools.product(*[range(x) for x in rd]):
                out[i, j] += mat[flat(ki, r), flat(kj, r)]
    return out


# ---------------------------------------------------------------- dynamics
def step_hamiltonian(drift, ctrls, amps):
    h = np.array(drift, dtype=complex)
    for c, a in zip(ctrls, amps):
        h = h + a * c
    return h


def propagators(drifts, ctrls, amps, tau, extra=None):
    """exp(-i H_t tau_t); amps (num_t, num_ctrl); extra[t]: added to H_t."""
    out = []
    for t in range(len(tau)):
        h = step_hamiltonian(drifts[t], ctrls, amps[t])
        if extra is not None:
            h = h + extra[t]
        out.append(expm(-1j * h * tau[t]))
    return out


def forward(props, initial):
    out = [np.array(initial, dtype=complex)]
    for p in props:
        out.append(p @ out[-1])
    return out


def backward(props):
    d = props[0].shape[0]
    out = [np.eye(d, dtype=complex)]
    for p in props[::-1]:
        out.append(out[-1] @ p)
    return out


def frechet(drifts, ctrls, amps, tau, extra=None):
    """[ctrl][t] derivatives of the propagators."""
    out = [[None] * len(tau) for _ in ctrls]
    for t in range(len(tau)):
        h = step_hamiltonian(drifts[t], ctrls, amps[t])
        if extra is not None:
            h = h + extra[t]
        for c, op in enumerate(ctrls):
            out[c][t] = dexpm(-1j * h * tau[t], -1j * op * tau[t])[1]
    return out


def dissipator(lind):
    """Column stacked superoperator of L rho L^+ - {L^+ L, rho}/2."""
    d = lind.shape[0]
    one = np.eye(d)
    ll = lind.conj().T @ lind
    return np.kron(lind.conj(), lind) - .5 * np.kron(one, ll) \
        - .5 * np.kron(ll.T, one)


def liouvillian(h):
    d = h.shape[0]
    one = np.eye(d)
    return -1j * (np.kron(one, h) - np.kron(h.T, one))


# ------------------------------------------------------------- derivatives
def central(func, x, h=1e-5):
    """d func / d x_ij by central differences: shape x.shape + out.shape."""
    x = np.asarray(x, dtype=float)
    out = None
    for idx in np.ndindex(*x.shape):
        e = np.zeros_like(x)
        e[idx] = h
        d = (np.asarray(func(x + e)) - np.asarray(func(x - e))) / (2 * h)
        if out is None:
            out = np.zeros(x.shape + d.shape, dtype=d.dtype)
        out[idx] = d
    return out


# ------------------------------------------------------- transfer functions
def padding(bound, over):
    if bound is None:
        return 0, 0
    kind, n = bound
    if kind == 'n':
        return n, n
    if kind == 'x':
        return n * over, n * over
    if kind == 'right_n':
        return 0, n
    raise ValueError(kind)


def tf_times(tau, over, bound):
    """Durations of the transferred slots."""
    s, e = padding(bound, over)
    out = [tau[0] / over] * s
    for t in tau:
        out += [t / over] * over
    out += [tau[-1] / over] * e
    return np.array(out)


def tf_oversampling(y, over, bound, offset=None):
    s, e = padding(bound, over)
    rows = [np.zeros(y.shape[1])] * s
    for row in y:
        rows += [row] * over
    rows += [np.zeros(y.shape[1])] * e
    return np.array(rows) + (0 if offset is None else offset)


def tf_exponential(y, tau, rise, over, bound, offset=None):
    """Saturation towards each new level, starting at and ending with 0."""
    s, e = padding(bound, over)
    dt = tau[0]
    rows = [np.zeros(y.shape[1])] * s
    last = np.zeros(y.shape[1])
    for row in y:
        for j in range(over):
            t = (j + 1) * dt / over
            rows.append(last + (row - last) * (1 - np.exp(-t / rise)))
        last = row
    for j in range(e):
        t = (j + 1) * dt / over
        rows.append(last * np.exp(-t / rise))
    return np.array(rows) + (0 if offset is None else offset)


def _index(i, n, mode):
    """Source index of the boundary modes of scipy.ndimage, None: constant."""
    if 0 <= i < n:
        return i
    if mode == 'nearest':
        return 0 if i < 0 else n - 1
    if mode == 'wrap':
        return i % n
    if mode == 'reflect':
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if mode == 'mirror':
        if n == 1:
            return 0
        i %= 2 * n - 2
        return i if i < n else 2 * n - 2 - i
    if mode == 'constant':
        return None
    raise ValueError(mode)


def convolve(y, kernel, mode, cval=0.):
    """scipy.ndimage.convolve in two dimensions, by definition."""
    k = kernel if kernel.ndim == 2 else kernel[:, None]
    n, m = y.shape
    a, b = k.shape
    ca, cb = a // 2, b // 2
    # convolution: correlate with the mirrored kernel; for an even size the
    # centre of the mirrored kernel moves
    kf = k[::-1, ::-1]
    oa = ca if a % 2 else ca - 1
    ob = cb if b % 2 else cb - 1
    out = np.zeros_like(y, dtype=float)
    for i in range(n):
        for j in range(m):
            acc = 0.
            for p in range(a):
                for q in range(b):
                    ii = _index(i + p - oa, n, mode)
                    jj = _index(j + q - ob, m, mode)
                    v = cval if ii is None or jj is None else y[ii, jj]
                    acc += kf[p, q] * v
            out[i, j] = acc
    return out


def gauss_kernel(sigma, order, truncate):
    r = int(truncate * sigma + .5)
    x = np.arange(-r, r + 1)
    w = np.exp(-.5 * x ** 2 / sigma ** 2)
    w = w / w.sum()
    if order == 0:
        return w
    if order == 1:
        return -x / sigma ** 2 * w
    if order == 2:
        return (x ** 2 / sigma ** 4 - 1 / sigma ** 2) * w
    raise ValueError


def gaussian(y, sigma, order, mode, truncate):
    k = gauss_kernel(sigma, order, truncate)
    r = len(k) // 2
    n, m = y.shape
    out = np.zeros_like(y, dtype=float)
    for i in range(n):
        for p in range(-r, r + 1):
            ii = _index(i - p, n, mode)
            if ii is not None:
                out[i] += k[p + r] * y[ii]
    return out


# ------------------------------------------------------------- cost values
def entanglement_fidelity(target, prop, comp=None, unitarise=False):
    if comp is not None:
        prop = prop[np.ix_(comp, comp)]
        if unitarise:
            prop = closest_unitary(prop)
    d = target.shape[0]
    return np.abs(np.trace(target.conj().T @ prop)) ** 2 / d ** 2


def entanglement_fidelity_super(target, superop, comp=None):
    """Restricted to the computational block, by explicit maps on E_ij."""
    d = int(round(np.sqrt(superop.shape[0])))
    dc = target.shape[0]
    comp = list(range(d)) if comp is None else list(comp)
    acc = 0.
    for i in range(dc):
        for j in range(dc):
            rho = np.zeros((d, d), dtype=complex)
            rho[comp[i], comp[j]] = 1
            out = unvec(superop @ vec(rho))[np.ix_(comp, comp)]
            back = target.conj().T @ out @ target
            acc += back[i, j]
    return acc.real / dc ** 2


def state_fidelity(bra, psi, comp=None, rescale=False):
    if comp is not None:
        psi = psi[comp]
        if rescale:
            psi = psi / np.linalg.norm(psi)
    return np.abs((bra @ psi)[0, 0]) ** 2
