"""Small systems under test and their plain numpy descriptions."""
import itertools

import numpy as np

from mc import models as m


def rng_for(seed, *key):
    import zlib
    return np.random.default_rng(
        [int(seed), zlib.crc32(repr(key).encode())])


def op(a):
    from qopt.matrix import DenseOperator
    return DenseOperator(np.array(a, dtype=complex))


def ops(seq):
    return [op(a) for a in seq]


def alphabet(n_ctrl, seed, size=3, scale=1.):
    """Finite set of control vectors: zero, positive, mixed sign, ..."""
    rng = rng_for(seed, 'alphabet', n_ctrl)
    base = scale * (.4 + rng.random((8, n_ctrl)))
    out = [np.zeros(n_ctrl), base[0], base[1] * (-1.) ** np.arange(1, n_ctrl
                                                                   + 1),
           base[2] * 3.7, -base[3]]
    return out[:size]


def words(letters, depth):
    """All control words of exactly `depth` letters."""
    return itertools.product(range(len(letters)), repeat=depth)


LONG = 17


def long_words(size, depth=LONG, every=False):
    """Control words of more letters than can be enumerated: one without a
    period, and one constant up to a single deviation (at every place)."""
    yield tuple((i * i + i // 3) % size for i in range(depth))
    for k in range(depth) if every else (depth - 2,):
        yield tuple(size - 1 if i == k else 1 for i in range(depth))


class System:
    """Hamiltonian data; drift per slot and controls."""

    def __init__(self, seed, dim, n_ctrl, num_t, drift='steps',
                 special=None):
        rng = rng_for(seed, 'system', dim, n_ctrl, drift, special)
        if special == 'pauli':
            paulis = [m.SX, m.SY, m.SZ]
            self.ctrls = [paulis[i % 3] / 2 for i in range(n_ctrl)]
            drifts = [m.SZ * (.3 + .2 * t) for t in range(num_t)]
        elif special == 'degenerate':
            self.ctrls = []
            for i in range(n_ctrl):
                c = np.zeros((dim, dim), dtype=complex)
                c[i % dim, i % dim] = 1.
                if i % 2:
                    c[0, dim - 1] = c[dim - 1, 0] = 1.
                self.ctrls.append(c)
            drifts = [np.zeros((dim, dim), dtype=complex)] * num_t
        else:
            self.ctrls = [m.herm(rng, dim) for _ in range(n_ctrl)]
            drifts = [m.herm(rng, dim) for _ in range(num_t)]
        self.drift = drift
        if drift == 'none':
            drifts = [np.zeros((dim, dim), dtype=complex)] * num_t
        elif drift != 'steps':
            drifts = [drifts[0]] * num_t
        self.drifts = drifts
        self.dim = dim
        self.num_t = num_t
        self.n_ctrl = n_ctrl

    def in_units(self, unit):
        """The same physics in other units, see UNITS."""
        amp, ctrl, time = unit
        self.ctrls = [c * ctrl for c in self.ctrls]
        self.drifts = [h / time for h in self.drifts]
        return self

    def h_drift(self):
        if self.drift == 'none':
            return []
        if self.drift == 'operator':
            return op(self.drifts[0])
        if self.drift == 'single':
            return [op(self.drifts[0])]
        return ops(self.drifts)

    def h_ctrl(self):
        return ops(self.ctrls)


# factors on (amplitudes, control operators, times); the product is one
UNITS = ((1e-9, 1e9, 1.), (1e-9, 1., 1e9), (1e9, 1., 1e-9), (1e12, 1e-12, 1.),
         (1., 1e10, 1e-10), (1e-5, 1e-7, 1e12))


def taus(num_t, kind='uneven'):
    if kind == 'uniform':
        return np.full(num_t, .6)
    if kind == 'close':
        # equal for any comparison with a usual tolerance, but not equal
        return .5 + 3e-6 * np.resize([0, 1, -1, 2, 0, -2, 1], num_t)
    return np.resize([.3, .9, .5, 1.3, .7, .2, 1.1], num_t) \
        * (1 + .05 * (np.arange(num_t) // 7))


def user_noise(draw, **kw):
    """A noise generator of a user: draw() returns new samples."""
    from qopt.noise import NoiseTraceGenerator

    class UserNoise(NoiseTraceGenerator):
        user_samples = None

        def _sample_noise(self):
            self.user_samples = draw()

        @property
        def noise_samples(self):
            if self.user_samples is None or self.always_redraw_samples:
                self._sample_noise()
            return self.user_samples
    return UserNoise(**kw)
