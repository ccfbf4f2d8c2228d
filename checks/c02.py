"""Coherence of the solver caches over every history of operations.

The alphabet of operations is applied to the real solver in every order up to
the depth.  The model is the pair (current pulse, current times); after every
operation each value that is read must be the one of the model, and at the
end of the history every readable quantity is read and compared."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = ('every sequence of the operations {set pulse A, set pulse B, set an '
        'equal copy, overwrite the array of the last pulse in place and set '
        'it again (every array handed over is overwritten '
        'afterwards), set pulses of a wrong shape, set times 1 / 2 / times '
        'with another number of slots, read each quantity} up to the depth, for every solver kind; state = (solver '
        'kind, pulse, times, quantities read since the last change)')
ASSUMPTIONS = ['the transfer functions of these histories are the '
               'identity, oversampling, and exponential saturation', 'noise traces fixed']

KINDS = ('schroedinger', 'schroedinger-deriv', 'grape', 'montecarlo',
         'montecarlo-deriv', 'montecarlo-grape', 'controlnoise', 'lindblad',
         'lindblad-prefactor', 'lindblad-superop', 'spectral', 'oversampling', 'exponential')
OPS = ('A', 'B', 'near', 'copy', 'inplace', 'bad', 'T1', 'T2', 'T3',
       'props', 'fwd', 'rev', 'deriv')
GIVEN = ('schroedinger', 'schroedinger-deriv', 'grape', 'spectral',
         'montecarlo', 'montecarlo-deriv', 'montecarlo-grape', 'lindblad',
         'lindblad-prefactor', 'lindblad-superop')
# the noise traces have two samples, so the number of slots is fixed
NOISE_OPS = ('A', 'B', 'near', 'inplace', 'T1', 'T2',
             'props', 'fwd', 'rev', 'deriv',
             'nprops', 'nfwd', 'nrev', 'nderiv')


def noisy(kind):
    return kind.startswith('montecarlo') or kind == 'controlnoise'


def alphabet(kind):
    if kind in ('schroedinger', 'oversampling', 'lindblad-prefactor'):
        return OPS + ('T4', )
    return NOISE_OPS if noisy(kind) else OPS


def cases(tier, seed):
    depth = 5 if tier == 'thorough' else 4
    out = []
    for kind in KINDS:
        d = depth
        for a in alphabet(kind):
            for b in alphabet(kind):
                if a in READ or a in ('near', 'copy', 'inplace'):
                    continue     # there is no pulse yet
                out.append(dict(kind=kind, first=[a, b], depth=d))
                # long pulses of three controls on three levels
                out.append(dict(kind=kind, first=[a, b], depth=3, wide=True))
        if not noisy(kind) and kind not in ('oversampling', 'exponential'):
            out.append(dict(kind=kind, drifts=True))
        if kind in GIVEN:
            # amplitudes handed over to the constructor
            for a in alphabet(kind):
                out.append(dict(kind=kind, first=[a], depth=3, given=True))
    return out


class Model:
    """Description of one solver kind: reference values for (pulse, tau)."""

    def __init__(self, kind, seed, wide=False, given=False):
        self.kind = kind
        self.given = given
        self.seed = seed
        # levels, controls, slots
        self.d, self.c, self.n = (3, 3, s.LONG) if wide else (2, 2, 2)
        self.sys = s.System(seed, self.d, self.c, self.n, 'single')
        rng = s.rng_for(seed, 'c02')
        self.noise = m.herm(rng, self.d)
        self.samples = rng.standard_normal((1, 2, self.n)) * .3
        self.csamples = rng.standard_normal((self.c, 2, self.n)) * .3
        self.lind = [m.general(rng, self.d) * .4, m.general(rng, self.d) * .3]
        self.wide = wide
        self.over = 2 if kind in ('oversampling', 'exponential') else 1
        # the exponential saturation is defined for slots of equal length
        self.taus = [np.full(len(x), x[-1] / 2) for x in TAUS] \
            if kind == 'exponential' else TAUS
        if wide:
            t = s.taus(self.n, 'uneven') * .2
            u = t.copy()
            u[-1] += 4e-9
            self.taus = [t, t[::-1], np.append(t[1:], [t[0] / 2] * 2), u]
            if kind == 'exponential':
                self.taus = [np.full(len(x), x.sum() / len(x))
                             for x in self.taus]
        self.memo = {}

    # -- the implementation
    def make(self):
        tau = np.array(self.taus[0])
        solver = self._make(tau)
        tau += 3.                # the caller reuses its array
        return solver

    def _make(self, tau):
        from qopt import solver_algorithms as sa
        from qopt import transfer_function as tf
        sy = self.sys
        kw = dict(h_drift=sy.h_drift(), h_ctrl=sy.h_ctrl(), tau=tau)
        if self.given:
            kw['ctrl_amps'] = self.pulse_of('A', 0)
        k = self.kind
        if k == 'exponential':
            return sa.SchroedingerSolver(
                calculate_propagator_derivatives=False,
                transfer_function=tf.ExponentialMTF(
                    awg_rise_time=.3, oversampling=2, num_ctrls=self.c),
                **kw)
        if k == 'schroedinger':
            return sa.SchroedingerSolver(
                calculate_propagator_derivatives=False, **kw)
        if k == 'schroedinger-deriv':
            return sa.SchroedingerSolver(
                calculate_propagator_derivatives=True, **kw)
        if k == 'grape':
            return sa.SchroedingerSolver(
                calculate_propagator_derivatives=False,
                frechet_deriv_approx_method='grape', **kw)
        if k == 'spectral':
            return sa.SchroedingerSolver(
                calculate_propagator_derivatives=False,
                exponential_method='spectral', **kw)
        if k == 'oversampling':
            return sa.SchroedingerSolver(
                calculate_propagator_derivatives=False,
                transfer_function=tf.OversamplingMTF(
                    oversampling=2, num_ctrls=self.c, offset=.1), **kw)
        if k.startswith('montecarlo'):
            return sa.SchroedingerSMonteCarlo(
                h_noise=[s.op(self.noise)],
                noise_trace_generator=fixed_noise(self.samples),
                calculate_propagator_derivatives=k.endswith('deriv'),
                frechet_deriv_approx_method=(
                    'grape' if k.endswith('grape') else None), **kw)
        if k == 'controlnoise':
            return sa.SchroedingerSMCControlNoise(
                noise_trace_generator=fixed_noise(self.csamples), **kw)
        if k == 'lindblad':
            return sa.LindbladSolver(lindblad_operators=s.ops(self.lind),
                                     **kw)
        if k == 'lindblad-prefactor':
            return sa.LindbladSolver(
                lindblad_operators=s.ops(self.lind),
                prefactor_function=lambda c, x: prefactor(c),
                prefactor_derivative_function=lambda c, x:
                prefactor_deriv(c), **kw)
        if k == 'lindblad-superop':
            return sa.LindbladSolver(
                super_operator_function=lambda c, x: [
                    s.op(a) for a in self.superop(c)],
                super_operator_derivative_function=lambda c, x: [
                    [s.op(b) for b in a] for a in self.superop_deriv(c)],
                **kw)
        raise ValueError(k)

    def superop(self, c):
        return [(1 + c[t, 0] ** 2) * m.dissipator(self.lind[0])
                for t in range(len(c))]

    def superop_deriv(self, c):
        d = m.dissipator(self.lind[0])
        return [[2 * c[t, 0] * d] + [0 * d] * (self.c - 1)
                for t in range(len(c))]

    # -- the reference
    def values(self, name):
        """name: (pulse id, times id) -> dict of reference values."""
        if name not in self.memo:
            self.memo[name] = self._values(self.pulse_of(*name),
                                           self.taus[name[1]])
        return self.memo[name]

    def _values(self, pulse, tau):
        sy, k = self.sys, self.kind
        pulse = np.array(pulse)
        if k == 'exponential':
            pulse = m.tf_exponential(pulse, tau, .3, 2, ['x', 0], None)
            tau = np.repeat(tau, self.over) / self.over
        elif self.over > 1:
            pulse = np.repeat(pulse, self.over, axis=0) + .1
            tau = np.repeat(tau, self.over) / self.over
        return self.reference([sy.drifts[0]] * len(tau), pulse, tau)

    def reference(self, drifts, pulse, tau):
        sy, k, n = self.sys, self.kind, len(tau)
        if k.startswith('lindblad'):
            gens, dirs = [], []
            for t in range(n):
                h = m.step_hamiltonian(drifts[t], sy.ctrls, pulse[t])
                if k == 'lindblad':
                    pf, dpf = np.ones((n, 2)), np.zeros((n, self.c, 2))
                elif k == 'lindblad-prefactor':
                    pf, dpf = prefactor(pulse), prefactor_deriv(pulse)
                g = m.liouvillian(h)
                dd = [m.liouvillian(c) for c in sy.ctrls]
                if k == 'lindblad-superop':
                    g = g + self.superop(pulse)[t]
                    dd = [a + b for a, b in
                          zip(dd, self.superop_deriv(pulse)[t])]
                else:
                    for i, lo in enumerate(self.lind):
                        d = m.dissipator(lo)
                        g = g + pf[t, i] * d
                        dd = [x + dpf[t, c, i] * d
                              for c, x in enumerate(dd)]
                gens.append(g)
                dirs.append(dd)
            props = [m.expm(g * dt) for g, dt in zip(gens, tau)]
            deriv = [[m.dexpm(gens[t] * tau[t], dirs[t][c] * tau[t])[1]
                      for t in range(n)] for c in range(self.c)]
            return dict(props=props,
                        fwd=m.forward(props, np.eye(self.d ** 2)),
                        rev=m.backward(props), deriv=deriv)
        props = m.propagators(drifts, sy.ctrls, pulse, tau)
        one = np.eye(self.d)
        out = dict(props=props, fwd=m.forward(props, one),
                   rev=m.backward(props))
        if k.endswith('grape'):
            out['deriv'] = [[-1j * tau[t] * c @ props[t] for t in range(n)]
                            for c in sy.ctrls]
        else:
            out['deriv'] = m.frechet(drifts, sy.ctrls, pulse, tau)
        if k.startswith('montecarlo') or k == 'controlnoise':
            traces = []
            for j in range(2):
                if k == 'controlnoise':
                    extra = [sum(self.csamples[c, j, t] * sy.ctrls[c]
                                 for c in range(self.c)) for t in range(n)]
                else:
                    extra = [self.samples[0, j, t] * self.noise
                             for t in range(n)]
                traces.append((m.propagators(drifts, sy.ctrls, pulse, tau,
                                             extra), extra))
            out['nprops'] = [p for p, _ in traces]
            out['nfwd'] = [m.forward(p, one) for p, _ in traces]
            out['nrev'] = [m.backward(p) for p, _ in traces]
            if k.endswith('grape'):
                out['nderiv'] = [[[-1j * tau[t] * c @ p[t] for t in range(n)]
                                  for c in sy.ctrls] for p, _ in traces]
            else:
                out['nderiv'] = [m.frechet(drifts, sy.ctrls, pulse, tau, e)
                                 for _, e in traces]
        return out

    def pulse_of(self, name, times):
        if not self.wide:
            return pulse_of(name, times)
        p = s.rng_for(self.seed, 'c02 wide').standard_normal(
            (self.n, self.c)) * .7
        if name == 'B':
            p = p[::-1, ::-1].copy()
        elif name == 'C':
            p[[3, -1]] = p[[-1, 3]]
        elif name == 'N':
            p[-1, -1] += 4e-9
        return np.vstack([p, -p[:1]]) if len(self.taus[times]) > self.n \
            else p


# B consists of the numbers of A, C has its slots exchanged, N is nearly A
PULSES = dict(A=np.array([[.3, -.7], [1.1, .4]]),
              B=np.array([[-.7, .4], [.3, 1.1]]),
              C=np.array([[1.1, .4], [.3, -.7]]),
              N=np.array([[.3, -.7], [1.1, .4 + 4e-9]]))
# equal total durations, the last is nearly the first
TAUS = [np.array([.5, .8]), np.array([.8, .5]), np.array([.5, .3, .5]),
        np.array([.5, .8 + 4e-9])]
TOL = 1e-10


def pulse_of(name, times):
    p = PULSES[name]
    return np.vstack([p, [p[1, 1], -p[0, 0]]]) if len(TAUS[times]) == 3 \
        else p.copy()


READ = dict(props='propagators', fwd='forward_propagators',
            rev='reversed_propagators', deriv='frechet_deriv_propagators',
            nprops='propagators_noise', nfwd='forward_propagators_noise',
            nrev='reversed_propagators_noise',
            nderiv='frechet_deriv_propagators_noise')


def prefactor(c):
    return np.stack([1 + c[:, 0] ** 2, .5 + .3 * c[:, 1]], axis=1)


def prefactor_deriv(c):
    """[t][ctrl][lindblad]"""
    out = np.zeros((len(c), c.shape[1], 2))
    out[:, 0, 0] = 2 * c[:, 0]
    out[:, 1, 1] = .3
    return out


def fixed_noise(samples):
    return s.user_noise(
        lambda: np.array(samples), n_samples_per_trace=samples.shape[2],
        always_redraw_samples=False, n_traces=samples.shape[1],
        n_noise_operators=samples.shape[0])


class History:
    """Replays operations on a real solver next to the model state."""

    def __init__(self, model, ctx):
        self.model = model
        self.ctx = ctx
        self.solver = model.make()
        self.pulse = 'A' if model.given else None
        self.times = 0
        self.buffer = None
        self.held = []
        self.read = ()

    def reset(self):
        self.read = ()

    def apply(self, o):
        so = self.solver
        if o in ('A', 'B'):
            self.buffer = self.model.pulse_of(o, self.times)
            so.set_optimization_parameters(self.buffer)
            self.buffer += 17.       # the caller reuses its array
            self.pulse = o
            self.reset()
        elif o == 'near':
            # a pulse that differs only slightly is a different pulse
            if self.pulse is None:
                return False
            self.pulse = 'N' if self.pulse != 'N' else 'A'
            so.set_optimization_parameters(
                self.model.pulse_of(self.pulse, self.times))
            self.reset()
        elif o == 'copy':
            if self.pulse is None:
                return False
            so.set_optimization_parameters(
                self.model.pulse_of(self.pulse, self.times))
        elif o == 'inplace':
            if self.buffer is None:
                return False
            # the caller overwrites its own array, then sets it
            self.pulse = 'C' if self.pulse != 'C' else 'A'
            self.buffer[...] = self.model.pulse_of(self.pulse, self.times)
            so.set_optimization_parameters(self.buffer)
            self.buffer -= .5
            self.reset()
        elif o == 'bad':
            n, k, c = len(self.model.taus[self.times]), self.model.n, \
                self.model.c
            for shape in ((2 * k + 1 - n, c), (n + 2, c), (n, c + 1)):
                if self.model.over == 1 or shape[1] == c:
                    self.ctx.raises(
                        lambda: so.set_optimization_parameters(
                            np.ones(shape)),
                        'a pulse of wrong shape is rejected')
        elif o in ('T1', 'T2', 'T3', 'T4'):
            if len(self.model.taus[int(o[1]) - 1]) != \
                    len(self.model.taus[self.times]):
                self.pulse = self.buffer = None
            self.times = int(o[1]) - 1
            tau = np.array(self.model.taus[self.times])
            so.set_times(tau)
            tau += 3.                # the caller reuses its array
            self.reset()
        else:
            if self.pulse is None:
                return False
            self.check(o)
            if o not in self.read:
                self.read += (o,)
        self.ctx.step()
        self.ctx.state((self.pulse, self.times, self.read))
        return True

    def check(self, o):
        want = self.model.values((self.pulse, self.times))
        got = getattr(self.solver, READ[o])
        self.ctx.close(got, want[o], READ[o], tol=TOL)
        self.held.append((o, got, want[o]))

    def finish(self, order):
        if self.pulse is None:
            return
        for o in order:
            self.check(o)
        # results handed out earlier were not altered by later operations
        for key, got, want in self.held:
            self.ctx.close(got, want, READ[key] + ' handed out earlier',
                           tol=TOL)
        self.ctx.trace()


ORDERS = list(itertools.permutations(('props', 'fwd', 'rev', 'deriv')))


def orders(kind):
    """Orders in which everything is read at the end of a history."""
    if not noisy(kind):
        return ORDERS
    out = []
    for o in ORDERS:
        n = tuple('n' + x for x in o)
        out += [n + o, o + n,
                tuple(x for pair in zip(o, n[::-1]) for x in pair)]
    return out


def _drifts(case, ctx):
    """A drift for every slot, some of them one object, and other times."""
    model = Model(case['kind'], ctx.seed)
    rng = s.rng_for(ctx.seed, 'c02 drifts')
    mats = [m.herm(rng, 2) for _ in range(3)]
    given = s.ops(mats)
    for n in (2, 3, 5):
        for pattern in itertools.product(range(3), repeat=n) if n < 4 else \
                ((0, 1, 2, 1, 0), (0, 0, 1, 0, 0), (0, 1, 1, 1, 1),
                 (0, 0, 0, 0, 1), (2, 1, 2, 1, 2), (1, 1, 1, 1, 1)):
            taus = [s.taus(n), s.taus(n)[::-1] * 1.2]
            model.sys.drifts = [mats[i] for i in pattern]
            model.sys.drift = 'steps'
            model.sys.num_t = n
            model.sys.h_drift = lambda: [given[i] for i in pattern]
            solver = model._make(np.array(taus[0]))
            pulse, tau = rng.standard_normal((2, n, 2)), taus[0]
            for step in ('A', 'T1', 'B', 'T0', 'longer', 'T1', 'A', 'T0'):
                if step in 'AB':
                    current = pulse['AB'.index(step)]
                    solver.set_optimization_parameters(current)
                elif step == 'longer':
                    if len(set(pattern)) == 1:
                        continue

                    # there are no drifts for all of these slots
                    def longer():
                        solver.set_times(np.ones(n + 1))
                        solver.set_optimization_parameters(
                            np.ones((n + 1, 2)))
                        return solver.forward_propagators
                    ctx.raises(longer, 'more slots than drifts are refused')
                    solver.set_times(taus[1].copy())
                    tau = taus[1]
                    solver.set_optimization_parameters(current)
                else:
                    tau = taus[int(step[1])]
                    solver.set_times(tau.copy())
                want = model.reference(model.sys.drifts, current, tau)
                for name in ('fwd', 'props', 'deriv', 'rev'):
                    ctx.close(getattr(solver, READ[name]), want[name],
                              READ[name] + ' with drifts of each slot',
                              tol=TOL)
                ctx.step()
                ctx.state((pattern, step))
            ctx.trace()


def run(case, ctx):
    if case.get('drifts'):
        return _drifts(case, ctx)
    model = Model(case['kind'], ctx.seed, case.get('wide', False),
                  case.get('given', False))
    n = 0
    ops, ends = alphabet(case['kind']), orders(case['kind'])
    for rest in itertools.product(
            ops, repeat=case['depth'] - len(case['first'])):
        seq = tuple(case['first']) + rest
        h = History(model, ctx)
        if all(h.apply(o) for o in seq):
            h.finish(ends[n % len(ends)])
            n += 1
            if n < 3:
                ctx.sample(dict(kind=case['kind'], history=seq))
