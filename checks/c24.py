"""Filter function infidelities follow the current pulse."""
import itertools

import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = ('system x number of controls (up to more than ten) x form of the '
        'noise Hamiltonian (list, callable of one or three arguments, noise '
        'of the Monte Carlo solver; sorted and unsorted identifiers) x '
        'amplitude and transfer function x all sequences of pulse settings and cost, '
        'gradient and pulse sequence requests up to a depth; oracle: filter '
        'function integrated in closed form per slot')
ASSUMPTIONS = ['traceless control and noise operators for the gradient',
               'trapezoidal rule over the given frequencies']
OPS = ('p0', 'p1', 'cost', 'grad', 'create0', 'create1', 'create', 'prop',
       'pauli0', 'pauli')


def cases(tier, seed):
    out = []
    for kind in ('list', 'unsorted', 'call1', 'call3', 'deriv3', 'deriv1',
                 'mc', 'mc-default', 'mc-call3', 'mc-call1', 'psd2',
                 'vary-deriv3', 'lind-list', 'lind-deriv3', 'lind-deriv1',
                 'ctrl-unsorted', 'ctrl-deriv3'):
        for n_ctrl in (1, 2, 11, 12):
            for dim in (2, 3):
                for tf in ('identity', 'over'):
                    if n_ctrl > 2 and (dim > 2 or tf == 'over'):
                        continue
                    if n_ctrl > 2 and kind[:4] in ('lind', 'ctrl'):
                        continue
                    for amp in (False, True):
                        if kind == 'mc-call1' and (amp or tf == 'over'):
                            continue
                        out.append(dict(kind='value', form=kind, n=n_ctrl,
                                        dim=dim, tf=tf, num_t=3, amp=amp,
                                        basis=('pauli' if dim == 2 else 'ggm')
                                        if kind.split('-')[-1] in
                                        ('list', 'deriv3') and
                                        n_ctrl == 2 else None))
    # drifts which are one object in the first and last slots
    for form in ('list', 'deriv3', 'mc-default', 'lind-list'):
        for ends in ('ABA', 'AAB', 'ABB', 'AAA'):
            out.append(dict(kind='value', form=form, n=2, dim=2,
                            tf='identity', num_t=3, amp=False, ends=ends))
    # long pulses, many noise terms
    for kind in ('list', 'unsorted', 'call3', 'deriv3', 'deriv1', 'psd2',
                 'mc-default'):
        out.append(dict(kind='value', form=kind, n=2, dim=2, tf='identity',
                        num_t=s.LONG, amp=False))
        if kind != 'psd2':
            out.append(dict(kind='value', form=kind, n=2, dim=2, k=12,
                            tf='over', num_t=2, amp=True))
    depth = 4 if tier == 'thorough' else 3
    for form, amp in (('unsorted', False), ('deriv3', True),
                      ('mc-default', False), ('vary-deriv3', False)):
        for first in OPS[:2] + OPS[4:6] + OPS[8:9]:
            for second in OPS:
                out.append(dict(kind='history', form=form, n=2, dim=2,
                                tf='identity', num_t=2, depth=depth,
                                amp=amp,
                                word=[first, second]))
    # the basis of the solver and the one of the request
    for first in ('create0', 'pauli0'):
        for second in ('p1', 'create', 'create1', 'pauli', 'pauli0'):
            out.append(dict(kind='history', form='unsorted', n=2, dim=2,
                            tf='identity', num_t=2, depth=3, amp=False,
                            basis='ggm', word=[first, second]))
    for form in ('list', 'unsorted', 'deriv3', 'call3', 'mc-default',
                 'lind-deriv1'):
        for tf in ('identity', 'over'):
            for side in ('both', 'negative', 'few', 'uneven'):
                out.append(dict(kind='value', form=form, n=2, dim=2, tf=tf,
                                num_t=3, amp=False, side=side))
    out.append(dict(kind='malformed', form='list', n=2, dim=2,
                    tf='identity', num_t=2))
    for form in ('list', 'deriv3', 'mc-default', 'none', 'lind-none'):
        out.append(dict(kind='bloch', form=form, n=2, dim=2, tf='identity',
                        num_t=3))
    out.append(dict(kind='omega', form='list', n=2, dim=2, tf='identity',
                    num_t=3))
    return out


def traceless(a):
    return a - np.eye(len(a)) * np.trace(a) / len(a)


OMEGA = np.concatenate([np.linspace(.05, 3, 40), np.linspace(3.2, 12, 30)])


SIDES = dict(both=np.concatenate([-OMEGA[::-3], OMEGA]),
             negative=-OMEGA[::-1], few=np.array([.3, .7]),
             uneven=np.array([-2., -.1, 0., .05, .06, 1., 7., 40.]))


def psd(omega):
    # of a quantum bath, where the sign matters
    return np.where(omega >= 0, .3, .1) / (np.abs(omega) + .1)


def psd2(omega):
    return np.array([psd(omega), 2. * omega, .5 + 0 * omega])


def n_coeffs(u, k):
    """Susceptibility of noise k, depends on the first control."""
    return .5 + k + .3 * np.sin(u[:, 0] + k)


def n_coeffs3(y, x, u, k):
    """One that depends on all the arguments of the callable."""
    y = np.repeat(y, len(x) // len(y), axis=0)
    return n_coeffs(u, k) + .2 * np.cos(x[:, -1]) + .1 * (1 + k) * y[:, 0] \
        + .05 * x[:, 0] ** 3


def count(case, ctx, y):
    """Number of noise terms, depends on the pulse in one form."""
    if not case['form'].startswith('vary'):
        return case.get('k', 3)
    first = pulses(case, ctx)
    return 1 + int(sum(y[0, 0] > p[0, 0] - 1e-3 for p in first[:2]))


def amplitude(case, x):
    return x + .2 * x ** 2 if case.get('amp') else x


def build(case, ctx, omega=OMEGA, terms=None):
    if case.get('side'):
        omega = SIDES[case['side']]
    from qopt import amplitude_functions as af
    from qopt import cost_functions as cf
    from qopt import noise
    from qopt import solver_algorithms as sa
    from qopt import transfer_function as tfm
    d, n, num_t = case['dim'], case['n'], case['num_t']
    rng = s.rng_for(ctx.seed, 'c24', d, n, num_t)
    if d == 2:
        paulis = [m.SX, m.SY, m.SZ]
        ctrls = [paulis[i % 3] / 2 * (1 + .1 * i) for i in range(n)]
    else:
        ctrls = [traceless(m.herm(rng, d)) for _ in range(n)]
    drifts = [m.herm(rng, d) for _ in range(num_t)]
    k_n = case.get('k', 3)
    noises = [traceless(m.herm(rng, d)) for _ in range(k_n)]
    if case.get('ends'):
        drifts = [drifts['AB'.index(c)] for c in case['ends']]
    tau = s.taus(num_t)
    form = case['form']
    flavour = None
    if form[:5] in ('lind-', 'ctrl-'):
        flavour, form = form[:4], form[5:]
    over = 2 if case['tf'] == 'over' else 1
    # a basis of the user does not change the infidelities
    basis = case.get('basis')
    names = ['C noise', 'A noise', 'B noise'] if form != 'list' else \
        ['%d' % (i + 1) for i in range(k_n)]
    if k_n > 3 and form != 'list':
        names = ['noise %d' % (7 * i % k_n) for i in range(k_n)]
    tau_x = np.repeat(tau / over, over)
    n_x = len(tau_x)
    const = [np.linspace(1, 2, n_x), np.ones(n_x), .5 + np.arange(n_x) * .1]
    const += [.3 + .1 * i * np.cos(np.arange(n_x)) for i in range(3, k_n)]
    cls = sa.SchroedingerSolver
    kw = dict(h_drift=_shared_ops([drifts[i // over] for i in range(n_x)]),
              h_ctrl=s.ops(ctrls), tau=tau)
    deriv = None
    if form == 'none':
        coeff = None
    elif form in ('list', 'unsorted', 'psd2', 'mc'):
        coeff = lambda y, x, u: const                           # noqa
        kw['filter_function_h_n'] = [[noises[k], const[k], names[k]]
                                     for k in range(k_n)]
    else:
        if form.endswith('call3'):
            coeff = lambda y, x, u: [                           # noqa
                n_coeffs3(y, x, u, k) for k in range(k_n)]
        else:
            coeff = lambda y, x, u: [                           # noqa
                n_coeffs(u, k) for k in range(count(case, ctx, y))]

        def deriv(u, number=k_n):
            out = np.zeros((number, n, n_x))
            for k in range(number):
                out[k, 0] = .3 * np.cos(u[:, 0] + k)
            return out
        if form.endswith('call1'):
            kw['filter_function_h_n'] = lambda u: [
                [noises[k], coeff(None, None, u)[k], names[k]]
                for k in range(k_n)]
        else:
            kw['filter_function_h_n'] = lambda y, x, u: [
                [noises[k], coeff(y, x, u)[k], names[k]]
                for k in range(count(case, ctx, y))]
        if form.endswith('deriv3'):
            def deriv3(y, x, u):
                want = np.repeat(y, over, axis=0)
                ctx.check(len(y) == num_t, 'optimisation parameters')
                ctx.close(x, want, 'transferred parameters')
                ctx.close(u, amplitude(case, want), 'control amplitudes')
                return deriv(u, count(case, ctx, y))
            kw['filter_function_n_coeffs_deriv'] = deriv3
        elif form == 'deriv1':
            kw['filter_function_n_coeffs_deriv'] = deriv
    if flavour == 'lind':
        # the filter functions describe the coherent part
        cls = sa.LindbladSolver
        kw['lindblad_operators'] = s.ops([.3 * np.array([[0, 1.], [0, 0]]) if d == 2 else
                                          np.diag([1., 0, 0]) * .2])
        kw['prefactor_function'] = lambda u, x: np.ones((len(u), 1))
        kw['prefactor_derivative_function'] = \
            lambda u, x: np.zeros((len(u), n, 1))
    if flavour == 'ctrl':
        cls = sa.SchroedingerSMCControlNoise
        kw['noise_trace_generator'] = noise.NTGQuasiStatic(
            standard_deviation=[.1] * n, n_samples_per_trace=n_x, n_traces=2,
            always_redraw_samples=False)
    if form.startswith('mc'):
        cls = sa.SchroedingerSMonteCarlo
        kw['noise_trace_generator'] = noise.NTGQuasiStatic(
            standard_deviation=[.1] * k_n, n_samples_per_trace=n_x, n_traces=2,
            always_redraw_samples=False)
        kw['h_noise'] = s.ops(noises)
        if form == 'mc-default':
            kw.pop('filter_function_h_n', None)
            coeff = lambda y, x, u: [np.ones(n_x)] * k_n        # noqa
    if basis:
        from filter_functions.basis import Basis
        kw['filter_function_basis'] = Basis.pauli(1) if basis == 'pauli' \
            else Basis.ggm(d)
    if over > 1:
        kw['transfer_function'] = tfm.OversamplingTF(
            oversampling=over, num_ctrls=n)
    if case.get('amp'):
        kw['amplitude_function'] = af.UnaryAnalyticAmpFunc(
            value_function=lambda x: x + .2 * x ** 2,
            derivative_function=lambda x: 1 + .4 * x)
    if terms is not None:
        kw['filter_function_h_n'] = terms
    solver = cls(**kw)
    fn = cf.OperatorFilterFunctionInfidelity(
        solver=solver, omega=omega,
        noise_power_spec_density=psd2 if form == 'psd2' else psd)
    drifts_x = [drifts[i // over] for i in range(n_x)]

    def value(y, tau_=None, omega_=OMEGA if omega is None else omega):
        tx = tau_x if tau_ is None else np.repeat(tau_ / over, over)
        x = np.repeat(y, over, axis=0)
        u = amplitude(case, x)
        return model(drifts_x, ctrls, noises, coeff(y, x, u), u, tx, omega_,
                     psd2 if form == 'psd2' else psd)
    gradient = 'call' not in form
    return solver, fn, value, gradient, dict(tau=tau, ctrls=ctrls,
                                             drifts=drifts_x, tau_x=tau_x)


def _shared_ops(mats):
    """Operators, one for every matrix."""
    made = {id(a): s.op(a) for a in mats}
    return [made[id(a)] for a in mats]


def model(drifts, ctrls, noises, coeff, u, tau, omega, spectrum):
    d = len(drifts[0])
    out = []
    sp = spectrum(omega)
    if sp.ndim == 1:
        sp = np.array([sp] * len(noises))
    for k, b in enumerate(noises[:len(coeff)]):
        tot = np.zeros((len(omega), d, d), dtype=complex)
        prop = np.eye(d, dtype=complex)
        t = 0.
        for g, dt in enumerate(tau):
            h = m.step_hamiltonian(drifts[g], ctrls, u[g])
            val, vec = np.linalg.eigh(h)
            bb = vec.conj().T @ b @ vec
            delta = val[:, None] - val[None, :]
            a = 1j * (omega[:, None, None] + delta)
            small = np.abs(a) < 1e-9
            integral = np.where(small, dt, np.expm1(np.where(
                small, 1, a) * dt) / np.where(small, 1, a))
            part = vec @ (bb * integral) @ vec.conj().T
            part = prop.conj().T @ part @ prop
            tot += coeff[k][g] * np.exp(1j * omega * t)[:, None, None] * part
            prop = vec @ np.diag(np.exp(-1j * val * dt)) @ vec.conj().T @ prop
            t += dt
        f = np.sum(np.abs(tot) ** 2, axis=(1, 2)) \
            - np.abs(np.trace(tot, axis1=1, axis2=2)) ** 2 / d
        y = sp[k] * f
        out.append(np.sum((y[1:] + y[:-1]) / 2 * np.diff(omega))
                   / (2 * np.pi * d))
    return np.array(out)


def pulses(case, ctx, n=3):
    rng = s.rng_for(ctx.seed, 'c24p', case['n'])
    out = [rng.standard_normal((case['num_t'], case['n'])) * .8
           for _ in range(n)]
    # the second pulse consists of the numbers of the first one
    out[1] = out[0][::-1, ::-1].copy()
    return out


def jac(value, y):
    return m.central(value, y, 1e-5).transpose(0, 2, 1)


def run(case, ctx):
    globals()['_' + case['kind']](case, ctx)


def _value(case, ctx):
    from qopt.simulator import Simulator
    solver, fn, value, gradient, info = build(case, ctx)
    sim = Simulator(solvers=[solver], cost_funcs=[fn])
    for k, y in enumerate(pulses(case, ctx)):
        ctx.state(k)
        ctx.step()
        ctx.close(sim.wrapped_cost_functions(y), value(y),
                  'filter function infidelity', tol=1e-8, rtol=1)
        if gradient:
            ctx.close(sim.wrapped_jac_function(y), jac(value, y),
                      'gradient of the filter function infidelity',
                      tol=1e-5, rtol=1)
        if case.get('basis'):
            ctx.check(solver.pulse_sequence.basis.btype ==
                      dict(pauli='Pauli', ggm='GGM')[case['basis']],
                      'basis of the user', solver.pulse_sequence.basis.btype)
        ctx.trace()
        names = solver.filter_function_n_oper_identifiers
        ctx.check(len(names) == len(set(names)) == count(case, ctx, y),
                  'noise identifiers', names)


def _bloch(case, ctx):
    """Points of the trajectory drawn from the pulse sequence."""
    import matplotlib.pyplot as plt
    solver, fn, value, gradient, info = build(case, ctx)
    ctx.raises(lambda: solver.create_pulse_sequence(),
               'no sequence without a pulse', ValueError)
    ctx.raises(lambda: solver.plot_bloch_sphere(), 'no plot without a pulse',
               ValueError)
    for k, y in enumerate(pulses(case, ctx)):
        # with the current pulse or with a new one
        if k % 2:
            solver.set_optimization_parameters(y)
            b = solver.plot_bloch_sphere(return_Bloch=True)
        else:
            b = solver.plot_bloch_sphere(new_amps=y.copy(), return_Bloch=True)
        want = m.forward(m.propagators(info['drifts'], info['ctrls'],
                                       amplitude(case, y), info['tau_x']),
                         np.eye(2))
        segments = max((np.asarray(getattr(c, '_segments3d', ()), dtype=float)
                        for c in b.axes.collections), key=len)
        if not ctx.check(len(segments) > 100, 'a trajectory is drawn'):
            return
        got = np.concatenate([segments[:, 0], segments[-1:, 1]]).T
        # the axes of the sphere are those of qutip
        got = np.array([-got[1], got[0], got[2]])
        total = np.sum(info['tau_x'])
        times = np.linspace(0, total, got.shape[1])
        edges = np.concatenate([[0], np.cumsum(info['tau_x'])])
        for i in range(0, len(times), 11):
            g = min(int(np.searchsorted(edges, times[i], 'right')) - 1,
                    len(edges) - 2)
            h = m.step_hamiltonian(info['drifts'][g], info['ctrls'],
                                   amplitude(case, y)[g])
            u = m.expm(-1j * h * (times[i] - edges[g])) @ want[g]
            psi = u[:, :1]
            ctx.close(got[:, i], [(psi.conj().T @ a @ psi)[0, 0].real
                                  for a in (m.SX, m.SY, m.SZ)],
                      'trajectory on the sphere', tol=1e-8, rtol=1)
        if case['form'].startswith('lind'):
            ctx.check(len(solver.propagators) == len(y) and
                      solver.propagators[0].shape == (4, 4),
                      'propagators of the plotted pulse')
        else:
            ctx.close(solver.propagators, m.propagators(
                info['drifts'], info['ctrls'], amplitude(case, y),
                info['tau_x']), 'propagators of the plotted pulse')
        ctx.check(solver.plot_bloch_sphere() is None, 'nothing is returned')
        plt.close('all')
        ctx.state(k)
        ctx.step()
        ctx.trace()


def _malformed(case, ctx):
    """Noise Hamiltonians which are not nested lists of three entries."""
    y = pulses(case, ctx)[0]
    good = [m.SX, np.ones(2), 'A']
    for where in range(3):
        for bad in ([m.SX, np.ones(2)], [m.SX], [], good + ['B'],
                    [m.SX, np.ones(2), 3], [m.SX, np.ones(2), None]):
            for called in (False, True):
                terms = [[m.SZ, np.ones(2), 'B'], [m.SY, np.ones(2), 'C']]
                terms.insert(where, bad)
                def ready(terms):
                    solver = build(case, ctx, terms=(lambda y, x, u: terms)
                                   if called else terms)[0]
                    solver.set_optimization_parameters(y)
                    return solver

                ctx.raises(lambda: ready(terms).create_pulse_sequence(),
                           'malformed noise Hamiltonian refused', ValueError)
                terms[where] = good
                solver = ready(terms)
                seq = solver.create_pulse_sequence()
                ctx.check(sorted(seq.n_oper_identifiers) == ['A', 'B', 'C'],
                          'identifiers', seq.n_oper_identifiers)
                ctx.check(solver.filter_function_n_oper_identifiers ==
                          [t[2] for t in terms], 'order of the noise terms')
                ctx.state((where, str(bad), called))
                ctx.step()
                ctx.trace()


def _history(case, ctx):
    from filter_functions.basis import Basis
    ps = pulses(case, ctx)
    for rest in itertools.product(OPS, repeat=case['depth'] - 2):
        word = tuple(case['word']) + rest
        solver, fn, value, gradient, info = build(case, ctx)
        current = None
        name = ' after %s' % (word,)
        for o in word + ('cost', 'grad'):
            ctx.step()
            if o in ('p0', 'p1'):
                current = ps[int(o[1])]
                solver.set_optimization_parameters(current)
            elif o == 'cost':
                ctx.close(fn.costs(), value(current), 'infidelity' + name,
                          tol=1e-8, rtol=1)
            elif o == 'grad':
                got = fn.grad()
                if case.get('amp'):
                    got = got * (1 + .4 * current)[:, None, :]
                ctx.close(got, jac(value, current), 'gradient' + name,
                          tol=1e-5, rtol=1)
            elif o.startswith('create') or o.startswith('pauli'):
                new = None
                if o[-1] in '01':
                    new = current = ps[int(o[-1])]
                # the caller may reuse its array
                given = None if new is None else new.copy()
                if o.startswith('create'):
                    seq = solver.create_pulse_sequence(given)
                else:
                    seq = solver.create_pulse_sequence(
                        given, ff_basis=Basis.pauli(1))
                if given is not None:
                    given[:] = 77.
                ctx.check(seq.basis.btype == ('Pauli' if o[0] == 'p'
                                              else 'GGM'),
                          'requested basis' + name, seq.basis.btype)
                got = solver.filter_function_n_oper_identifiers
                ctx.check(len(got) == len(set(got)) == len(seq.n_opers)
                          == count(case, ctx, current),
                          'noise identifiers' + name, got)
                _sequence(case, ctx, seq, solver, current, info, name)
                ctx.check(seq is solver.pulse_sequence, 'sequence is kept')
            elif o == 'prop':
                want = m.propagators(info['drifts'], info['ctrls'],
                                     amplitude(case, current), info['tau_x'])
                ctx.close(solver.propagators, want, 'propagators' + name)
        ctx.state(word)
        ctx.trace()


def _sequence(case, ctx, seq, solver, current, info, name):
    """The sequence handed to the filter function package."""
    order = [int(np.argmin([np.linalg.norm(np.array(x) - c)
                            for c in info['ctrls']])) for x in seq.c_opers]
    ctx.check(sorted(order) == list(range(len(info['ctrls']))),
              'all control operators' + name)
    current = amplitude(case, current)
    ctx.close(seq.c_coeffs, current.T[order], 'control coefficients' + name)
    ctx.close(seq.c_opers, np.array(info['ctrls'])[order],
              'control operators' + name)
    ctx.close(seq.dt, info['tau_x'], 'durations' + name)
    want = m.propagators(info['drifts'], info['ctrls'], current,
                         info['tau_x'])
    ctx.close(seq.total_propagator, m.forward(want, np.eye(2))[-1],
              'total propagator' + name)
    ctx.close(seq.propagators, m.forward(want, np.eye(2)),
              'propagators of the sequence' + name)


def _omega(case, ctx):
    """Frequencies chosen by the library follow the durations."""
    from filter_functions.util import get_sample_frequencies
    solver, fn, value, _, info = build(case, ctx, omega=None)
    ps = pulses(case, ctx)
    # the cost function may be the first to ask for the pulse sequence
    solver.set_optimization_parameters(ps[0])
    solver.pulse_sequence = None
    got = fn.costs()
    om = get_sample_frequencies(pulse=solver.pulse_sequence, n_samples=200,
                                spacing='log')
    ctx.close(got, value(ps[0], omega_=om), 'infidelity with frequencies of '
              'the pulse', tol=1e-8, rtol=1)
    for scale in (1., 3., .2, 1.):
        tau = info['tau'] * scale
        solver.set_times(tau)
        for y in ps[:2]:
            solver.set_optimization_parameters(y)
            got = fn.costs()
            om = get_sample_frequencies(pulse=solver.pulse_sequence,
                                        n_samples=200, spacing='log')
            ctx.close(got, value(y, tau_=tau, omega_=om),
                      'infidelity with frequencies of the pulse', tol=1e-8,
                      rtol=1)
            ctx.close(fn.omega, om, 'frequencies of the pulse', tol=1e-8,
                      rtol=1)
            ctx.state((scale, y))
            ctx.step()
            ctx.trace()
