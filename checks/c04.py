"""Open system evolution: all control words for every way of specifying the
dissipation, against an explicitly constructed Lindblad model."""
import numpy as np

from mc import models as m
from mc import systems as s

PROPERTY = 'C04'
LEVEL = 'model_checking'
RULE = ('all control words up to the depth for every combination of '
        'dimension, number of controls, number of dissipators, way of '
        'specifying them (5 + precedence), exponential method, initial '
        'state, amplitude function, oversampling and unit system')
ASSUMPTIONS = ['complete positivity for non-negative rates only']

SPECS = ('lindblad', 'superops', 'lindblad-pf', 'superops-pf', 'function',
         'function-over-all', 'lindblad-over-superops', 'zero',
         'lindblad-pf-signed', 'superops-pf-signed')


def cases(tier, seed):
    out = []
    for dim in (2, 3) if tier == 'quick' else (2, 3, 4):
        for n_ctrl in (1, 2, 3):
            for n_l in (1, 2, 3, 4):
                for spec in SPECS:
                    if n_l == 4 and '-pf' not in spec:
                        continue
                    for method in (None, 'Frechet', 'spectral', 'approx'):
                        for init in ('default', 'rho'):
                            if tier == 'quick' and dim == 3 and \
                                    init == 'rho' and n_l == 3:
                                continue
                            out.append(dict(dim=dim, n_ctrl=n_ctrl, n_l=n_l,
                                            spec=spec, method=method,
                                            init=init,
                                            depth=3 if tier != 'quick' or
                                            dim == 2 and n_l < 3 else 2))
    for spec in SPECS:
        out.append(dict(dim=2, n_ctrl=6, n_l=6, spec=spec, method=None,
                        init='default', depth=2))
        out.append(dict(dim=2, n_ctrl=1, n_l=12, spec=spec, method=None,
                        init='default', depth=2))
    return out


def prefactors(c, x, n_l, signed=False):
    """Rates from control amplitudes and transferred parameters.  The signed
    ones vanish for some operators and time steps, and change their sign."""
    if signed:
        step = np.arange(len(c))
        cols = [c[:, 0], np.where(step % 2, .4, 0.), -.3 * x[:, -1],
                .2 + .1 * step, .1 * (step == 0), c[:, -1]]
    else:
        cols = [.2 + c[:, 0] ** 2, .1 + .5 * x[:, -1] ** 2, .3 + 0 * c[:, 0],
                .1 + 0 * c[:, 0], .2 + 0 * x[:, 0], .1 * c[:, -1] ** 2]
    cols += [.02 * k + .1 * c[:, 0] ** 2 for k in range(6, n_l)]
    return np.stack(cols[:n_l], axis=1)


class Spec:
    def __init__(self, case, seed):
        self.case = case
        self.signed = case['spec'].endswith('signed')
        dim, n_l = case['dim'], case['n_l']
        rng = s.rng_for(seed, 'c04', dim, n_l)
        self.lind = [.5 * m.general(rng, dim) for _ in range(n_l)]
        # a non diagonalisable generator part: pure decay
        decay = np.zeros((dim, dim), dtype=complex)
        decay[0, 1] = 1.
        self.lind[0] = decay
        if case['spec'] == 'zero':
            self.lind = [0 * x for x in self.lind]
        self.other = [.3 * m.general(rng, dim)]

    def dissipators(self, c, x):
        """Total dissipation super operator for every slot."""
        d = [m.dissipator(x) for x in self.lind]
        spec = self.case['spec']
        if '-pf' in spec or spec.startswith('function'):
            w = prefactors(c, x, len(d), self.signed)
        else:
            w = np.ones((len(c), len(d)))
        return [sum(w[t, i] * d[i] for i in range(len(d)))
                for t in range(len(c))]

    def kwargs(self):
        spec = self.case['spec']
        n_l = len(self.lind)
        kw = {}
        sup = [s.op(m.dissipator(x)) for x in self.lind]
        if spec in ('lindblad', 'zero', 'lindblad-pf',
                    'lindblad-over-superops', 'lindblad-pf-signed'):
            kw['lindblad_operators'] = s.ops(self.lind)
        if spec in ('superops', 'superops-pf', 'superops-pf-signed'):
            kw['initial_diss_super_op'] = sup
        if spec == 'lindblad-over-superops':
            kw['initial_diss_super_op'] = [
                s.op(m.dissipator(x)) for x in self.other]
        if '-pf' in spec:
            kw['prefactor_function'] = lambda c, x: prefactors(
                c, x, n_l, self.signed)
        if spec.startswith('function'):
            kw['super_operator_function'] = lambda c, x: [
                s.op(a) for a in self.dissipators(c, x)]
        if spec == 'function-over-all':
            kw['lindblad_operators'] = s.ops(self.other)
            kw['initial_diss_super_op'] = [
                s.op(m.dissipator(x)) for x in self.other]
        return kw


def run(case, ctx):
    from qopt import amplitude_functions as af
    from qopt import solver_algorithms as sa
    from qopt import transfer_function as tf
    dim, n_ctrl = case['dim'], case['n_ctrl']
    spec = Spec(case, ctx.seed)
    rng = s.rng_for(ctx.seed, 'c04 init', dim)
    letters = s.alphabet(n_ctrl, ctx.seed, 3)
    init = np.eye(dim ** 2)
    if case['init'] == 'rho':
        a = m.general(rng, dim)
        rho = a @ a.conj().T
        init = m.vec(rho / np.trace(rho))
    depths = list(range(1, case['depth'] + 1))
    if dim == 2 and n_ctrl != 2 and case['n_l'] > 1:
        depths.append(s.LONG)
    for depth in depths:
        for over in (1, 2) if depth == 2 else (1,):
            drift = ('steps', 'single', 'operator', 'none')[
                (depth + over + n_ctrl) % 4]
            system = s.System(ctx.seed, dim, n_ctrl, depth * over, drift)
            tau = s.taus(depth)
            kw = spec.kwargs()
            inputs = kw.get('lindblad_operators', []) + \
                kw.get('initial_diss_super_op', [])
            before = [np.array(o.data) for o in inputs]
            h_ctrl, h_drift = system.h_ctrl(), system.h_drift()
            nonlinear = depth != 1
            solver = sa.LindbladSolver(
                h_drift=h_drift, h_ctrl=h_ctrl, tau=tau,
                initial_state=None if case['init'] == 'default'
                else s.op(init),
                exponential_method=case['method'],
                transfer_function=tf.OversamplingTF(
                    num_ctrls=n_ctrl, oversampling=over),
                amplitude_function=af.UnaryAnalyticAmpFunc(
                    lambda x: x + .3 * x ** 2, lambda x: 1 + .6 * x)
                if nonlinear else None, **kw)
            xtau = np.repeat(tau, over) / over
            for word in s.words(letters, depth) if depth < s.LONG \
                    else s.long_words(3):
                y = np.array([letters[i] for i in word])
                x = np.repeat(y, over, axis=0)
                u = x + .3 * x ** 2 if nonlinear else x
                solver.set_optimization_parameters(y)
                gens = [m.liouvillian(m.step_hamiltonian(
                    system.drifts[t], system.ctrls, u[t])) + d
                    for t, d in enumerate(spec.dissipators(u, x))]
                props = [m.expm(g * dt) for g, dt in zip(gens, xtau)]
                fwd = m.forward(props, init)
                ctx.close(solver.propagators, props, 'super propagators',
                          tol=1e-8)
                ctx.close(solver.forward_propagators, fwd,
                          'forward propagation', tol=1e-8)
                ctx.close(solver.reversed_propagators, m.backward(props),
                          'reversed propagation', tol=1e-8)
                for p in solver.propagators:
                    channel(ctx, p.data, dim, not spec.signed)
                if case['init'] == 'rho':
                    for f in solver.forward_propagators:
                        r = m.unvec(f.data)
                        ctx.close(np.trace(r), 1., 'trace of the state',
                                  tol=1e-8)
                        ctx.check(spec.signed or np.linalg.eigvalsh(
                            (r + r.conj().T) / 2).min() > -1e-8,
                            'positivity of the state')
                for t in range(len(xtau)):
                    ctx.state((depth, over, word[:t // over + 1]))
                    ctx.step()
                ctx.trace()
            if depth == 1 and over == 1:
                _units(ctx, case, spec, letters, init)
            for o, b in zip(inputs, before):
                ctx.close(o.data, b, 'given dissipation operators unchanged',
                          tol=0.)


def _units(ctx, case, spec, letters, init):
    """The same physics in other units: rates, times, and amplitudes of any
    magnitude."""
    from qopt import solver_algorithms as sa
    dim, n_ctrl = case['dim'], case['n_ctrl']
    words = [(1,), (0,), (1, 2, 1), (0, 1, 2), (2, 2, 1), (0, 1, 0)]
    for amp, ctrl, time in s.UNITS:
        kw = dict(spec.kwargs())
        for key in ('lindblad_operators', 'initial_diss_super_op'):
            if key in kw:
                f = time ** -.5 if key[0] == 'l' else 1. / time
                if 'prefactor_function' in kw:
                    f = 1.
                kw[key] = [s.op(f * o.data) for o in kw[key]]
        if 'prefactor_function' in kw:
            pf = kw['prefactor_function']
            kw['prefactor_function'] = lambda c, x: pf(c / amp,
                                                       x / amp) / time
        if 'super_operator_function' in kw:
            sf = kw['super_operator_function']
            kw['super_operator_function'] = lambda c, x: [
                s.op(o.data / time) for o in sf(c / amp, x / amp)]
        for word in words:
            depth = len(word)
            system = s.System(ctx.seed, dim, n_ctrl, depth, 'steps')
            u = np.array([letters[i] for i in word])
            tau = s.taus(depth)
            props = [m.expm((m.liouvillian(m.step_hamiltonian(
                system.drifts[t], system.ctrls, u[t])) + d) * tau[t])
                for t, d in enumerate(spec.dissipators(u, u))]
            system.in_units((amp, ctrl, time))
            solver = sa.LindbladSolver(
                h_drift=system.h_drift(), h_ctrl=system.h_ctrl(),
                tau=tau * time, exponential_method=case['method'],
                initial_state=None if case['init'] == 'default'
                else s.op(init), **kw)
            solver.set_optimization_parameters(u * amp)
            ctx.close(solver.propagators, props, 'super propagators in '
                      'other units', tol=1e-7)
            ctx.close(solver.forward_propagators, m.forward(props, init),
                      'forward propagation in other units', tol=1e-7)
            ctx.state((amp, time, word))
            ctx.step(depth)
            ctx.trace()


def channel(ctx, sup, dim, positive):
    """Trace preserving and, if positive, completely positive."""
    one = m.vec(np.eye(dim))
    ctx.close(one.conj().T @ sup, one.conj().T, 'trace preservation',
              tol=1e-8)
    choi = np.zeros((dim ** 2, dim ** 2), dtype=complex)
    for i in range(dim):
        for j in range(dim):
            e = np.zeros((dim, dim), dtype=complex)
            e[i, j] = 1
            choi += np.kron(e, m.unvec(sup @ m.vec(e)))
    ctx.close(choi, choi.conj().T, 'hermiticity preservation', tol=1e-8)
    ctx.check(not positive or np.linalg.eigvalsh(choi).min() > -1e-8,
              'complete positivity')
