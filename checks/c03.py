"""Abort safety: an interrupt at every executed line of the package.

For every solver kind, prior cache state and operation, the operation is run
once per line it executes; at that line an asynchronous interrupt is raised.
Afterwards the operation is repeated and every readable quantity must have the
value of a solver that was never interrupted."""
import itertools

import numpy as np

from checks import c02
from mc import faults
from mc import systems as s

PROPERTY = 'C03'
LEVEL = 'fault_enumeration'
RULE = ('for every solver kind x cache state before x operation x recovery: '
        'one execution per line of the package executed by the operation, '
        'with an interrupt raised at that line; plus user supplied functions '
        'failing at each of their calls; non-trivial: expected value nonzero')
ASSUMPTIONS = ['interrupts arrive between lines of the package (not inside '
               'C code)']

PRIOR = {'pulse': (), 'props': ('props',), 'all': ('props', 'fwd', 'rev',
                                                   'deriv')}
NOISE_PRIOR = {'pulse': (), 'props': ('nprops',),
               'all': ('props', 'fwd', 'rev', 'deriv', 'nprops', 'nfwd',
                       'nrev', 'nderiv')}
OPERATIONS = ('set', 'times', 'props', 'fwd', 'rev', 'deriv',
              'nprops', 'nfwd', 'nrev', 'nderiv')
CALLBACK_KINDS = ('amplitude', 'transfer', 'noise', 'noise-amplitude',
                  'prefactor', 'superop')


def cases(tier, seed):
    out = []
    for kind in c02.KINDS:
        if tier == 'quick' and kind in ('spectral', 'oversampling',
                                        'montecarlo-grape'):
            continue
        for prior in PRIOR:
            for o in OPERATIONS:
                if prior == 'all' and o not in ('set', 'times'):
                    continue
                if prior == 'props' and o == 'props':
                    continue
                if o[0] == 'n' and not c02.noisy(kind):
                    continue
                out.append(dict(kind=kind, prior=prior, op=o))
    for cb in CALLBACK_KINDS:
        out.append(dict(callback=cb))
    return out


def run(case, ctx):
    if 'callback' in case:
        return run_callback(case, ctx)
    model = c02.Model(case['kind'], ctx.seed)
    quiet = _Quiet(ctx)

    def prepare():
        h = c02.History(model, quiet)
        h.apply('A')
        for o in (NOISE_PRIOR if c02.noisy(case['kind'])
                  else PRIOR)[case['prior']]:
            h.apply(o)
        return h

    def operation(h):
        so = h.solver
        o = case['op']
        if o == 'set':
            so.set_optimization_parameters(np.array(c02.PULSES['B']))
        elif o == 'times':
            so.set_times(np.array(c02.TAUS[1]))
        else:
            getattr(so, c02.READ[o])

    n = faults.count_lines(lambda h=prepare(): operation(h))
    ctx.check(n > 0, 'the operation executes code')
    ctx.note('fault points', n)
    stride = 1
    for k in range(0, n, stride):
        for recovery in ('repeat', 'reset'):
            if recovery == 'reset' and ctx.tier == 'quick' and \
                    case['op'] not in ('set', 'times') and \
                    case['prior'] != 'pulse':
                continue
            h = prepare()
            h.held = []
            fault = faults.LineFault(k)
            done = fault.run(lambda: operation(h))
            ctx.step()
            ctx.state((k, recovery))
            if done:
                continue
            ctx.notes['interrupts'] = ctx.notes.get('interrupts', 0) + 1
            if case['op'] == 'times' and recovery == 'repeat':
                h.apply('T2')
                h.apply('A')
            elif case['op'] == 'times':
                # give up on the new times, go back to the old ones
                h.apply('T1')
                h.apply('B')
            elif case['op'] == 'set' and recovery == 'repeat':
                h.apply('B')
            elif case['op'] == 'set':
                # return to the pulse before
                h.apply('A')
            elif recovery == 'repeat':
                pass
            else:
                h.apply('B')
            h.ctx = _At(ctx, fault.where)
            ends = c02.orders(case['kind'])
            h.finish(ends[k % len(ends)])


class _At:
    """Context that adds the fault point to the message."""

    def __init__(self, ctx, where):
        self.ctx, self.where = ctx, where

    def close(self, got, want, what, *a, **kw):
        before = len(self.ctx.violations)
        try:
            return self.ctx.close(got, want, what, *a, **kw)
        finally:
            for v in self.ctx.violations[before:]:
                v['what'] += ' after an interrupt'
                v['detail'] += '\n interrupted at %s' % self.where

    def trace(self):
        self.ctx.trace()


class _Quiet:
    """Context for the preparation: counts nothing, still judges."""

    def __init__(self, ctx):
        self.ctx = ctx

    def close(self, *a, **kw):
        return self.ctx.close(*a, **kw)

    def step(self, n=1):
        pass

    trace = step

    def state(self, key):
        pass


class Failing:
    """A user function that fails at its k-th call."""

    def __init__(self, func):
        self.func = func
        self.calls = 0
        self.fail_at = None

    def __call__(self, *a, **kw):
        n = self.calls
        self.calls += 1
        if n == self.fail_at:
            raise RuntimeError('user function failed')
        return self.func(*a, **kw)


def _callback_solver(kind, model):
    from qopt import amplitude_functions as af
    from qopt import solver_algorithms as sa
    from qopt import transfer_function as tf
    sy = model.sys
    kw = dict(h_drift=sy.h_drift(), h_ctrl=sy.h_ctrl(), tau=c02.TAUS[0])
    if kind == 'amplitude':
        f = Failing(lambda x: x)
        return f, sa.SchroedingerSolver(
            amplitude_function=af.CustomAmpFunc(f, lambda x: None), **kw)
    if kind == 'transfer':
        f = Failing(lambda y: y)

        class UserTF(tf.TransferFunction):
            def __call__(self, y):
                return f(y)

            def gradient_chain_rule(self, deriv_by_transferred_par):
                return deriv_by_transferred_par
        return f, sa.SchroedingerSolver(
            transfer_function=UserTF(num_ctrls=2), **kw)
    if kind in ('noise', 'noise-amplitude'):
        f = Failing(lambda: np.array(model.samples))

        if kind == 'noise-amplitude':
            g = Failing(lambda noise_samples, **_: noise_samples)
        else:
            g = None
        return (g or f), sa.SchroedingerSMonteCarlo(
            h_noise=[s.op(model.noise)], noise_amplitude_function=g,
            noise_trace_generator=s.user_noise(
                f if kind == 'noise' else lambda: np.array(model.samples),
                n_samples_per_trace=2, always_redraw_samples=True,
                n_traces=2, n_noise_operators=1), **kw)
    if kind == 'prefactor':
        f = Failing(lambda c, x: c02.prefactor(c))
        return f, sa.LindbladSolver(
            lindblad_operators=s.ops(model.lind), prefactor_function=f,
            prefactor_derivative_function=lambda c, x:
            c02.prefactor_deriv(c), **kw)
    if kind == 'superop':
        f = Failing(lambda c, x: [s.op(a) for a in model.superop(c)])
        return f, sa.LindbladSolver(
            super_operator_function=f,
            super_operator_derivative_function=lambda c, x: [
                [s.op(b) for b in a] for a in model.superop_deriv(c)], **kw)
    raise ValueError(kind)


REFERENCE_KIND = {'amplitude': 'schroedinger', 'transfer': 'schroedinger',
                  'noise': 'montecarlo', 'noise-amplitude': 'montecarlo',
                  'prefactor': 'lindblad-prefactor',
                  'superop': 'lindblad-superop'}


def run_callback(case, ctx):
    """The k-th call of a user function fails, in every history of sets and
    reads; the failed operation is repeated."""
    kind = case['callback']
    model = c02.Model(REFERENCE_KIND[kind], ctx.seed)
    alphabet = ('A', 'B', 'props', 'fwd', 'rev', 'deriv')
    depth = 3
    for seq in itertools.product(alphabet, repeat=depth):
        if seq[0] not in ('A', 'B'):
            continue
        k = 0
        while True:
            f, solver = _callback_solver(kind, model)
            f.fail_at = k
            fired = False
            pulse = None
            for o in seq:
                for attempt in (0, 1):
                    try:
                        if o in ('A', 'B'):
                            solver.set_optimization_parameters(
                                np.array(c02.PULSES[o]))
                            pulse = o
                        else:
                            want = model.values((pulse, 0))
                            for key in (o, 'n' + o):
                                if key in want:
                                    ctx.close(getattr(solver, c02.READ[key]),
                                              want[key], c02.READ[key]
                                              + ' after a failed call')
                        break
                    except RuntimeError as e:
                        if 'user function failed' not in str(e) or attempt:
                            raise
                        fired = True
                ctx.step()
            ctx.state((seq, k))
            f.fail_at = None
            want = model.values((pulse, 0))
            for o in ('props', 'fwd', 'rev', 'deriv'):
                for key in (o, 'n' + o):
                    if key in want:
                        ctx.close(getattr(solver, c02.READ[key]), want[key],
                                  c02.READ[key] + ' after a failed call')
            ctx.trace()
            if not fired:
                break
            k += 1
