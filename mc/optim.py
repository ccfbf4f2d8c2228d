"""Small optimisation problems, a controlled numerical optimiser, a controlled
clock."""
import contextlib
import time

import numpy as np
import scipy.optimize

from mc import models as m
from mc import systems as s


class Problem:
    """One or two cost functions of one or two controls, real objects plus the
    independent value of the costs."""

    def __init__(self, seed, num_t=2, n_ctrl=2, n_costs=2, vector=False,
                 numeric=False, stats=True):
        from qopt import cost_functions as cf
        from qopt import simulator as sim
        from qopt import solver_algorithms as sa
        self.num_t, self.n_ctrl = num_t, n_ctrl
        rng = s.rng_for(seed, 'problem', num_t, n_ctrl, n_costs)
        sysm = s.System(seed, 2, n_ctrl, num_t)
        self.sysm = sysm
        self.tau = s.taus(num_t)
        self.log = []
        log = self.log

        class Logged(sa.SchroedingerSolver):
            def set_optimization_parameters(self, y):
                log.append(np.array(y))
                super().set_optimization_parameters(y)

        self.solver = Logged(h_drift=sysm.h_drift(), h_ctrl=sysm.h_ctrl(),
                             tau=self.tau)
        self.targets = [m.unitary(rng, 2) for _ in range(n_costs)]
        costs = [cf.OperationInfidelity(solver=self.solver,
                                        target=s.op(u), label=['cost %d' % i])
                 for i, u in enumerate(self.targets)]
        self.vector = None
        if vector:
            mat = rng.random((3, num_t, n_ctrl))
            self.vector = mat
            sign = self.sign = np.array([1., -1., 1.])

            class Linear(cf.CostFunction):
                def __init__(self, solver):
                    super().__init__(solver=solver,
                                     label=['lin 0', 'lin 1', 'lin 2'])

                def costs(self):
                    return sign * np.einsum('kti,ti->k', mat, log[-1]) ** 2

                def grad(self):
                    v = np.einsum('kti,ti->k', mat, log[-1])
                    return 2 * np.einsum('k,kti->tki', sign * v, mat)
            costs.append(Linear(self.solver))
        self.simulator = sim.Simulator(
            solvers=[self.solver], cost_funcs=costs,
            record_performance_statistics=stats, numeric_jacobian=numeric)
        self.labels = ['cost %d' % i for i in range(n_costs)] + (
            ['lin 0', 'lin 1', 'lin 2'] if vector else [])
        self.n = len(self.labels)
        self.size = num_t * n_ctrl

    def costs(self, pulse):
        pulse = np.asarray(pulse, dtype=float)
        p = m.forward(m.propagators(self.sysm.drifts, self.sysm.ctrls, pulse,
                                    self.tau), np.eye(2))[-1]
        out = [1 - m.entanglement_fidelity(u, p) for u in self.targets]
        if self.vector is not None:
            out += list(self.sign * np.einsum('kti,ti->k', self.vector,
                                              pulse) ** 2)
        return np.array(out)

    def jac(self, pulse):
        """[time, cost, control] as in the simulator."""
        return m.central(self.costs, pulse, 1e-5).transpose(0, 2, 1)

    def pulse(self, seed, k):
        rng = s.rng_for(seed, 'initial', k, self.num_t, self.n_ctrl)
        return rng.standard_normal((self.num_t, self.n_ctrl)) * .7

    def flat(self, pulse):
        """Order of the parameters in the vector of the optimiser is free; it
        is read off from the initial point."""
        return np.asarray(pulse).T.flatten()


class ControlledScipy:
    """Stands in for scipy.optimize.minimize / least_squares: asks for costs
    ('f') and derivatives ('j') in the order of a script.

    script: sequence of ('f'|'j', point index); points are the initial
    parameters plus fixed displacements."""

    def __init__(self, script, offsets, status=0):
        self.script = script
        self.offsets = offsets
        self.status = status
        self.calls = []
        self.kwargs = []

    def _drive(self, fun, jac, x0, kind, kw):
        self.kwargs.append((kind, kw, np.array(x0)))
        x0 = np.array(x0, dtype=float)
        f = g = None
        n = 0
        for what, i in self.script:
            x = x0 + self.offsets[i]
            keep = x.copy()
            if what == 'f':
                self.calls.append(('f', i, None))
                f = fun(x)
                n += 1
                self.calls[-1] = ('f', i, np.array(f))
                self.last = (keep, np.array(f))
            elif callable(jac):
                self.calls.append(('j', i, None))
                g = jac(x)
                self.calls[-1] = ('j', i, np.array(g))
            assert np.array_equal(x, keep), 'the vector was altered'
        x, f = self.last
        return scipy.optimize.OptimizeResult(
            x=x.copy(), fun=f, jac=np.zeros(x0.size) if g is None
            else np.array(g), grad=np.zeros(x0.size), nfev=n, njev=0, nit=n,
            message='scripted', status=self.status, success=True,
            cost=.5 * np.sum(np.atleast_1d(f) ** 2), optimality=0.)

    def minimize(self, fun, x0, args=(), method=None, jac=None, **kw):
        return self._drive(fun, jac, x0, 'minimize', dict(kw, method=method))

    def least_squares(self, fun, x0, jac='2-point', **kw):
        return self._drive(fun, jac, x0, 'least_squares', kw)

    @contextlib.contextmanager
    def installed(self):
        import qopt.optimize as qo
        real = dict(minimize=scipy.optimize.minimize,
                    least_squares=scipy.optimize.least_squares)
        places = []
        for name, func in real.items():
            places.append((scipy.optimize, name, func))
            for key, val in list(vars(qo).items()):
                if val is func:
                    places.append((qo, key, func))
        try:
            for mod, key, func in places:
                name = 'minimize' if func is real['minimize'] \
                    else 'least_squares'
                setattr(mod, key, getattr(self, name))
            yield self
        finally:
            for mod, key, func in places:
                setattr(mod, key, func)


class Clock:
    """Replaces time.time: constant until `jump()` is called."""

    def __init__(self, start=1000.):
        self.now = start
        self.reads = 0

    def __call__(self):
        self.reads += 1
        return self.now

    @contextlib.contextmanager
    def installed(self):
        import qopt.optimize as qo
        import qopt.simulator as qs
        real = {f: getattr(time, f) for f in
                ('time', 'monotonic', 'perf_counter')}
        places = [(time, f, v) for f, v in real.items()]
        for mod in (qo, qs):
            for key, val in list(vars(mod).items()):
                if any(val is v for v in real.values()):
                    places.append((mod, key, val))
        try:
            for mod, key, _ in places:
                setattr(mod, key, self)
            yield self
        finally:
            for mod, key, val in places:
                setattr(mod, key, val)
