"""Histories of data containers."""
import copy
import itertools
import os
import pickle

import numpy as np

PROPERTY = 'C19'
LEVEL = 'model_checking'
RULE = ('all sequences up to a depth of append (three kinds of results), '
        'refused append, deep copy, pickling to a file and back, dictionary '
        'round trip, with every intermediate container kept alive; state = '
        'content of all containers')
ASSUMPTIONS = ['results with array or scalar costs, with and without record']
OPS = ('append', 'append-empty', 'append-none', 'refuse', 'copy', 'pickle',
       'pickle-default', 'pickle-obj', 'other', 'pickle-path', 'again')
FIELDS = ('final_costs', 'init_parameters', 'final_parameters', 'costs',
          'parameters', 'status', 'optimization_statistics')


def cases(tier, seed):
    depth = 5 if tier == 'thorough' else 4
    return [dict(first=a, second=b, depth=depth)
            for a in OPS for b in OPS] + [
        dict(first=a, second=b, many=n) for a in OPS[:3] for b in OPS
        for n in (12, 40)]


class Stats:
    def __init__(self, k):
        self.k = k
        self.start_t_opt = k

    def __eq__(self, other):
        return isinstance(other, Stats) and other.k == self.k


def result(kind, k):
    from qopt import optimization_data as od
    from qopt.performance_statistics import PerformanceStatistics
    stats = PerformanceStatistics()
    stats.start_t_opt, stats.end_t_opt = 10. * k, 10. * k + 3
    if k % 3 == 1:
        # recorded without statistics
        stats = None
    if kind == 'append-none':
        return od.OptimizationResult(
            final_cost=.5 * k, indices=['a', 'b'], status=k,
            init_parameters=np.full((2, 1), k), optimization_stats=stats)
    summary = od.OptimizationSummary(indices=['a', 'b'])
    if kind == 'append':
        for j in range(k % 3 + 1):
            summary.costs.append(np.array([j, k]) + .1)
            summary.parameters.append(np.full((2, 1), j - k))
    return od.OptimizationResult(
        final_cost=np.array([k, .3]), indices=['a', 'b'],
        final_parameters=np.full((2, 1), 7. * k), status=k % 6,
        init_parameters=np.full((2, 1), -1. * k),
        optim_summary=summary, optimization_stats=stats)


def model_append(model, kind, k):
    r = result(kind, k)
    model['indices'] = ['a', 'b']
    model['final_costs'].append(r.final_cost)
    model['init_parameters'].append(r.init_parameters)
    model['final_parameters'].append(r.final_parameters)
    s = r.optim_summary
    model['costs'].append(list(s.costs) if s else [])
    model['parameters'].append(list(s.parameters) if s else [])
    model['status'].append(r.status)
    model['optimization_statistics'].append(None if k % 3 == 1 else 10. * k)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    if hasattr(a, 'start_t_opt'):
        return a.start_t_opt == b and a.end_t_opt == b + 3
    if hasattr(a, 'shape') or hasattr(b, 'shape'):
        return np.shape(a) == np.shape(b) and np.array_equal(a, b)
    return a == b


def verify(ctx, real, model, name):
    ctx.check(len(real) == len(model['costs']), 'length' + name)
    ctx.check(list(real.indices) == model['indices'], 'labels' + name)
    ctx.check(not callable(real.index)
              and list(real.index) == model['indices'],
              'index of the cost functions' + name)
    for f in FIELDS:
        ctx.check(same(getattr(real, f), model[f]), f + name,
                  '%r != %r' % (getattr(real, f), model[f]))
    ctx.check(real.storage_path == model['storage_path']
              and real.file_name == model['file_name']
              and real.append_time_to_path == model['append_time_to_path'],
              'path' + name)


def copy_model(model):
    return {k: [list(x) if isinstance(x, list) else x for x in v]
            if isinstance(v, list) else v for k, v in model.items()}


def run(case, ctx):
    from qopt.data_container import DataContainer
    scratch = os.path.join(os.environ['VERIF_SCRATCH'],
                           'c19_%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    if 'many' in case:
        progs = [(case['first'],) * case['many'] + (case['second'],)
                 + (case['first'],) * 2]
    else:
        progs = ((case['first'], case['second']) + rest for rest in
                 itertools.product(OPS, repeat=case['depth'] - 2))
    for prog in progs:
        model = {f: [] for f in FIELDS}
        model.update(indices=[], storage_path=scratch, file_name='default',
                     append_time_to_path=False)
        real = DataContainer(storage_path=scratch, file_name='default',
                             append_time_to_path=False)
        alive, given = [], []
        k = 0
        for o in prog:
            ctx.step()
            k += 1
            if o == 'again':
                # the very same result is a run of its own
                for kind, j in (given or [('append', k)])[-1:] * 2:
                    res = result(kind, j)
                    for _ in range(2):
                        real.append_optim_result(res)
                        model_append(model, kind, j)
            elif o.startswith('append'):
                given.append((o, k))
                real.append_optim_result(result(o, k))
                model_append(model, o, k)
            elif o == 'refuse':
                if len(model['costs']):
                    for labels in (['a', 'c'], ['b', 'a'], ['a'],
                                   ['a', 'b', 'c'], ['a', 'a'], []):
                        bad = result('append', k)
                        bad.indices = labels
                        bad.optim_summary.indices = labels
                        ctx.raises(lambda: real.append_optim_result(bad),
                                   'other labels are refused')
            elif o == 'copy':
                alive.append((real, copy_model(model)))
                real = copy.deepcopy(real)
            elif o == 'pickle':
                path = os.path.join(scratch, 'x.pickle')
                real.to_pickle(path)
                alive.append((real, copy_model(model)))
                real = DataContainer.from_pickle(path)
            elif o == 'pickle-default':
                real.to_pickle()
                alive.append((real, copy_model(model)))
                real = DataContainer.from_pickle(
                    os.path.join(scratch, 'default'))
            elif o == 'pickle-obj':
                alive.append((real, copy_model(model)))
                real = pickle.loads(pickle.dumps(real))
            elif o == 'other':
                # an independent container does not share anything
                second = DataContainer(storage_path=scratch)
                ctx.check(len(second) == 0 and second.indices == [],
                          'new containers are empty')
                second.append_optim_result(result('append', 50 + k))
                m2 = {f: [] for f in FIELDS}
                m2.update(indices=[], storage_path=scratch,
                          file_name='Temp File', append_time_to_path=True)
                model_append(m2, 'append', 50 + k)
                alive.append((second, m2))
            elif o == 'pickle-path':
                # without a file name the storage path is that of the file
                path = os.path.join(scratch, 'file')
                real.file_name, real.storage_path = None, path
                model.update(file_name=None, storage_path=path)
                real.to_pickle()
                alive.append((real, copy_model(model)))
                real = DataContainer.from_pickle(path)
                alive.append((real, copy_model(model)))
                real = copy.deepcopy(real)
                real.file_name, real.storage_path = 'default', scratch
                model.update(file_name='default', storage_path=scratch)
        name = ' after %s' % (prog,)
        verify(ctx, real, model, name)
        for r, mod in alive:
            verify(ctx, r, mod, ' of another container' + name)
        if model['final_parameters']:
            last = model['status'][-1]
            ctx.check(real.status[-1] == last, 'last result' + name)
        ctx.state([model['status'], len(alive)])
        ctx.trace()
    # mutating a copy in depth
    a = DataContainer(storage_path=scratch)
    for k in range(3):
        a.append_optim_result(result('append', k))
    b = copy.deepcopy(a)
    b.final_costs[0][:] = 77
    b.costs[0].append(5)
    b.costs[1][0][:] = 77
    b.parameters[2][0][:] = 77
    b.init_parameters[1][:] = 77
    b.optimization_statistics[0].start_t_opt = 77
    b.indices.append('z')
    m3 = {f: [] for f in FIELDS}
    m3.update(indices=[], storage_path=scratch, file_name='Temp File',
              append_time_to_path=True)
    for k in range(3):
        model_append(m3, 'append', k)
    verify(ctx, a, m3, ' after a change of a deep copy')
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
