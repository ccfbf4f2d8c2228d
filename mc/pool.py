"""Controlled stand-ins for pools of workers.

Tasks are pickled (as for a real process), executed in a chosen order, and
their results are delivered in the order the API in use promises.  The stand-in
is a scheduler under control of the explorer: the schedule is a permutation of
the pending tasks, `fail_index` the task whose worker dies with an exception.
The executors of concurrent.futures have stand-ins as well."""
import concurrent.futures
import contextlib
import importlib
import itertools
import multiprocessing
import multiprocessing.pool
import pickle


class PoolFault(RuntimeError):
    pass


class Task:
    def __init__(self, index, func, args, kwds):
        self.index = index
        self.data = pickle.dumps((func, tuple(args), dict(kwds or {})))
        self.done, self.value, self.error = False, None, None


class Scheduler:
    """Tasks handed over by one pool or executor; those which are pending are
    executed in the order chosen by the explorer as soon as one is needed."""
    schedule = None        # set by the explorer: callable n -> permutation
    log = None
    fail_index = None

    def __init__(self):
        self.count = 0
        self.pending = []
        self.finished = []

    def submit(self, func, args=(), kwds=None):
        task = Task(self.count, func, args, kwds)
        self.count += 1
        self.pending.append(task)
        return task

    def flush(self):
        tasks, self.pending = self.pending, []
        if not tasks:
            return
        order = list(Scheduler.schedule(len(tasks)))
        if sorted(order) != list(range(len(tasks))):
            # the explorer expects all tasks at once
            order = list(range(len(tasks)))
        for i in order:
            task = tasks[i]
            try:
                if Scheduler.fail_index == task.index:
                    raise PoolFault('worker of task %d failed' % task.index)
                f, a, kw = pickle.loads(task.data)
                task.value = pickle.loads(pickle.dumps(f(*a, **kw)))
            except Exception as e:    # noqa
                task.error = e
            task.done = True
            self.finished.append(task)
        Scheduler.log.append(tuple(order))


class Result:
    """Of one or (for the map functions) several tasks."""

    def __init__(self, scheduler, tasks, single, callback=None,
                 error_callback=None):
        self.scheduler, self.tasks, self.single = scheduler, tasks, single
        self.callbacks = callback, error_callback
        self.told = False

    def wait(self, timeout=None):
        self.scheduler.flush()
        if self.told:
            return
        self.told = True
        errors = self._errors()
        if errors and self.callbacks[1]:
            self.callbacks[1](errors[0])
        elif not errors and self.callbacks[0]:
            self.callbacks[0](self._value())

    def _errors(self):
        if not all(t.done for t in self.tasks):
            return [PoolFault('pool terminated before the task was executed')]
        return [t.error for t in self.tasks if t.error is not None]

    def _value(self):
        return self.tasks[0].value if self.single else [
            t.value for t in self.tasks]

    def get(self, timeout=None):
        self.wait()
        for e in self._errors():
            raise e
        return self._value()

    def ready(self):
        self.wait()
        return True

    def successful(self):
        self.wait()
        return not self._errors()


class ControlledPool:
    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self.closed = False
        self.scheduler = Scheduler()
        self.results = []
        if initializer is not None:
            initializer(*initargs)

    def _result(self, func, argtuples, single=False, kwds=None, **kw):
        if self.closed:
            raise ValueError('Pool not running')
        tasks = [self.scheduler.submit(func, a, kwds) for a in argtuples]
        self.results.append(Result(self.scheduler, tasks, single, **kw))
        return self.results[-1]

    def map(self, func, iterable, chunksize=None):
        return self._result(func, [(x,) for x in iterable]).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._result(func, list(iterable)).get()

    def imap(self, func, iterable, chunksize=1):
        return self._each(self._result(func, [(x,) for x in iterable]))

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._each(self._result(func, [(x,) for x in iterable]), True)

    def _each(self, res, as_finished=False):
        res.wait()
        tasks = res.tasks
        if as_finished:
            tasks = [t for t in self.scheduler.finished if t in tasks]
        if len(tasks) < len(res.tasks) or not all(t.done for t in tasks):
            raise PoolFault('pool terminated before the task was executed')
        for t in tasks:
            if t.error is not None:
                raise t.error
            yield t.value

    def apply(self, func, args=(), kwds={}):
        return self._result(func, [args], True, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        return self._result(func, [args], True, kwds, callback=callback,
                            error_callback=error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self._result(func, [(x,) for x in iterable],
                            callback=callback, error_callback=error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._result(func, list(iterable), callback=callback,
                            error_callback=error_callback)

    def close(self):
        self.closed = True

    def terminate(self):
        # tasks which were not waited for are lost
        self.scheduler.pending = []
        self.closed = True

    def join(self):
        order = []
        self.scheduler.flush()
        for t in self.scheduler.finished:
            order.extend(r for r in self.results
                         if t in r.tasks and r not in order)
        for r in order:
            r.wait()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()


class Future:
    def __init__(self, scheduler, task):
        self.scheduler, self.task = scheduler, task

    def result(self, timeout=None):
        self.scheduler.flush()
        if self.task.error is not None:
            raise self.task.error
        return self.task.value

    def exception(self, timeout=None):
        self.scheduler.flush()
        return self.task.error

    def done(self):
        self.scheduler.flush()
        return True

    def running(self):
        return False

    def cancel(self):
        return False

    def add_done_callback(self, fn):
        self.scheduler.flush()
        fn(self)


class ControlledExecutor:
    def __init__(self, max_workers=None, *args, **kwargs):
        if max_workers is not None and max_workers < 1:
            raise ValueError('max_workers must be greater than 0')
        self.scheduler = Scheduler()

    def submit(self, fn, *args, **kwargs):
        return Future(self.scheduler, self.scheduler.submit(fn, args, kwargs))

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futures = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result() for f in futures)

    def shutdown(self, wait=True, cancel_futures=False):
        self.scheduler.flush()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.shutdown()


def as_completed(futures, timeout=None):
    futures = list(futures)
    for f in futures:
        f.scheduler.flush()
    for f in futures[:1]:
        for t in f.scheduler.finished:
            for g in futures:
                if g.task is t:
                    yield g


def wait(futures, timeout=None, return_when='ALL_COMPLETED'):
    futures = set(futures)
    for f in futures:
        f.scheduler.flush()
    return futures, set()


@contextlib.contextmanager
def controlled(schedule, fail_index=None):
    """Replace every pool and executor reachable from the package by the
    stand-ins."""
    Scheduler.schedule = staticmethod(schedule)
    Scheduler.log = []
    Scheduler.fail_index = fail_index
    real = [(multiprocessing.Pool, ControlledPool),
            (multiprocessing.pool.Pool, ControlledPool),
            (multiprocessing.pool.ThreadPool, ControlledPool),
            (concurrent.futures.ProcessPoolExecutor, ControlledExecutor),
            (concurrent.futures.ThreadPoolExecutor, ControlledExecutor),
            (concurrent.futures.as_completed, as_completed),
            (concurrent.futures.wait, wait)]
    mods = [multiprocessing, multiprocessing.pool, concurrent.futures]
    for name in ('qopt.parallel', 'qopt.solver_algorithms'):
        mods.append(importlib.import_module(name))
    saved = []
    for mod in mods:
        for key, val in [(k, getattr(mod, k)) for k in (
                'Pool', 'ThreadPool', 'ProcessPoolExecutor',
                'ThreadPoolExecutor') if hasattr(mod, k)] \
                + list(vars(mod).items()):
            for old, new in real:
                if val is old or callable(val) and val == old:
                    saved.append((mod, key, val))
                    setattr(mod, key, new)
                    break
    ctx_cls = multiprocessing.context.BaseContext
    saved_ctx = ctx_cls.Pool
    ctx_cls.Pool = lambda self, *a, **kw: ControlledPool(*a, **kw)
    try:
        yield Scheduler.log
    finally:
        for mod, name, val in reversed(saved):
            setattr(mod, name, val)
        ctx_cls.Pool = saved_ctx


def all_orders(n):
    return itertools.permutations(range(n))
