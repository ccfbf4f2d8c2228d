"""Core of the bounded model checker: enumeration, sharding, verdicts, evidence.

A check module offers

    PROPERTY   id in properties.jsonl
    LEVEL      level in MANIFEST.json
    RULE       how the bounded space is made
    cases(tier, seed) -> list of JSON-able case descriptors (the whole space)
    run(case, ctx)    -> explores one case on the real code

Every case is executed; cases are only distributed over processes, never
sampled.  A case is one root of the explored space (a configuration); `run`
enumerates the behaviours below it and reports

    ctx.state(key)        a distinct state of the explored space
    ctx.step(n)           transitions executed (operations, slots, faults)
    ctx.trace(n)          complete behaviours replayed on the implementation
                          and compared with the reference model
    ctx.check / ctx.close verdicts
"""
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
MAX_VIOLATIONS = 5
CASE_SECONDS = 250


class CaseTimeout(BaseException):
    pass


class Stop(Exception):
    """Enough violations."""


def digest(obj):
    """Canonical 8 byte hash of a nested python/numpy object."""
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(b'A' + str(o.shape).encode())
            h.update(np.round(np.ascontiguousarray(o).astype(complex), 9)
                     .tobytes())
        elif isinstance(o, dict):
            h.update(b'D')
            for k in sorted(o, key=repr):
                feed(k)
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'L%d' % len(o))
            for x in o:
                feed(x)
        else:
            h.update(b'R' + repr(o).encode())
    feed(obj)
    return h.digest()


class Ctx:
    def __init__(self, prop, tier, seed):
        self.property = prop
        self.tier = tier
        self.seed = seed
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.notes = {}
        self.current = None

    # -- counters ---------------------------------------------------------
    def state(self, key):
        d = digest((self.current_key(), key))
        new = d not in self.states
        self.states.add(d)
        return new

    def current_key(self):
        return json.dumps(self.current, sort_keys=True)

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    # -- verdicts ---------------------------------------------------------
    def fail(self, what, detail=''):
        """what: stable name of the violated clause (with its input)."""
        self.violations.append(dict(case=self.current, what=str(what),
                                    detail=str(detail)[:700]))
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop

    def check(self, cond, what, detail=''):
        self.evals += 1
        if not cond:
            self.fail(what, detail)
            return False
        return True

    def close(self, got, want, what, tol=1e-9, rtol=None):
        """Numerical equality of arrays, including the shape."""
        self.evals += 1
        try:
            g = np.asarray(to_array(got))
            w = np.asarray(to_array(want))
        except Exception as e:   # noqa
            self.fail(what, 'not comparable: %r' % e)
            return False
        if g.dtype == object or w.dtype == object:
            self.fail(what, 'ragged result')
            return False
        if g.shape != w.shape:
            self.fail(what, 'shape %s, expected %s' % (g.shape, w.shape))
            return False
        if g.size:
            if not np.all(np.isfinite(g)):
                self.fail(what, 'not finite: %s' % (g,))
                return False
            scale = 1. if rtol is None else max(1., rtol * np.max(np.abs(w)))
            err = np.max(np.abs(g - w))
            if not err <= tol * scale:
                self.fail(what, 'deviation %.3e > %.1e\n got  %s\n want %s'
                          % (err, tol * scale, short(g), short(w)))
                return False
        if w.size and np.any(np.abs(w) > 1e-12):
            self.nontrivial.add(digest((self.current_key(), what)))
        return True

    def raises(self, func, what, exc=Exception):
        self.evals += 1
        try:
            func()
        except exc:
            return True
        except Stop:
            raise
        self.fail(what, 'no exception raised')
        return False

    def result(self):
        return dict(states=self.states, steps=self.steps, traces=self.traces,
                    evals=self.evals, nontrivial=self.nontrivial,
                    samples=self.samples, violations=self.violations,
                    notes=self.notes)

    def merge(self, r):
        self.states |= r['states']
        self.steps += r['steps']
        self.traces += r['traces']
        self.evals += r['evals']
        self.nontrivial |= r['nontrivial']
        for s in r['samples']:
            self.sample(s)
        self.violations += r['violations']
        for k, v in r['notes'].items():
            self.note(k, v)


def short(a):
    with np.printoptions(precision=8, threshold=40):
        return repr(a)


def to_array(x):
    """numpy array of numbers, operators, or nested lists of operators."""
    if hasattr(x, 'data') and not isinstance(x, np.ndarray) \
            and isinstance(getattr(x, 'data'), np.ndarray):
        return np.array(x.data)
    if isinstance(x, (list, tuple)):
        return np.array([to_array(y) for y in x])
    return np.array(x)


def _alarm(signum, frame):
    raise CaseTimeout


def run_case(mod, case, ctx):
    ctx.current = case
    # processor time, so that a busy machine does not matter; cases that wait
    # forever are ended by the clock
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    signal.alarm(2 * CASE_SECONDS)
    start = time.process_time()
    try:
        mod.run(case, ctx)
    except Stop:
        raise
    except CaseTimeout:
        ctx.fail('termination', 'case did not finish')
        raise Stop
    except (KeyboardInterrupt, SystemExit):
        ctx.fail('unexpected interrupt', traceback.format_exc())
    except MemoryError:
        raise
    except Exception:
        ctx.fail('unexpected exception',
                 traceback.format_exc()[-1800:])
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        if os.environ.get('VERIF_DEBUG'):
            print('%.1f s %s' % (time.process_time() - start, case),
                  file=sys.stderr)


def _worker(mod, cases, prop, tier, seed, fd):
    ctx = Ctx(prop, tier, seed)
    err = None
    try:
        sys.stdout.flush()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 2)
        for case in cases:
            try:
                run_case(mod, case, ctx)
            except Stop:
                break
    except BaseException:   # noqa
        err = traceback.format_exc()
    try:
        with os.fdopen(fd, 'wb') as f:
            pickle.dump((ctx.result(), err), f)
    finally:
        os._exit(0)


def explore(mod, prop, tier, seed, only=None, jobs=None):
    cases = mod.cases(tier, seed)
    if only is not None:
        cases = [c for c in cases
                 if json.dumps(c, sort_keys=True) == json.dumps(
                     only, sort_keys=True)] or [only]
    total = Ctx(prop, tier, seed)
    shards = sorted(cases, key=lambda c: hashlib.md5(json.dumps(
        c, sort_keys=True).encode()).digest())
    jobs = jobs or int(os.environ.get('VERIF_JOBS', 0)) or os.cpu_count() or 1
    jobs = max(1, min(jobs, len(cases), getattr(mod, 'JOBS', jobs)))
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p in procs:
                os.close(p[1])
            _worker(mod, shards[j::jobs], prop, tier, seed, w)
        os.close(w)
        procs.append((pid, r))
    errors = []
    for pid, r in procs:
        with os.fdopen(r, 'rb') as f:
            raw = f.read()
        os.waitpid(pid, 0)
        if not raw:
            errors.append('worker %d died' % pid)
            continue
        res, err = pickle.loads(raw)
        total.merge(res)
        if err:
            errors.append(err)
    return cases, total, errors


def load_known(prop):
    """Listed findings: `finding: property=<id> case=<substring> ...`"""
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                body = line.split(' ', 2)[2]
                key, _, text = body.partition(' :: ')
                known.append((key.strip(), text.strip()))
    return known


def main(mod, prop, tier, seed, replay=None):
    t0 = time.time()
    only = None
    if replay:
        only = json.load(open(replay))['case']
    cases, ctx, errors = explore(mod, prop, tier, seed, only)
    for e in errors:
        print('ERROR in the machinery of %s:\n%s' % (prop, e),
              file=sys.stderr)
    known = load_known(prop)
    printed = set()
    fresh = []
    for v in ctx.violations:
        ident = '%s | %s' % (json.dumps(v['case'], sort_keys=True), v['what'])
        hit = [k for k in known if k[0] in ident]
        if hit:
            if hit[0][0] not in printed:
                printed.add(hit[0][0])
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][1]))
        else:
            fresh.append(v)
    wall = time.time() - t0
    if not replay:
        write_evidence(mod, prop, tier, seed, cases, ctx, wall, len(fresh))
    print('%s %s seed=%d: %d cases, %d states, %d transitions, %d traces, '
          '%d evaluations, %d violations, %.1f s'
          % (prop, tier, seed, len(cases), len(ctx.states), ctx.steps,
             ctx.traces, ctx.evals, len(fresh), wall))
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for i, v in enumerate(fresh[:MAX_VIOLATIONS]):
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, tier=tier, seed=seed,
                               case=v['case'], what=v['what'],
                               detail=v['detail'],
                               command='./run.sh %s %s --replay %s'
                                       % (prop, tier, path)), f, indent=1)
            print('  %s\n    case %s\n    %s' % (
                v['what'], json.dumps(v['case']),
                v['detail'].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        return 2
    if ctx.evals == 0:
        print('no evaluation took place', file=sys.stderr)
        return 2
    return 0


def write_evidence(mod, prop, tier, seed, cases, ctx, wall, nviol):
    level = mod.LEVEL
    cov = dict(
        evaluations=ctx.evals,
        distinct_nontrivial=len(ctx.nontrivial) or len(ctx.states),
        rule=mod.RULE,
        samples=ctx.samples or [cases[0]],
        roots=len(cases),
        exhaustive=True,
    )
    if level == 'model_checking':
        cov.update(states=len(ctx.states), transitions=ctx.steps,
                   traces_validated_against_impl=ctx.traces)
    else:
        cov.update(executions=ctx.traces, distinct_states=len(ctx.states),
                   executed_operations=ctx.steps)
    if ctx.notes:
        cov['notes'] = ctx.notes
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)
