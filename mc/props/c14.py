"""C14: a failing objective or callback is contained and reported, never swallowed."""
import multiprocessing
import multiprocessing.process
import os
import threading

import numpy as np
import algos
import oracles
import plans
from engine import Out
from env import CtlRNG, Hang, Injected, MAX, MIN, Probe, Run, arm, disarm, make
from runprop import ASSUME

ID, LEVEL = 'C14', 'model_checking'
BOUNDS = {'quick': 'every evaluation index to 30 and every callback notification as the failing point x exception types (rotating) x main thread / worker threads of several names / worker processes of several names (also a thread of one), followed by a clean run, 132 configurations; defaults at 14 points; 9 late points of runs of 700 evaluations',
          'thorough': 'every evaluation index to 80, every exception type at every point, two consecutive failures'}
ASSUMPTIONS = ASSUME + ['a failing evaluation may or may not be counted itself; everything before it is']
RULE = 'a state is a failing point of a history'


class Quiet(BaseException):
    """An exit-style exception (not an Exception)."""


class Falsy(Exception):
    """An exception that looks like nothing."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None


class Picky(Exception):
    """Cannot be rebuilt from its arguments."""

    def __init__(self, text, *, code=3):
        super().__init__()
        self.text, self.code = text, code


TYPES = [ValueError, Injected, KeyError, OSError, FloatingPointError, KeyboardInterrupt, TypeError, Quiet, IndexError, ZeroDivisionError, MemoryError, AttributeError, StopIteration, Falsy, SystemExit, RecursionError, GeneratorExit, Picky, ArithmeticError]
MODES = ('main', 'thread', 'process')


THREADS = ('Thread-1', 'MainThread', 'MainProcess', 'worker')
PROCS = ('Worker-1', 'MainProcess-2', 'ForkPoolWorker-3', 'my MainProcess')


def attempt(alg, task, mode, nth=0):
    """(result, raised); the n-th attempt decides what the thread or the process is called"""
    box = {}

    def body():
        try:
            box['res'] = alg.run(task)
        except BaseException as e:
            box['err'] = e
    if mode == 'thread':
        t = threading.Thread(target=body, name=THREADS[nth % 4], daemon=bool(nth // 4 % 2))
        t.start()
        t.join()
    elif mode == 'process':
        # what a child process looks like from inside
        mp = multiprocessing.process
        old = mp._current_process, mp._parent_process
        mp._current_process = multiprocessing.Process(name=PROCS[nth % 4])
        mp._parent_process = mp._ParentProcess('MainProcess', os.getppid(), None)
        try:
            if nth % 3 == 2:
                t = threading.Thread(target=body)
                t.start()
                t.join()
            else:
                body()
        finally:
            mp._current_process, mp._parent_process = old
    else:
        body()
    return box.get('res'), box.get('err')


def one(o, c, spec, where, k, typ, mode, again=None):
    """Fail at evaluation k / notification k, judge, then run again."""
    prob, task = make(spec)
    probe = Probe(task, deep=False)
    exc = typ('injected')
    if where == 'eval':
        def hook(n, x):
            if n == k:
                raise exc
        prob.hook = hook
    else:
        def chook(kind, n):
            if n == k:
                raise exc
        probe.hook = chook
    alg = c.build(callbacks=[probe], seed=7)
    alg.rng = CtlRNG(7)
    arm()
    rep = {'config': c.id, 'spec': spec, 'fail': where, 'at': k, 'exception': typ.__name__, 'mode': mode}

    def bad(facet, det):
        o.bad('%s/%s' % (c.name, facet), '%s [%s fails at %s %d with %s in %s, %s]' % (det, c.id, where, k, typ.__name__, mode, spec), rep)
    try:
        if alg.bad_run():
            bad('fresh', 'an object that has not run yet reports a bad run')
    except Exception as e:
        bad('fresh', 'asking an object that has not run yet whether its run was bad raises %s' % type(e).__name__)
    try:
        try:
            res, err = attempt(alg, task, mode, k)
        finally:
            disarm()
    except Hang:
        bad('hang', 'the run did not come back after the failure')
        return False
    o.execs += 1
    o.trans += len(prob.fs) + 1
    o.states.add(hash((c.id, where, k, typ.__name__, mode)))
    if isinstance(err, Hang) or isinstance(alg.exception, Hang):
        bad('hang', 'the run did not come back after the failure')
        return False
    calls = len(prob.fs)
    if where == 'eval':
        prob_calls = calls + 1          # the failing call itself left no value
    if mode == 'main':
        if err is None:
            bad('swallowed', 'run returned %r instead of raising' % (res,))
        elif err is not exc:
            bad('other', 'the caller got %r instead of the injected exception' % err)
    else:
        if err is not None:
            if err is exc:
                bad('escapes', 'the exception left the run outside the main thread')
            else:
                bad('other', 'the run raised %r instead of reporting the injected exception' % err)
        else:
            if not (isinstance(res, tuple) and len(res) == 2 and res[0] is None and res[1] is None):
                bad('swallowed', 'run returned %r after a failure' % (res,))
            if not alg.bad_run():
                bad('unreported', 'bad_run() is false after a failure')
            elif alg.exception is not exc:
                bad('other', 'algorithm holds %r instead of the injected exception' % alg.exception)
    if where == 'eval':
        if calls != k - 1:
            bad('continues', 'objective was called again after the failing call (%d calls)' % (calls + 1))
        if task.evals not in (k - 1, k):
            bad('count', 'task counts %d evaluations, %d were made' % (task.evals, k))
    elif task.evals != calls:
        bad('count', 'task counts %d evaluations, %d were made' % (task.evals, calls))
    if where == 'cb' and len(probe.log) > k:
        bad('continues', 'callbacks were notified after the failing notification')
    s = task.optimization_type.value
    want = s * min([v * s for v in prob.fs]) if prob.fs else np.inf * s
    if not task.x_f == want:
        bad('best', 'task best is %r, successful evaluations gave %r' % (task.x_f, want))
    o.outcomes.add(hash((c.id, calls, str(type(err)), str(res))))
    # a later run of the same object works and clears the error
    prob2, task2 = make(spec)
    probe.task = task2
    probe.hook = None
    probe.log = []
    alg.rng = CtlRNG(7)
    arm()
    try:
        try:
            res, err = attempt(alg, task2, mode, k + 1)
        finally:
            disarm()
    except Hang:
        bad('later-hang', 'the run after the failure did not come back')
        return False
    if err is not None or res is None or res[0] is None:
        bad('later', 'the run after the failure gave %r / %r' % (res, err if err is not None else alg.exception))
    elif alg.bad_run() or alg.exception is not None:
        bad('later-bad', 'after a successful run the algorithm still reports %r' % alg.exception)
    else:
        r = Run()
        r.prob, r.task, r.x, r.f, r.hang, r.err = prob2, task2, res[0], res[1], None, None
        for facet, det in oracles.result(r):
            bad('later-' + facet, det)
    return True


def base(c, spec):
    """Length of the run without failures: evaluations and notifications."""
    prob, task = make(spec)
    probe = Probe(task, deep=False)
    alg = c.build(callbacks=[probe], seed=7)
    alg.rng = CtlRNG(7)
    arm()
    try:
        try:
            alg.run(task)
        finally:
            disarm()
    except (Hang, Exception):
        return None
    return len(prob.fs), len(probe.log)


def specs(c, tier):
    d = max(2, c.mindim)
    return [dict(dim=d, box='rect', land='chaos', max_evals=30 if tier == 'quick' else 80)] + \
        ([] if tier == 'quick' else [dict(dim=d, box='sym', land='bowl', opt=MAX, max_iters=3)])


def jobs(tier):
    out = [(c.id, tier, s, m) for c in algos.TABLE for s in range(len(specs(c, tier))) for m in MODES]
    out += [(c.id, tier, 'long', 'main') for c in algos.TABLE]
    out += [(c.id, tier, 0, m) for c in algos.DEFAULTS for m in MODES]
    return out


def run_job(job):
    cid, tier, si, mode = job
    c = algos.get(cid)
    o = Out()
    dflt = cid.endswith('/default')
    long = si == 'long'
    spec = dict(dim=3, box='rect', land='chaos', max_evals=300) if dflt else dict(dim=max(3, c.mindim), box='rect', land='bowl', max_evals=700) if long else specs(c, tier)[si]
    n = base(c, spec)
    if n is None:
        o.note('runs that raised or hung (judged by C07)')
        return o
    pts = [('eval', k) for k in range(1, n[0] + 1)] + [('cb', k) for k in range(n[1])]
    if dflt:
        pts = [('eval', k) for k in (1, 2, 30, 50, 60, 99, 150, 220, 280, 300) if k <= n[0]] + [('cb', k) for k in range(min(n[1], 4))]
    if long:
        pts = [('eval', k) for k in (40, 101, 257, 512, 699, 700) if k <= n[0]] + [('cb', k) for k in (12, 40, n[1] - 1) if k < n[1]]
    for i, (wh, k) in enumerate(pts):
        ts = TYPES if tier != 'quick' and not dflt else [TYPES[(i + MODES.index(mode) * 5) % len(TYPES)]] + ([] if i % 3 else [ValueError])
        for t in ts:
            if not one(o, c, spec, wh, k, t, mode):
                return o
    o.samples.append('%s: %d failing points in %s' % (cid, len(pts), mode))
    return o
