"""C01: stop rule and evaluation counting of a Task, all operation histories."""
import numpy as np
from engine import Out
from env import MAX, MIN
from taskmodel import INF, explore, longhist, patterns

ID, LEVEL = 'C01', 'model_checking'
BOUNDS = {'quick': 'all sequences of 5 operations (evaluate one of 4 values, end an iteration, stop-and-count) x budgets {none,0..4} x limits {none,0..3} x cutoffs {none, 3 values} x both directions; 7 operations on nine combinations; 60 evaluations around every budget to 50; histories of 3000 to 12400 evaluations in seven value patterns; all sequences of 4 operations over the floating-point neighbours of eight cutoffs',
          'thorough': 'all sequences of 6 operations over 5 values, 8 operations on nine combinations'}
ASSUMPTIONS = ['objective values are real numbers; the infinitely good value is excluded']
RULE = 'a state is a reachable state of the task model'
VALS = (-1.0, 0.0, 2.0, 3)


def judge(t, m, prob, op, res, X, log):
    out = []
    if op[0] == 'e':
        got, want, calls, expect, x = res
        if calls != expect:
            out.append(('calls', 'objective called %d times, expected %d' % (calls, expect)))
        if not (np.ndim(got) == 0 and not isinstance(got, str) and got == want):
            out.append(('value', 'evaluation returned %r, expected %r' % (got, want)))
        if not np.array_equal(x, X):
            out.append(('mutates', 'the solution was changed to %s' % x))
        if expect and not np.array_equal(prob.seen[-1], X):
            out.append(('passes', 'objective saw %s instead of %s' % (prob.seen[-1], X)))
    elif op[0] == 's' and res[0] != res[1]:
        out.append(('stop-iter', 'stopping_condition_iter said %s, expected %s' % res))
    if t.evals != len(m.vals):
        out.append(('evals', 'evaluation counter is %r, expected %d' % (t.evals, len(m.vals))))
    if t.iters != m.iters:
        out.append(('iters', 'iteration counter is %r, expected %d' % (t.iters, m.iters)))
    a = bool(t.stopping_condition())
    if a != m.stop():
        out.append(('stop', 'stopping_condition says %s, expected %s' % (a, m.stop())))
    if bool(t.stopping_condition()) != a or t.evals != len(m.vals) or t.iters != m.iters:
        out.append(('stop-effect', 'asking for the stop changed the task'))
    return out


def configs():
    return [(me, mi, cut, opt) for opt in (MIN, MAX) for me in (None, 0, 1, 2, 3, 4) for mi in (None, 0, 1, 2, 3)
            for cut in (None, 0.0, -1.0, 2.0, 0.5)]


NEAR = [0.0, 1.0, -1.0, 1e-8, 1e12, -3.5e5, 1e300, 5e-324]
DEEP = [(3, 2, None, MIN), (None, 3, 0.0, MAX), (4, None, 0.0, MIN), (5, 4, -1.0, MIN), (5, 4, 2.0, MAX), (None, None, 2.0, MAX),
        (None, None, -1.0, MIN), (6, None, None, MAX), (2, 5, 0.5, MIN)]


def jobs(tier):
    out = [('all', tier, i) for i in range(len(configs()))]
    out += [('deep', tier, i, j) for i in range(len(DEEP)) for j in range(len(VALS) + 2)]
    out += [('hist', tier, opt.name, p) for opt in (MIN, MAX) for p in patterns(MIN)]
    out += [('close', tier, opt.name, i) for opt in (MIN, MAX) for i in range(len(NEAR))]
    out += [('long', tier, opt.name) for opt in (MIN, MAX)]
    return out


def run_job(job):
    o = Out()
    if job[0] == 'all':
        q = job[1] == 'quick'
        explore(o, configs()[job[2]], VALS if q else VALS + (1e300,), 5 if q else 6, judge)
        o.samples.append('all operation sequences, %s' % (configs()[job[2]],))
    elif job[0] == 'deep':
        explore(o, DEEP[job[2]], VALS, 7 if job[1] == 'quick' else 8, judge, prefix=(job[3],))
    elif job[0] == 'hist':
        opt = MIN if job[2] == 'MINIMIZATION' else MAX
        v = patterns(opt)[job[3]]
        n = 3000 if job[1] == 'quick' else 30000
        for cfg in ((None, None, None), (1000, None, None), (2048, None, None), (n - 5, None, None), (None, 100, None), (None, 257, None), (2500, 1000, None), (None, None, v(1500)), (None, None, v(2950)), (np.inf, np.inf, None), (1000.0, None, None)):
            for every in (1, 7, 50):
                longhist(o, cfg + (opt,), v, every, n, judge)
        if job[3] in ('constant', 'improving'):
            for cfg in ((12345, None, None), (None, 12345, None)):
                longhist(o, cfg + (opt,), v, 1, 12400, judge)
    elif job[0] == 'close':
        opt = MIN if job[2] == 'MINIMIZATION' else MAX
        c = NEAR[job[3]]
        v = tuple(dict.fromkeys((float(np.nextafter(c, -np.inf)), c, float(np.nextafter(c, np.inf)), c * (1 + 1e-9) + 1e-12, c * (1 - 1e-9) - 1e-12)))
        for cut in v[:3]:
            for me, mi in ((None, None), (3, None), (None, 2)):
                explore(o, (me, mi, cut, opt), v, 4, judge)
    else:
        opt = MIN if job[2] == 'MINIMIZATION' else MAX
        for me in range(0, 51):
            for mi in (None, 1, 7, 40):
                explore(o, (me, mi, None, opt), (1.0,), 60, judge, seq_ops=[('e', 1.0)])
                explore(o, (None, mi, 3.0, opt), (1.0,), 60, judge, seq_ops=[('i',)])
    return o
