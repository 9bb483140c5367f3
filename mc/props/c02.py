"""C02: best value, convergence data and improvement log of a Task, all operation histories."""
import logging
import numpy as np
from engine import Out
from env import MAX, MIN
from taskmodel import INF, NUM, Log, explore, lists, longhist, patterns

ID, LEVEL = 'C02', 'model_checking'
BOUNDS = {'quick': 'all sequences of 6 evaluations / iteration ends over 5 values (negative, zero, ties, infinitely bad) x both directions x four limits; all value sequences of 7 evaluations over 3 values; with and without logging; histories of 3000 evaluations in seven value patterns; sequences of 4 operations over floating-point neighbours of eight values',
          'thorough': 'sequences of 7 operations over 5 values, of 10 evaluations over 3 values'}
ASSUMPTIONS = ['the infinitely good value is excluded']
RULE = 'a state is a reachable state of the task model'


def vals(opt):
    return (-1.5, 0.0, 2.0, 4, INF * opt.value)


def judge(t, m, prob, op, res, X, log):
    out = []
    if not t.x_f == m.best():
        out.append(('best', 'best value is %r, expected %r' % (t.x_f, m.best())))
    for rep in (0, 1):
        for ax, want in (('evals', m.conv_evals()), ('iters', (list(range(m.iters)), m.hist)), (None, (list(range(m.iters)), m.hist))):
            try:
                got = lists(t, ax)
            except Exception as e:
                out.append(('conv-raise', 'convergence_data(%s) raised %r' % (ax, e)))
                continue
            if got[0] != [float(v) for v in want[0]] or got[1] != [float(v) for v in want[1]]:
                out.append(('conv-%s' % (ax or 'default'), 'convergence data %s, expected %s' % (got, (list(want[0]), list(want[1])))))
    if log is not None:
        if len(log.lines) != len(m.imps):
            out.append(('log-count', '%d improvements, %d logged: %s' % (len(m.imps), len(log.lines), log.lines)))
        elif m.imps:
            nums = [float(v) for v in NUM.findall(log.lines[-1])]
            if float(m.imps[-1][0]) not in nums or float(m.imps[-1][1]) not in nums:
                out.append(('log-text', 'improvement %s logged as %r' % (m.imps[-1], log.lines[-1])))
    return out


NEAR = [0.0, 1.0, -1.0, 1e-8, 1e12, -3.5e5, 1e300, 5e-324]
CFG = [(None, None, None), (4, None, None), (None, 3, None), (None, None, 0.0)]


def jobs(tier):
    out = []
    for opt in ('MINIMIZATION', 'MAXIMIZATION'):
        for i in range(len(CFG)):
            for p in range(6):
                out.append(('mix', tier, opt, i, p, False))
        out.append(('mix', tier, opt, 0, 0, True))
        out.append(('mix', tier, opt, 1, 2, True))
        out.append(('plot', tier, opt, False))
        out += [('hist', tier, opt, p, lg) for p in patterns(MIN) for lg in (False, True)]
        out += [('close', tier, opt, i, False) for i in range(len(NEAR))]
        out += [('run', tier, opt, p, lg) for p in range(3) for lg in (False, True)]
    return out


def judge_plot(t, m, prob, op, res, X, log):
    import matplotlib.pyplot as plt
    out = []
    for ax, want in (('evals', m.conv_evals()), ('iters', (list(range(m.iters)), m.hist))):
        plt.close('all')
        t.plot_convergence(x_axis=ax)
        figs = plt.get_fignums()
        ls = plt.figure(figs[-1]).axes[0].lines if figs else []
        if len(ls) != 1 or list(ls[0].get_xdata()) != list(want[0]) or list(ls[0].get_ydata()) != list(want[1]):
            out.append(('plot-%s' % ax, 'the convergence graph does not show the convergence data'))
    plt.close('all')
    return out


def run_job(job):
    o = Out()
    opt = MIN if job[2] == 'MINIMIZATION' else MAX
    q = job[1] == 'quick'
    log = None
    lg = logging.getLogger('niapy.task.Task')
    if job[-1]:
        logging.disable(logging.NOTSET)
        log = Log()
        lg.handlers[:] = [log]
        lg.propagate = False
    try:
        if job[0] == 'mix':
            v = vals(opt)
            depth = (6 if q else 7) - (1 if log is not None else 0)
            explore(o, CFG[job[3]] + (opt,), v, depth, judge, prefix=(job[4],), log=log, seq_ops=[('e', x) for x in v] + [('i',)])
            o.samples.append('all sequences of %d operations over %s, limits %s, %s' % (depth, v, CFG[job[3]], opt.name))
        elif job[0] == 'plot':
            v = (2.0, 0.5, -1.0) if opt is MIN else (-2.0, 0.0, 1.0)
            explore(o, (None, None, None, opt), v, 3 if q else 4, judge_plot, seq_ops=[('e', x) for x in v] + [('i',)])
        elif job[0] == 'hist':
            v = patterns(opt)[job[3]]
            n = 3000 if q else 12000
            for cfg in ((None, None, None), (2500, None, None)):
                for every in (1, 13):
                    if log is not None:
                        log.lines.clear()
                    longhist(o, cfg + (opt,), v, every, n, judge, log=log)
        elif job[0] == 'close':
            c = NEAR[job[3]]
            v = tuple(dict.fromkeys((float(np.nextafter(c, -np.inf)), c, float(np.nextafter(c, np.inf)), c * (1 + 1e-9) + 1e-12, c * (1 - 1e-9) - 1e-12, np.float64(c))))
            explore(o, (None, None, None, opt), v, 4 if q else 5, judge, seq_ops=[('e', x) for x in v] + [('i',)])
        else:
            v = (3.0, -1.0, -2.5)
            explore(o, (None, None, None, opt), v, 7 if q else 10, judge, prefix=(job[3],), log=log, seq_ops=[('e', x) for x in v])
    finally:
        logging.disable(logging.CRITICAL)
        lg.handlers[:] = []
    return o
