"""Explicit-state model of a Task, explored in lock step with the real Task (C01, C02).

Every operation sequence up to the bound is executed on the real object; after every operation the
observable state of the real object is compared with the model, so each explored model trace is
also a conformance trace.
"""
import logging
import re

import numpy as np

from engine import Out
from env import MAX, MIN
from niapy.problems import Problem
from niapy.task import Task

INF = float('inf')


class Answer(Problem):
    def __init__(self):
        super().__init__(2, -1.0, 1.0)
        self.next = None
        self.calls = 0
        self.seen = []

    def _evaluate(self, x):
        self.calls += 1
        self.seen.append(x)
        return self.next


class Model:
    def __init__(self, me, mi, cut, opt):
        self.me, self.mi, self.cut, self.s = me, mi, cut, opt.value
        self.vals, self.iters, self.hist = [], 0, []
        self.imps = []                # (evaluation, value) of the improvements

    def best(self):
        return self.imps[-1][1] if self.imps else INF * self.s

    def stop(self):
        if self.me is not None and len(self.vals) >= self.me:
            return True
        if self.mi is not None and self.iters >= self.mi:
            return True
        return self.cut is not None and bool(self.imps) and self.best() * self.s <= self.cut * self.s

    def eval(self, v):
        """(returned value, objective called)"""
        if self.stop():
            return INF, False
        self.vals.append(v)
        if v * self.s < self.best() * self.s:
            self.imps.append((len(self.vals), v))
        return v * self.s, True

    def iter(self):
        self.iters += 1
        self.hist.append(self.best())

    def conv_evals(self):
        if not self.imps:
            return [], []
        xs, ys, b = [], [], None
        first, last = self.imps[0][0], self.imps[-1][0]
        d = dict(self.imps)
        for n in range(first, last + 1):
            b = d.get(n, b)
            xs.append(n)
            ys.append(b)
        return xs, ys


class Log(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, rec):
        self.lines.append(rec.getMessage())


NUM = re.compile(r'[-+]?(?:inf|\d+\.?\d*(?:e[-+]?\d+)?)')


def lists(t, ax):
    x, y = t.convergence_data(ax) if ax is not None else t.convergence_data()
    return [float(v) for v in np.asarray(x).reshape(-1)], [float(v) for v in np.asarray(y).reshape(-1)]


def explore(o, cfg, values, depth, judge, prefix=(), log=None, seq_ops=None):
    """All sequences of operations of the given length that start with prefix."""
    me, mi, cut, opt = cfg
    ops = seq_ops or ([('e', v) for v in values] + [('i',), ('s',)])
    X = np.array([0.25, -0.5])
    kw = {}
    if me is not None:
        kw['max_evals'] = me
    if mi is not None:
        kw['max_iters'] = mi
    if cut is not None:
        kw['cutoff_value'] = cut
    idx = [0] * depth
    n = len(ops)
    npre = len(prefix)
    pos = 0
    # odometer over the remaining operations; re-executes each sequence from the start (stateless search)
    rest = depth - npre
    total = n ** rest
    for code in range(total):
        c = code
        seq = list(prefix)
        for _ in range(rest):
            seq.append(c % n)
            c //= n
        first_new = npre if code else 0
        prob = Answer()
        t = Task(problem=prob, optimization_type=opt, enable_logging=log is not None, **kw)
        if log is not None:
            log.lines.clear()
        m = Model(me, mi, cut, opt)
        for k, oi in enumerate(seq):
            op = ops[oi]
            o.trans += 1
            x = X.copy()
            before = prob.calls
            if op[0] == 'e':
                prob.next = op[1]
                want, called = m.eval(op[1])
                try:
                    got = t.eval(x)
                except Exception as e:
                    got = repr(e)
                res = (got, want, prob.calls - before, int(called), x)
            elif op[0] == 'i':
                m.iter()
                t.next_iter()
                res = None
            else:
                want = m.stop()
                m.iter()
                res = (bool(t.stopping_condition_iter()), want)
            bad = judge(t, m, prob, op, res, X, log)
            for facet, det in bad:
                o.bad(facet, '%s after %s [max_evals=%s max_iters=%s cutoff=%s %s]' % (det, [ops[j] for j in seq[:k + 1]], me, mi, cut, opt.name),
                      {'max_evals': me, 'max_iters': mi, 'cutoff': cut, 'opt': opt.name, 'ops': [ops[j] for j in seq[:k + 1]]})
            if bad:
                break
            o.states.add(hash((cfg[:3], opt.value, len(m.vals), m.iters, tuple(m.imps), tuple(m.hist))))
        o.outcomes.add(hash((tuple(m.vals), m.iters, tuple(m.hist), m.stop())))
        o.execs += 1


def longhist(o, cfg, value, every, n, judge, log=None):
    """One long history: evaluation k has value(k), an iteration ends after every ``every`` evaluations.

    The judge sees every operation near the powers of two and ten and near the end, counters are compared at each.
    """
    me, mi, cut, opt = cfg
    X = np.array([0.25, -0.5])
    kw = {k: v for k, v in (('max_evals', me), ('max_iters', mi), ('cutoff_value', cut)) if v is not None}
    prob = Answer()
    t = Task(problem=prob, optimization_type=opt, enable_logging=log is not None, **kw)
    m = Model(me, mi, cut, opt)
    marks = {b ** e + d for b in (2, 10) for e in range(2, 18) for d in (-1, 0, 1)} | {(me or 0) + d for d in (-1, 0, 1, 2)} | {n - 1, n - 2}
    for k in range(n):
        ops = [('e', value(k))] + ([('i',) if (k // every) % 2 else ('s',)] if (k + 1) % every == 0 else [])
        for op in ops:
            o.trans += 1
            x = X.copy()
            before = prob.calls
            if op[0] == 'e':
                prob.next = op[1]
                want, called = m.eval(op[1])
                try:
                    got = t.eval(x)
                except Exception as e:
                    got = repr(e)
                res = (got, want, prob.calls - before, int(called), x)
                wrong = not got == want or prob.calls - before != int(called)
            elif op[0] == 'i':
                m.iter()
                t.next_iter()
                res, wrong = None, False
            else:
                want = m.stop()
                m.iter()
                res = (bool(t.stopping_condition_iter()), want)
                wrong = res[0] != want
            prob.seen = prob.seen[-1:]
            wrong = wrong or t.evals != len(m.vals) or t.iters != m.iters or not t.x_f == m.best() or bool(t.stopping_condition()) != m.stop()
            o.states.add(hash((cfg[:3], opt.value, len(m.vals), m.iters, len(m.imps), every)))
            if wrong or k in marks:
                for facet, det in judge(t, m, prob, op, res, X, log):
                    o.bad(facet, '%s after %d evaluations in a long history [max_evals=%s max_iters=%s cutoff=%s %s]' % (det[:300], k + 1, me, mi, cut, opt.name),
                          {'max_evals': me, 'max_iters': mi, 'cutoff': cut, 'opt': opt.name, 'long': k + 1, 'every': every})
                    return
    o.outcomes.add(hash((len(m.vals), m.iters, len(m.imps), m.best())))
    o.execs += 1


def patterns(opt):
    s = opt.value
    return {'improving': lambda k: s * (1e6 - k), 'constant': lambda k: 7.0, 'every 97th': lambda k: s * (1e6 - k // 97),
            'first only': lambda k: -s * 5.0 if k == 0 else s * 3.0 + s * (k % 5) + s * 100, 'tiny steps': lambda k: s * (1.0 - k * 2.0 ** -53),
            'two then late': lambda k: s * (5.0 if k < 2 else 6.0 if k < 2900 else -float(k)), 'worsening': lambda k: s * float(k)}
