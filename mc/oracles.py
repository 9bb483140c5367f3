"""Oracles over one observed Run.  Each returns a list of (facet, detail)."""
import numpy as np
from env import Individual


def _ok(r):
    return r.hang is None and r.err is None


def feasible(r, returned=True):
    out = []
    p = r.prob
    lo, hi, d = p.lower, p.upper, p.dimension
    for i, x in enumerate(p.xs):
        if x.shape != (d,):
            out.append(('shape', 'evaluation %d got shape %s' % (i + 1, x.shape)))
            break
        if not np.all(np.isfinite(x)):
            out.append(('nonfinite', 'evaluation %d got %s' % (i + 1, x)))
            break
        if not (np.all(x >= lo) and np.all(x <= hi)):
            out.append(('bounds', 'evaluation %d at %s outside [%s, %s]' % (i + 1, x, lo, hi)))
            break
    if returned and _ok(r) and r.x is not None and p.xs:
        x = np.asarray(r.x)
        if x.shape != (d,):
            out.append(('result-shape', 'returned solution has shape %s' % (x.shape,)))
        elif not np.all(np.isfinite(x.astype(float))):
            out.append(('result-nonfinite', 'returned %s' % x))
        elif not (np.all(x >= lo) and np.all(x <= hi)):
            out.append(('result-bounds', 'returned %s outside bounds' % x))
    return out


def sign(r):
    return r.task.optimization_type.value


def result(r):
    """The returned pair is the best solution ever evaluated, with its true objective value."""
    out = []
    if not _ok(r) or not r.prob.fs:
        return out
    s = sign(r)
    best = min(v * s for v in r.prob.fs)
    if r.f is None or r.x is None:
        return [('none', 'run returned %r' % ((r.x, r.f),))]
    f = float(np.asarray(r.f).reshape(-1)[0]) if np.size(r.f) == 1 else np.nan
    if not (f * s == best):
        out.append(('lost', 'returned fitness %r but best evaluated was %r' % (r.f, best * s)))
    if not (r.task.x_f * s == best):
        out.append(('task', 'task best %r but best evaluated was %r' % (r.task.x_f, best * s)))
    x = np.asarray(r.x, dtype=float).reshape(-1)
    hit = [v for y, v in zip(r.prob.xs, r.prob.fs) if y.shape == x.shape and np.array_equal(x, y)]
    if not hit:
        out.append(('unevaluated', 'returned solution %s was never evaluated' % x))
    elif f not in [float(h) for h in hit]:
        out.append(('mismatch', 'returned fitness %r but the returned solution evaluates to %r' % (r.f, hit[0])))
    return out


def value(r, x):
    """Objective value of x if known, in internal (minimising) sign."""
    p = r.prob
    if p.answer is not None:
        v = p.memo.get(np.array(x, dtype=float).tobytes())
        return None if v is None else v * sign(r)
    return p.fn(np.array(x, dtype=float)) * sign(r)


def iterations(r):
    """Best reported through callbacks: real, best so far, never worsens, snapshots not touched later."""
    out = []
    if r.probe is None:
        return out
    prev = None
    s = sign(r)
    seen = set()

    def rep(k, m):
        if k not in seen:
            seen.add(k)
            out.append((k, m))
    for e in r.probe.log:
        if e['k'] not in ('bi', 'ai'):
            continue
        bf = float(np.asarray(e['bf']).reshape(-1)[0])
        if prev is not None and not (bf <= prev):
            rep('worsens', 'reported best went from %r to %r at evaluation %d' % (prev, bf, e['evals']))
        prev = bf
        n = e['evals']
        if n and len(r.prob.fs) >= n:
            best = min(v * s for v in r.prob.fs[:n])
            if bf != best:
                rep('notbest', '%s reports best %r at evaluation %d, best evaluated %r' % (e['k'], bf, n, best))
        v = value(r, e['bx'].reshape(-1))
        if v is not None and v != bf and not (np.isinf(bf) and n == 0):
            rep('bestx', '%s reports best fitness %r for a solution worth %r' % (e['k'], bf, v))
    return out


def population(r):
    out, seen = [], set()

    def rep(k, m):
        if k not in seen:
            seen.add(k)
            out.append((k, m))
    if r.probe is None:
        return out
    lo, hi, d = r.prob.lower, r.prob.upper, r.prob.dimension
    # particles of the comprehensive learning swarm may fly outside, where they are not evaluated
    loose = type(r.alg).__name__.startswith('ComprehensiveLearning')
    for e in r.probe.log:
        if e['k'] not in ('bi', 'ai'):
            continue
        # the last iteration of a budgeted run may hold unevaluated members (+inf)
        fit = e['fit'].reshape(-1)
        if len(fit) != len(e['pop']):
            rep('align', '%s: %d members, %d fitness values' % (e['k'], len(e['pop']), len(fit)))
            continue
        for i, (x, f) in enumerate(e['pop']):
            if f is not None and not (f == fit[i]):
                rep('indiv', '%s: member %d carries %r, fitness array says %r' % (e['k'], i, f, fit[i]))
            if x.shape != (d,):
                rep('pshape', '%s: member %d has shape %s' % (e['k'], i, x.shape))
                continue
            if not (np.all(x >= lo) and np.all(x <= hi)):
                if loose:
                    continue
                rep('pbounds', '%s: member %d at %s' % (e['k'], i, x))
            if np.isinf(fit[i]) and fit[i] > 0:
                if e['k'] == 'bi' and np.all(np.isfinite(r.prob.fs)):
                    rep('unevaluated', 'member %d at %s has no fitness though the budget was not used up' % (i, x))
                continue
            v = value(r, x)
            if v is not None and v != fit[i]:
                rep('stale', '%s: member %d has fitness %r but its position is worth %r' % (e['k'], i, fit[i], v))
    return out


def budget(r):
    out = []
    n = len(r.prob.fs)
    if n > r.task.max_evals:
        out.append(('over', '%d objective calls, budget %s' % (n, r.task.max_evals)))
    if r.task.evals != n:
        out.append(('count', 'counter says %d, objective was called %d times' % (r.task.evals, n)))
    return out


def protocol(r):
    if r.probe is None or not _ok(r):
        return []
    ks = [e['k'] for e in r.probe.log]
    p = (r.spec.get('pre') or (0, 0))[1]
    n = r.task.iters - p
    if ks != ['br'] + ['bi', 'ai'] * n + ['ar']:
        return [('order', '%d iterations, callbacks %s' % (n, ks[:12]))]
    for i, e in enumerate(r.probe.log[1:-1]):
        if e['iters'] != i // 2 + p:
            return [('iters', 'callback %d saw iteration %d' % (i, e['iters']))]
    return []
