"""C03: maximising f and minimising -f are the same search, mirrored."""
import numpy as np
import algos
import plans
from engine import Out
from env import MAX, MIN, execute, where

ID, LEVEL = 'C03', 'model_checking'
BOUNDS = {'quick': 'all landscapes x 3 boxes x dimensions 1,2,4, cutoffs, every budget to 20 on two landscapes, iteration limits, single random deviations, default configurations, every setting varied, unusual boxes; long runs (to 5000 evaluations, 200 iterations, 30 dimensions)',
          'thorough': 'budgets to 70, runs of 400 evaluations, deviations within 50 evaluations'}
ASSUMPTIONS = ['both runs get the same generator', 'negation of finite floats is exact']
RULE = 'a state is a prefix of the evaluation history of a run'


def fams(c, t):
    q = t == 'quick'
    return {
        'settings': plans.settings(c, t),
        'odd': plans.odd(c, t)[::2],
        'answers': [s for s in plans.answers(c, t) if s['opt'] is MIN or s['dim'] == 3],
        'marathon': [{k: v for k, v in s.items() if k != 'opt'} for s in plans.marathon(c, t)],
        'world': plans.worlds(c, t, n=70 if q else 400, boxes=('sym', 'rect', 'neg'), dims=plans.D(c, 1, 2, 4)),
        'repair': plans.worlds(c, t, n=60, boxes=('rect',), lands=('slope',), repairs=plans.REPN, dims=plans.D(c, 2)),
        'stop': plans.stops(c, t, upto=20 if q else 70, lands=('bowl', 'chaosn', 'neg')),
        'iters': [dict(s) for s in plans.iters(c, t, opts=(MIN,), dims=plans.D(c, 1, 2))],
        'cut': [s for s in plans.cutoffs(c, t) if not s.get('flip')],
        'both': [dict(dim=max(2, c.mindim), land=l, max_evals=45, max_iters=2, cutoff=k) for l in ('bowl', 'slope', 'neg') for k in (0.1, -1.0, -999.5)],
        'script': plans.scripts(c, t, upto=24 if q else 60, kinds=('best', 'worst')),
    }


def defs(c, t):
    return [s for s in plans.default_specs(c, t)] + [dict(dim=2, land='slope', max_evals=150, cutoff=-1.5, box='sym')]


def devs(c, t):
    return [dict(dim=max(2, c.mindim), box='rect', land='chaosn', max_evals=18 if t == 'quick' else 50)]


def jobs(tier):
    out = [('def', 'default', c.id, tier, 0, None) for c in algos.DEFAULTS]
    for c in algos.TABLE:
        out += [('dev', 'dev', c.id, tier, 0, None)]
        for f, v in fams(c, tier).items():
            n = 1 if f == 'marathon' else 100
            out += [('fam', f, c.id, tier, i, i + n) for i in range(0, len(v), n)]
    return out


def mirror(spec):
    """(maximise f, minimise -f) for the f of the spec."""
    a = {k: v for k, v in spec.items() if k not in ('opt', 'flip')}
    b = dict(a)
    a.update(opt=MAX)
    b.update(opt=MIN, flip=True)
    if 'script' in spec:
        kind, k = spec['script']
        a['script'] = (kind, k)
        b['script'] = (kind, k)
        b['script_neg'] = True
    if 'cutoff' in spec:
        b['cutoff'] = -spec['cutoff']
    return a, b


def conv(r):
    out = []
    for ax in ('evals', 'iters'):
        try:
            x, y = r.task.convergence_data(ax)
            out.append((np.array(x, dtype=float), np.array(y, dtype=float)))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def eq(a, b):
    return a == b or (a != a and b != b)


def same(a, b, neg=False):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, -b if neg else b)


def compare(m, n):
    """m maximises f, n minimises -f."""
    if (m.hang is None and m.err is None) != (n.hang is None and n.err is None):
        return [('fails', 'only one direction fails: %s / %s' % (m.hang or m.err, n.hang or n.err))]
    if m.hang or m.err:
        return []
    k = min(len(m.prob.xs), len(n.prob.xs))
    for i in range(k):
        if not np.array_equal(m.prob.xs[i], n.prob.xs[i]):
            return [('points', 'evaluation %d: maximising looks at %s, minimising the negation at %s' % (i + 1, m.prob.xs[i], n.prob.xs[i]))]
    if len(m.prob.xs) != len(n.prob.xs):
        return [('length', '%d evaluations when maximising, %d when minimising' % (len(m.prob.xs), len(n.prob.xs)))]
    out = []
    if m.task.iters != n.task.iters:
        out.append(('iters', '%d and %d iterations' % (m.task.iters, n.task.iters)))
    if m.f is None or n.f is None:
        if (m.f is None) != (n.f is None):
            out.append(('result', '%r / %r' % (m.f, n.f)))
        return out
    if not same(m.f, n.f, True):
        out.append(('value', 'returned %r when maximising and %r when minimising the negation' % (m.f, n.f)))
    if not same(m.x, n.x):
        out.append(('solution', 'returned %s and %s' % (m.x, n.x)))
    if not same(m.task.x_f, n.task.x_f, True):
        out.append(('task', 'task best %r and %r' % (m.task.x_f, n.task.x_f)))
    for ax, a, b in zip(('evals', 'iters'), conv(m), conv(n)):
        if isinstance(a, str) or isinstance(b, str):
            if a is not b and a != b:
                out.append(('conv', 'convergence data over %s: %s / %s' % (ax, a, b)))
        elif not (same(a[0], b[0]) and same(a[1], b[1], True)):
            out.append(('conv', 'convergence data over %s differ: %s / %s' % (ax, a[1][:6], b[1][:6])))
    for i, (a, b) in enumerate(zip(m.probe.log, n.probe.log)):
        if a['k'] != b['k'] or a['evals'] != b['evals']:
            out.append(('callbacks', 'callback %d: %s@%d / %s@%d' % (i, a['k'], a['evals'], b['k'], b['evals'])))
            break
        if a['k'] in ('bi', 'ai'):
            if not (same(a['fit'], b['fit']) and same(a['bf'], b['bf']) and same(a['bx'], b['bx'])):
                out.append(('callbacks', 'callback %d reports %r / %r' % (i, a['bf'], b['bf'])))
                break
            if len(a['pop']) != len(b['pop']) or any(not np.array_equal(p[0], q[0]) for p, q in zip(a['pop'], b['pop'])):
                out.append(('callbacks', 'callback %d reports different populations' % i))
                break
    return out


def one(o, c, spec, dev, f):
    a, b = mirror(spec)
    seed = spec.get('seed', 7)
    m, n = execute(c, a, dev=dev, seed=seed), execute(c, b, dev=dev, seed=seed)
    o.trace(m, (c.id, f, 'max'))
    o.execs += 1
    for facet, det in compare(m, n):
        o.bad('%s/%s' % (c.name, facet), '%s [%s %s dev=%s]' % (det, c.id, a, dev), {'config': c.id, 'spec': a, 'mirror': b, 'dev': dev})
    return m


def run_job(job):
    kind, f, cid, tier, i, j = job
    c = algos.get(cid)
    o = Out()
    specs = (defs if kind == 'def' else devs if kind == 'dev' else lambda c, t: fams(c, t)[f])(c, tier)[i:j]
    for spec in specs:
        r = one(o, c, spec, None, f)
        if kind == 'dev' and r.hang is None and r.err is None:
            for k, (_, n) in enumerate(r.points):
                for alt in range(1, n + 1):
                    one(o, c, spec, {k: alt}, f)
    if specs:
        o.samples.append('%s %s %s' % (cid, f, specs[0]))
    return o
