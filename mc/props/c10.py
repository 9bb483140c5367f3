"""C10: algorithm objects can be reused; earlier runs leave nothing behind."""
import itertools

import numpy as np
import algos
import plans
from engine import Out
from env import CtlRNG, Hang, Injected, MAX, MIN, Individual, Probe, arm, disarm, make

ID, LEVEL = 'C10', 'model_checking'
BOUNDS = {'quick': 'all histories of at most two earlier runs over 8 kinds and a single long one of 60 or 600 iterations (at most 3500 evaluations) (complete, other dimension and box, other direction, stopped after 1 / 3 / 6 / 17 evaluations, failing objective, failing callback) before three different runs (single ones also before a run of 700 evaluations), 132 configurations, every setting varied with 4 histories; defaults with 8 histories',
          'thorough': 'all histories of at most three earlier runs, longer final runs'}
ASSUMPTIONS = ['the generator of the object is set to the same state before the compared runs']
RULE = 'a state is a history of earlier runs plus a prefix of the compared run'


def kinds(c):
    d = c.mindim
    return [
        dict(dim=max(d, 2), box='sym', land='bowl', max_evals=60),
        dict(dim=max(d, 3), box='wide', land='chaosn', max_iters=3),
        dict(dim=max(d, 1), box='neg', land='slope', opt=MAX, max_evals=40, repair='reflect'),
        dict(dim=max(d, 2), box='rect', land='chaos', max_evals=1),
        dict(dim=max(d, 4), box='off', land='plateau', max_evals=6),
        dict(dim=max(d, 2), box='rect', land='flat0', max_evals=17),
        dict(dim=max(d, 2), box='sym', land='chaos', max_evals=40, fail=13),
        dict(dim=max(d, 2), box='sym', land='bowl', max_evals=60, failcb=4),
        dict(dim=max(d, 3), box='rect', land='slope', max_iters=60, max_evals=700),      # long, see histories
        dict(dim=max(d, 2), box='rect', land='bowl', max_iters=600, max_evals=3500),
    ]


def finals(c, tier):
    d = c.mindim
    q = tier == 'quick'
    return [dict(dim=max(d, 2), box='rect', land='chaos', max_evals=50 if q else 200), dict(dim=max(d, 3), box='sym', land='bowl', max_iters=3),
            dict(dim=max(d, 2), box='off', land='slope', opt=MAX, max_evals=9),
            dict(dim=max(d, 5), box='rect', land='bowl', max_evals=700 if q else 3000)]


def histories(c, tier, dflt=False):
    n = len(kinds(c)) - 2
    out = [h for k in range(1, (2 if dflt else 3) if tier == 'quick' else (3 if dflt else 4)) for h in itertools.product(range(n), repeat=k)]
    out += [(n,), (n + 1,)]
    if tier != 'quick':
        out += [(n, n)] + [h for k in range(n) for h in ((n, k), (k, n))]
    return out


def jobs(tier):
    out = [(c.id, tier, 0, None) for c in algos.DEFAULTS]
    for c in algos.TABLE:
        n = len(plans.values(c))
        out += [(c.id, tier, 'settings', i, i + 12) for i in range(0, n, 12)]
        m = len(histories(c, tier))
        out += [(c.id, tier, i, i + 200) for i in range(0, m, 200)]
    return out


def go(alg, spec, seed):
    """One run of an existing object; returns (observation, task, result) or None when it fails by itself."""
    prob, task = make(spec)
    probe = Probe(task)
    alg.callbacks.callbacks[:] = [probe]
    probe.set_algorithm(alg)
    alg.rng = CtlRNG(seed)
    if 'fail' in spec:
        def hook(n, x):
            if n == spec['fail']:
                raise Injected('objective')
        prob.hook = hook
    if 'failcb' in spec:
        def chook(kind, n):
            if n == spec['failcb']:
                raise Injected('callback')
        probe.hook = chook
    res, err = (None, None), None
    arm()
    try:
        try:
            res = alg.run(task)
        finally:
            disarm()
    except Hang as e:
        err = 'hang'
    except Injected:
        err = None
    except Exception as e:
        err = repr(e)
    x, f = res
    obs = {'points': [(a.tobytes(), float(b)) for a, b in zip(prob.xs, prob.fs)],
           'result': (None if x is None else np.asarray(x.x if isinstance(x, Individual) else x, dtype=float).tobytes(), None if f is None else float(np.asarray(f).reshape(-1)[0])),
           'counts': (task.evals, task.iters, float(np.asarray(task.x_f).reshape(-1)[0])),
           'callbacks': [(e['k'], e['evals'], float(np.asarray(e['bf']).reshape(-1)[0]) if 'bf' in e else None, e['fit'].tobytes() if 'fit' in e else None) for e in probe.log],
           'failure': err}
    return obs, task, x


def settings_job(job):
    """One setting changed: a complete run and a run cut off, then a run that must equal that of a fresh object."""
    cid, tier, _, lo, hi = job
    c = algos.get(cid)
    o = Out()
    ks = kinds(c)
    fin = dict(dim=max(c.mindim, 2), box='rect', land='chaos', max_evals=80)
    for k, v in plans.values(c)[lo:hi]:
        want = go(c.build(seed=7, **{k: v}), fin, 21)[0]
        for h in ((0,), (1,), (5,), (2, 6)):
            alg = c.build(seed=7, **{k: v})
            bad = [x for x in (go(alg, ks[i], 100 + j)[0]['failure'] for j, i in enumerate(h)) if x]
            if bad or want['failure']:
                o.note('runs that raised or hung (judged by C07)')
                continue
            obs = go(alg, fin, 21)[0]
            o.execs += 1
            o.trans += len(obs['points'])
            hh = hash((cid, h, k, repr(v)))
            o.states.update(hash((hh, i)) for i in range(len(obs['points'])))
            o.outcomes.add(hash((hh, obs['result'])))
            for key in ('failure', 'points', 'result', 'counts', 'callbacks'):
                if obs[key] != want[key]:
                    o.bad('%s/%s' % (c.name, key), 'a used object behaves differently from a fresh one (%s) [%s %s=%r history=%s final=%s]' % (key, cid, k, v, h, fin),
                          {'config': cid, 'setting': [k, repr(v)], 'history': [ks[i] for i in h], 'final': fin})
                    break
    o.samples.append('%s: settings %d..%s varied' % (cid, lo, hi))
    return o


def run_job(job):
    if job[2] == 'settings':
        return settings_job(job)
    cid, tier, lo, hi = job
    c = algos.get(cid)
    o = Out()
    dflt = cid.endswith('/default')
    ks = kinds(c)
    fin = finals(c, tier)
    want = []
    for s in fin:
        w = go(c.build(seed=7), s, 21)[0]
        want.append(w)
    for h in histories(c, tier, dflt)[lo:hi]:
        finspecs = (0,) if h == (len(ks) - 1,) else range(len(fin)) if len(h) < 2 else (0, 1, 2) if len(h) < 3 else (0,)
        for fi in finspecs:
            if want[fi]['failure']:
                o.note('runs that raised or hung (judged by C07)')
                continue
            alg = c.build(seed=7)
            kept, ok = [], True
            for j, k in enumerate(h):
                obs, task, x = go(alg, ks[k], 100 + j)
                if obs['failure']:
                    ok = False
                    break
                if x is not None:
                    a = np.asarray(x.x if isinstance(x, Individual) else x)
                    kept.append((a, a.copy(), task, task.x_f, [list(map(float, v)) for v in task.convergence_data('evals')]))
                o.trans += len(obs['points'])
            if not ok:
                o.note('runs that raised or hung (judged by C07)')
                continue
            obs = go(alg, fin[fi], 21)[0]
            o.execs += 1
            o.trans += len(obs['points'])
            hh = hash((cid, h, fi))
            o.states.update(hash((hh, i)) for i in range(len(obs['points'])))
            o.outcomes.add(hash((hh, obs['result'])))
            rep = {'config': cid, 'history': [ks[k] for k in h], 'final': fin[fi]}
            for key in ('failure', 'points', 'result', 'counts', 'callbacks'):
                if obs[key] != want[fi][key]:
                    m = ''
                    if key == 'points':
                        n = next((i for i, (u, v) in enumerate(zip(obs[key], want[fi][key])) if u != v), min(len(obs[key]), len(want[fi][key])))
                        m = ': differs from evaluation %d on (%d / %d evaluations)' % (n + 1, len(obs[key]), len(want[fi][key]))
                    elif key == 'failure':
                        m = ': %s' % obs[key]
                    o.bad('%s/%s' % (c.name, key), 'a used object behaves differently from a fresh one (%s)%s [%s history=%s final=%s]' % (key, m, cid, h, fin[fi]), rep)
                    break
            for a, b, task, xf, cv in kept:
                if not np.array_equal(a, b):
                    o.bad('%s/result-changed' % c.name, 'a later run changed the result of an earlier one from %s to %s [%s history=%s]' % (b, a, cid, h), rep)
                if task.x_f != xf or [list(map(float, v)) for v in task.convergence_data('evals')] != cv:
                    o.bad('%s/task-changed' % c.name, 'a later run changed the task of an earlier one [%s history=%s]' % (cid, h), rep)
    o.samples.append('%s: histories %d..%s' % (cid, lo, hi))
    return o
