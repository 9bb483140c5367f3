"""C08: same seed and settings, same run, whatever happened before and whatever the outside world does."""
import hashlib
import json
import os
import random
import subprocess
import sys
import time

import numpy as np
import algos
import plans
from engine import Out
from env import MAX, MIN, execute, REPAIRS

ID, LEVEL = 'C08', 'model_checking'
BOUNDS = {'quick': 'every configuration x repair (also one that draws at every call) x box x landscape x 2 seeds x 5 preceding histories (nothing, disturbed global generators and clock, same class on another task, other algorithms, interleaved construction), every setting varied; 3 interpreters with different hash seeds; defaults also over 2000 evaluations',
          'thorough': 'runs of 300 evaluations, 4 seeds, 6 interpreters'}
ASSUMPTIONS = ['one interpreter and one numpy version', 'seeded generators of the algorithms, no replacement of the generator']
RULE = 'a state is a prefix of the evaluation history of a run'


def specs(c, tier):
    q = tier == 'quick'
    n = 60 if q else 300
    d = max(2, c.mindim)
    out = [dict(dim=d, box=b, land=l, repair=r, max_evals=n, seed=s) for r in plans.REPN + ('drawing',) for b, l in (('rect', 'slope'), ('wide', 'chaos')) for s in ((3,) if q else (3, 11))]
    out += [dict(dim=dd, box='sym', land=l, opt=o, max_evals=n, seed=s) for dd in plans.D(c, 1, 3) for l in ('bowl', 'flat0', 'plateau', 'chaosn') for o in (MIN, MAX) for s in ((5,) if q else (5, 0, 12345))]
    out += [dict(dim=d, box='off', land='chaos', max_iters=3, seed=1), dict(dim=d, box='sym', land='bowl', cutoff=0.05, max_evals=150, seed=2)]
    return out + [dict(s, seed=6, repair=('limit', 'rand')[i % 2]) for i, s in enumerate(plans.settings(c, tier))]


def defs(c, tier):
    n = 250 if tier == 'quick' else 1500
    long = dict(dim=20, box='rect', land='bowl', max_evals=2000 if c.name != 'RandomSearch' else 700, max_iters=120, seed=8, alarm=90)
    return [long, dict(dim=3, box='rect', land='chaos', max_evals=n, seed=4), dict(dim=12, box='wide', land='slope', repair='rand', max_evals=n, seed=9), dict(dim=2, box='sym', land='bowl', max_iters=3, seed=6)]


HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.dirname(HERE)
HASHSEEDS = {'quick': ('1', '4242', 'random'), 'thorough': ('1', '2', '3', '99', '4242', 'random')}
GROUPS = 8


def jobs(tier):
    out = [('hash', tier, h, g) for h in HASHSEEDS[tier] for g in range(GROUPS)]
    out += [('hist', tier, c.id) for c in algos.DEFAULTS + algos.TABLE]
    return out


def full(r):
    """Everything observable of a run, as a list of labelled items."""
    ev = [(x.tobytes(), float(f)) for x, f in zip(r.prob.xs, r.prob.fs)]
    cb = [(e['k'], e['evals'], None if e['k'] in ('br', 'ar') else float(np.asarray(e['bf']).reshape(-1)[0])) for e in r.probe.log]
    res = (None if r.x is None else np.asarray(r.x, dtype=float).tobytes(), None if r.f is None else float(np.asarray(r.f).reshape(-1)[0]))
    return {'evaluations': ev, 'callbacks': cb, 'result': [res, r.task.iters, r.hang, repr(r.err) if r.err is not None else None]}


def diff(a, b, r0, r1):
    for k in ('evaluations', 'callbacks', 'result'):
        if a[k] != b[k]:
            if k == 'evaluations':
                n = next((i for i, (p, q) in enumerate(zip(a[k], b[k])) if p != q), min(len(a[k]), len(b[k])))
                g = lambda r: r.prob.xs[n] if n < len(r.prob.xs) else None
                return k, 'evaluation %d: %s / %s (%d and %d evaluations)' % (n + 1, g(r0), g(r1), len(a[k]), len(b[k]))
            return k, 'different %s: %s / %s' % (k, str(a[k])[-200:], str(b[k])[-200:])
    return None


def digest(c, spec):
    r = execute(c, spec, seed=spec['seed'], rng=None, deep=True)
    return hashlib.sha1(repr(full(r)).encode()).hexdigest(), r


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], hash(random.getstate()))


NEIGHBOURS = ('DifferentialEvolution', 'CuckooSearch', 'ParticleSwarmAlgorithm', 'MultipleTrajectorySearch', 'BatAlgorithm', 'GeneticAlgorithm')


class Clock:
    """Shift the clocks a program may read; real time goes on underneath."""
    def __init__(self, off):
        self.off = off

    def __enter__(self):
        self.old = (time.time, time.perf_counter, time.monotonic, time.time_ns)
        o, old = self.off, self.old
        time.time = lambda: old[0]() + o
        time.perf_counter = lambda: old[1]() + o
        time.monotonic = lambda: old[2]() + o
        time.time_ns = lambda: old[3]() + int(o * 1e9)

    def __exit__(self, *a):
        time.time, time.perf_counter, time.monotonic, time.time_ns = self.old


def run_job(job):
    o = Out()
    if job[0] == 'hash':
        return hash_job(o, job)
    _, tier, cid = job
    c = algos.get(cid)
    dflt = cid.endswith('/default')
    for i, spec in enumerate((defs if dflt else specs)(c, tier)):
        np.random.seed(1)
        random.seed(1)
        g0 = gstate()
        r0 = execute(c, spec, seed=spec['seed'], rng=None)
        if r0.err is not None or r0.hang is not None:
            o.note('runs that raised or hung (judged by C07)')
            continue
        if gstate() != g0:
            o.bad('%s/global' % c.name, 'the run used a global random generator [%s %s]' % (cid, spec), {'config': cid, 'spec': spec})
        a = full(r0)
        o.trace(r0, (cid, i))
        for h in ('again', 'world', 'sameclass', 'others', 'twins') if 'over' not in spec else ('world',):
            np.random.seed(1)
            random.seed(1)
            if h == 'again':
                r = execute(c, spec, seed=spec['seed'], rng=None)
            elif h == 'world':
                np.random.seed(977)
                random.seed(8)
                with Clock(3.7e8):
                    r = execute(c, spec, seed=spec['seed'], rng=None)
            elif h == 'sameclass':
                for s2 in (dict(dim=spec['dim'] + 1, box='off', land='chaosn', max_evals=45, repair='reflect'), dict(dim=spec['dim'], box='neg', land='bowl', opt=MAX, max_iters=2)):
                    execute(c, s2, seed=99, rng=None)
                r = execute(c, spec, seed=spec['seed'], rng=None)
            elif h == 'others':
                if i % 3 and not dflt:
                    continue
                for nb in NEIGHBOURS:
                    execute(algos.get(nb), dict(dim=spec['dim'] + 2, box='wide', land='slope', max_evals=30, repair='rand'), seed=5, rng=None)
                r = execute(c, spec, seed=spec['seed'], rng=None)
            else:
                first, second = c.build(seed=spec['seed']), c.build(seed=spec['seed'])
                from env import Probe
                r = twin(c, spec, second, first)
            o.trace(r, (cid, i))
            d = diff(a, full(r), r0, r)
            if d:
                o.bad('%s/%s-%s' % (c.name, h, d[0]), 'the run is not reproduced (%s): %s [%s %s]' % (h, d[1], cid, spec), {'config': cid, 'spec': spec, 'history': h})
    o.samples.append('%s: 5 histories before each of %d runs' % (cid, i + 1))
    return o


def twin(c, spec, alg, other):
    """Two objects built with the same seed; the other one runs first."""
    from env import Probe, Run, arm, disarm, make, Hang
    out = None
    for a in (other, alg):
        r = Run()
        r.spec, r.points, r.rng, r.hang, r.err, r.x, r.f, r.err_tb = spec, [], None, None, None, None, None, None
        r.prob, r.task = make(spec)
        r.probe = Probe(r.task)
        a.callbacks.append(r.probe)
        arm()
        try:
            try:
                r.x, r.f = a.run(r.task)
            finally:
                disarm()
        except Hang as e:
            r.hang = str(e)
        except Exception as e:
            r.err = e
        out = r
    return out


# ------------------------------------------------------------------ other interpreters
def group(tier, g):
    cs = [c for i, c in enumerate(algos.TABLE + algos.DEFAULTS) if i % GROUPS == g]
    out = []
    for c in cs:
        ss = defs(c, 'quick')[1:3] if c.id.endswith('/default') else specs(c, 'quick')[::4]
        out += [(c, s) for s in ss]
    return out


def digests(tier, g):
    return [digest(c, s)[0] for c, s in group(tier, g)]


def hash_job(o, job):
    _, tier, h, g = job
    here = digests(tier, g)
    env = dict(os.environ, PYTHONHASHSEED=h, MC_READY='1')
    code = ("import sys; sys.argv=['x']; sys.path[:0]=%r; import check; check.fresh_source(%r); import json, c08; "
            "import numpy as np, random; np.random.seed(%d); random.seed(5); print('DIGESTS'+json.dumps(c08.digests(%r,%d)))"
            % ([MC, HERE, os.path.dirname(MC)], os.path.join(os.path.realpath(os.environ.get('MC_REPO', '/repo')), 'src'), 100 + g, tier, g))
    p = subprocess.run([sys.executable, '-B', '-c', code], env=env, capture_output=True, text=True, timeout=600)
    line = [x for x in p.stdout.splitlines() if x.startswith('DIGESTS')]
    if not line:
        raise RuntimeError('other interpreter failed: %s' % p.stderr[-500:])
    there = json.loads(line[0][7:])
    for (c, s), a, b in zip(group(tier, g), here, there):
        o.execs += 2
        o.trans += 2
        o.outcomes.add(a)
        if a != b:
            o.bad('%s/interpreter' % c.name, 'another interpreter (hash seed %s) gives a different run [%s %s]' % (h, c.id, s), {'config': c.id, 'spec': s, 'hashseed': h})
    o.samples.append('%d runs repeated under PYTHONHASHSEED=%s' % (len(here), h))
    return o
