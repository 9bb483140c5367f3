"""C13: callbacks see one well-formed run, in registration order, with the same data."""
import numpy as np
import algos
import plans
from engine import Out
from env import CtlRNG, Hang, MAX, MIN, Probe, arm, disarm, make
from niapy.callbacks import Callback, CallbackList
from runprop import ASSUME

ID, LEVEL = 'C13', 'model_checking'
BOUNDS = {'quick': 'seven ways of registering up to three callbacks x 12 stopping criteria x 132 configurations + defaults, two consecutive runs each; runs of 150 iterations',
          'thorough': 'the same with every budget to 60 and every iteration limit to 10'}
ASSUMPTIONS = ASSUME
RULE = 'a state is a prefix of the sequence of notifications and evaluations'


class Rec(Callback):
    def __init__(self, ident, log):
        super().__init__()
        self.ident, self.log = ident, log
        self.task = None

    def before_run(self):
        self.log.append(('br', self.ident, self.task.evals, self.task.iters, getattr(self, 'algorithm', None)))

    def after_run(self):
        self.log.append(('ar', self.ident, self.task.evals, self.task.iters, getattr(self, 'algorithm', None)))

    def before_iteration(self, population, fitness, best_x, best_fitness, **params):
        self.log.append(('bi', self.ident, self.task.evals, self.task.iters, id(population), id(fitness), id(best_x), best_fitness, tuple(sorted(params))))

    def after_iteration(self, population, fitness, best_x, best_fitness, **params):
        self.log.append(('ai', self.ident, self.task.evals, self.task.iters, id(population), id(fitness), id(best_x), best_fitness, tuple(sorted(params))))


# registration ways: (description, function(recs) -> (constructor argument, later appended))
WAYS = [('one', 1, lambda r: ([r[0]], [])), ('two', 2, lambda r: ([r[0], r[1]], [])), ('three', 3, lambda r: (list(r), [])),
        ('list', 2, lambda r: (CallbackList([r[0], r[1]]), [])), ('append', 2, lambda r: ([r[0]], [r[1]])),
        ('none+append', 1, lambda r: (None, [r[0]])), ('nested', 3, lambda r: ([CallbackList([r[0], r[1]]), r[2]], []))]


def specs(cfg, tier):
    d = max(2, cfg.mindim)
    q = tier == 'quick'
    out = [dict(dim=d, land='chaos', max_evals=n) for n in ((1, 2, 5, 11, 24, 45) if q else range(1, 61))]
    out += [dict(dim=d, land='bowl', max_iters=n) for n in ((0, 1, 2, 4) if q else range(0, 11))]
    out += [dict(dim=d, land='bowl', cutoff=0.05, max_evals=120), dict(dim=d, land='chaos', max_evals=30, max_iters=2), dict(dim=d, land='chaosn', opt=MAX, max_evals=28)]
    return out


def long(cfg, tier):
    m = 1 if tier == 'quick' else 4
    return [dict(dim=max(3, cfg.mindim), land='chaosn', box='rect', max_iters=150 * m, max_evals=(700 if cfg.name == 'RandomSearch' else 2500) * m)]


def defs(cfg, tier):
    return [dict(dim=2, land='chaos', max_evals=n) for n in (3, 60, 240)] + [dict(dim=3, land='bowl', max_iters=n) for n in (0, 1, 3)]


def jobs(tier):
    return [(c.id, tier, w) for c in algos.TABLE + algos.DEFAULTS for w in range(len(WAYS))]


def check(log, ids, task, nobj, alg):
    """The recorded notifications against the protocol automaton."""
    k = len(ids)
    if len(log) % k:
        return [('groups', 'notifications do not come in groups of %d: %s' % (k, [(e[0], e[1]) for e in log[:8]]))]
    groups = [log[i:i + k] for i in range(0, len(log), k)]
    for g in groups:
        if [e[1] for e in g] != ids:
            return [('order', 'callbacks notified in order %s, registered %s' % ([e[1] for e in g], ids))]
        if len({e[0] for e in g}) != 1:
            return [('kinds', 'mixed notifications %s' % [e[0] for e in g])]
        if len({e[2:4] for e in g}) != 1 or (g[0][0] in ('bi', 'ai') and len({e[4:8] for e in g}) != 1):
            return [('data', 'callbacks received different data')]
        if g[0][0] in ('bi', 'ai') and len({e[8] for e in g}) != 1:
            return [('params', 'callbacks received different parameters')]
    ks = [g[0][0] for g in groups]
    n = task.iters
    out = []
    if ks != ['br'] + ['bi', 'ai'] * n + ['ar']:
        return [('sequence', '%d iterations but notifications %s' % (n, ks[:14]))]
    if groups[0][0][2] != 0:
        out.append(('early', 'run start notified after %d evaluations' % groups[0][0][2]))
    if groups[-1][0][2] != nobj:
        out.append(('late', 'run end notified at %d evaluations, %d were made' % (groups[-1][0][2], nobj)))
    body = groups[1:-1]
    for i in range(0, len(body), 2):
        if body[i][0][3] != i // 2 or body[i + 1][0][3] != i // 2:
            out.append(('iteration', 'notification pair %d sees iterations %d and %d' % (i // 2, body[i][0][3], body[i + 1][0][3])))
            break
        if i and body[i][0][2] != body[i - 1][0][2]:
            out.append(('between', 'evaluations happened between two iterations (%d -> %d)' % (body[i - 1][0][2], body[i][0][2])))
            break
    if body and groups[-1][0][2] != body[-1][0][2]:
        out.append(('between', 'evaluations happened after the last iteration'))
    for g in (groups[0], groups[-1]):
        if any(e[4] is not alg for e in g):
            out.append(('algorithm', 'a callback does not know its algorithm'))
            break
    return out


def run_job(job):
    cid, tier, w = job
    c = algos.get(cid)
    o = Out()
    name, k, way = WAYS[w]
    dflt = cid.endswith('/default')
    for spec in (defs if dflt else specs)(c, tier) + ([] if dflt or name != 'two' else long(c, tier)):
        log = []
        recs = [Rec(i, log) for i in range(k)]
        first, later = way(recs)
        try:
            alg = c.build(callbacks=first, seed=7)
            for r in later:
                alg.callbacks.append(r)
                r.set_algorithm(alg)
        except Exception as e:
            o.bad('register/%s' % name, 'registering callbacks raised %r' % e, {'config': cid, 'way': name})
            continue
        for rnd in (0, 1):
            prob, task = make(spec)
            for r in recs:
                r.task = task
            log.clear()
            arm()
            try:
                try:
                    alg.rng = CtlRNG(7)
                    alg.run(task)
                finally:
                    disarm()
            except (Hang, Exception):
                o.note('runs that raised or hung (judged by C07)')
                break
            o.execs += 1
            o.trans += len(log) + len(prob.fs)
            o.states.update(hash((cid, name, e[0], e[1], e[2], e[3])) for e in log)
            o.outcomes.add(hash(tuple((e[0], e[1], e[2], e[3]) for e in log)))
            for facet, det in check(log, list(range(k)), task, len(prob.fs), alg):
                o.bad('%s/%s' % (c.name, facet), '%s [%s %s way=%s run=%d]' % (det, cid, spec, name, rnd), {'config': cid, 'spec': spec, 'way': name, 'run': rnd})
    o.samples.append('%s, callbacks registered: %s' % (cid, name))
    return o
