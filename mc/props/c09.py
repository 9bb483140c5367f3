"""C09: runs that overlap in time do not influence each other."""
import sys
import threading

import numpy as np
import algos
import plans
from engine import Out
from env import CtlRNG, Hang, MAX, MIN, MonTask, Obj, Probe, REPAIRS, arm, box, disarm, landscape
from niapy.problems import Problem

ID, LEVEL = 'C09', 'model_checking'
BOUNDS = {'quick': 'two threads per pair: all schedules with at most two preemptions at evaluations and callbacks (10 evaluations each), all with one preemption at 24 evaluations, periodic alternation at 60; every nesting point; every configuration with itself and with two others, separate and shared problem; every setting varied under two alternations; 400 evaluations under three schedules; defaults with one preemption at 8 points',
          'thorough': 'two preemptions at 24 evaluations, three preemptions at 8, preemption also at every random draw'}
ASSUMPTIONS = ['switching happens at objective evaluations, callbacks and (thorough) random draws, not inside library code']
RULE = 'a state is a scheduling decision point reached under a schedule prefix'


class Abort(BaseException):
    pass


class Sched:
    """Baton passing: exactly one of two threads runs; switches follow the segment list."""

    def __init__(self, start, segs):
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.cur, self.segs, self.k, self.n = start, list(segs), 0, 0
        self.total = 0
        self.points = [0, 0]
        self.abort = False

    def wait(self, i):
        if not self.sem[i].acquire(timeout=30):
            self.abort = True
            raise Abort()
        if self.abort:
            raise Abort()

    def point(self, i):
        self.points[i] += 1
        self.total += 1
        self.n += 1
        if self.k < len(self.segs) and self.n > self.segs[self.k]:
            self.k += 1
            self.n = 1
            j = 1 - i
            if not self.done[j]:
                self.cur = j
                self.sem[j].release()
                self.wait(i)

    def finish(self, i):
        self.done[i] = True
        j = 1 - i
        if not self.done[j]:
            self.cur = j
            self.n = 0
            self.k += 1
            self.sem[j].release()


class Shared(Problem):
    """One problem object for both runs; records per thread."""

    def __init__(self, dim, lo, hi, fn):
        super().__init__(dim, lo, hi)
        self.fn = fn
        self.local = threading.local()

    def _evaluate(self, x):
        rec = self.local.rec
        rec.hook()
        rec.xs.append(np.array(x, dtype=float, copy=True))
        v = self.fn(rec.xs[-1])
        rec.fs.append(v)
        return v


class Rec:
    def __init__(self):
        self.xs, self.fs = [], []
        self.hook = lambda: None


class DrawRNG(CtlRNG):
    point = None

    def _pt(self, kind, alts):
        if self.point is not None:
            self.point()
        return super()._pt(kind, alts)


def prepare(cfg, spec, seed, point=None, shared=None, draws=False):
    """(algorithm, task, record) of one participant."""
    dim = spec['dim']
    lo, hi = box(spec.get('box', 'rect'), dim)
    fn = landscape(spec.get('land', 'chaos'), dim, lo, hi)
    rec = Rec()
    if shared is not None:
        prob = shared
    else:
        prob = Shared(dim, lo, hi, fn)
    if point is not None:
        rec.hook = point
    kw = {k: spec[k] for k in ('max_evals', 'max_iters') if k in spec}
    task = MonTask(problem=prob, optimization_type=spec.get('opt', MIN), repair_function=REPAIRS[spec.get('repair', 'limit')], **kw)
    probe = Probe(task, deep=False)
    if point is not None:
        probe.hook = lambda kind, n: point()
    alg = cfg.build(callbacks=[probe], seed=seed)
    alg.rng = DrawRNG(seed)
    if draws and point is not None:
        alg.rng.point = point
    return alg, task, rec, prob


def solo(cfg, spec, seed):
    alg, task, rec, prob = prepare(cfg, spec, seed)
    prob.local.rec = rec
    arm()
    try:
        try:
            x, f = alg.run(task)
        finally:
            disarm()
    except (Hang, Exception):
        return None
    return result(rec, x, f, task)


def result(rec, x, f, task):
    return {'points': [(a.tobytes(), float(b)) for a, b in zip(rec.xs, rec.fs)],
            'result': (None if x is None else np.asarray(x, dtype=float).tobytes(), None if f is None else float(np.asarray(f).reshape(-1)[0])),
            'counts': (task.evals, task.iters, float(np.asarray(task.x_f).reshape(-1)[0]))}


def pair(parts, start, segs, share, draws):
    """Run both participants under the schedule; results and scheduler."""
    sch = Sched(start, segs)
    shared = None
    if share:
        cfg, spec, seed = parts[0]
        lo, hi = box(spec.get('box', 'rect'), spec['dim'])
        shared = Shared(spec['dim'], lo, hi, landscape(spec.get('land', 'chaos'), spec['dim'], lo, hi))
    made = [prepare(c, s, sd, point=(lambda i=i: sch.point(i)), shared=shared, draws=draws) for i, (c, s, sd) in enumerate(parts)]
    bounds = [(m[3].lower.copy(), m[3].upper.copy()) for m in made]
    out = [None, None]

    def body(i):
        alg, task, rec, prob = made[i]
        try:
            sch.wait(i)
            prob.local.rec = rec
            x, f = alg.run(task)
            out[i] = result(rec, x, f, task)
        except BaseException as e:
            out[i] = repr(e)
        finally:
            sch.finish(i)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
    for t in ts:
        t.start()
    sch.sem[start].release()
    for t in ts:
        t.join(60)
    touched = [not (np.array_equal(b[0], m[3].lower) and np.array_equal(b[1], m[3].upper)) for b, m in zip(bounds, made)]
    return out, sch, any(touched)


def nested(outer, inner, at):
    """The inner run happens inside the objective of the outer one at evaluation `at`."""
    co, so, sdo = outer
    state = {'n': 0, 'in': None}
    alg, task, rec, prob = prepare(co, so, sdo)

    def hook():
        state['n'] += 1
        if state['n'] == at:
            ia, it, ir, ip = prepare(inner[0], inner[1], inner[2])
            ip.local.rec = ir
            x, f = ia.run(it)
            state['in'] = result(ir, x, f, it)
    rec.hook = hook
    prob.local.rec = rec
    arm()
    try:
        x, f = alg.run(task)
    finally:
        disarm()
    return result(rec, x, f, task), state['in']


def snapshot():
    """Class-level and module-level values of the library that a run could share with others."""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if not name.startswith('niapy') or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith('__'):
                continue
            if isinstance(v, (int, float, str, list, tuple, np.ndarray, set)):
                out[name, k] = repr(v)
            elif isinstance(v, np.random.Generator):
                out[name, k] = repr(v.bit_generator.state)
            elif isinstance(v, type) and v.__module__ == name:
                for a, b in list(vars(v).items()):
                    if a.startswith('__'):
                        continue
                    if isinstance(b, dict):          # entries may be added (a cache), not changed
                        out.update({(name, k, a, repr(i)): repr(w) for i, w in b.items()})
                    elif isinstance(b, (int, float, str, list, tuple, np.ndarray, set)):
                        out[name, k, a] = repr(b)
                    f = getattr(b, '__func__', b)
                    if getattr(f, '__defaults__', None):
                        out[name, k, a, 'defaults'] = repr([d for d in f.__defaults__ if isinstance(d, (int, float, str, list, tuple, dict, np.ndarray, set))])
            elif getattr(v, '__defaults__', None) and getattr(v, '__module__', '') == name:
                out[name, k, 'defaults'] = repr([d for d in v.__defaults__ if isinstance(d, (int, float, str, list, tuple, dict, np.ndarray, set))])
    return out


def partners(c):
    """Itself, the next configuration of the same file (or same base class), and a fixed stranger."""
    rel = [k for k in algos.TABLE if k.name != c.name and (issubclass(k.cls, c.cls) or issubclass(c.cls, k.cls) or k.cls.__module__ == c.cls.__module__)]
    out = [c]
    if rel:
        out.append(rel[0])
        if len(rel) > 2:
            out.append(rel[len(rel) // 2])
    out.append(algos.get('MultipleTrajectorySearch' if c.name != 'MultipleTrajectorySearch' else 'CuckooSearch'))
    return out


def schedules(n0, n1, preempt, stride=1):
    out = []
    for start, na, nb in ((0, n0, n1), (1, n1, n0)):
        for a in range(0, na + 1, stride):
            out.append((start, (a,)))
            if preempt >= 2:
                for b in range(1, nb + 1, stride):
                    out.append((start, (a, b)))
                    if preempt >= 3:
                        for d in range(1, na - a + 1, stride):
                            out.append((start, (a, b, d)))
    return out


def jobs(tier):
    out = []
    for c in algos.TABLE:
        for j, p in enumerate(partners(c)):
            kinds = ['one', 'alt', 'nest'] + (['two'] if j == 0 or (tier != 'quick' and j < 3) else [])
            if tier != 'quick' and j == 0:
                kinds += ['three', 'draw']
            for k in kinds:
                out.append((k, tier, c.id, p.id, False))
            if j == 0:
                out.append(('one', tier, c.id, p.id, True))
    for c in algos.TABLE:
        n = len(plans.values(c))
        out += [('settings', tier, c.id, c.id, (i, i + 12)) for i in range(0, n, 12)]
        out.append(('long', tier, c.id, c.id, False))
    for c in algos.DEFAULTS:
        out.append(('def', tier, c.id, c.id, False))
    return out


def run_job(job):
    kind, tier, ida, idb, share = job
    o = Out()
    if kind == 'settings':
        c = algos.get(ida)
        for k, v in plans.values(c)[share[0]:share[1]]:
            study(o, 'settings', tier, algos.Cfg(c.name, c.cls, '%s=%r' % (k, v), mindim=c.mindim, **dict(c.kw, **{k: v})), c, False)
            study(o, 'settings', tier, c, algos.Cfg(c.name, c.cls, '%s=%r' % (k, v), mindim=c.mindim, **dict(c.kw, **{k: v})), True)
        o.samples.append('%s: settings %s' % (ida, share))
        return o
    return study(o, kind, tier, algos.get(ida), algos.get(idb), share)


def study(o, kind, tier, ca, cb, share):
    q = tier == 'quick'
    ida, idb = ca.id, cb.id
    d = max(2, ca.mindim, cb.mindim)
    n = {'one': 24 if q else 50, 'two': 10 if q else 24, 'three': 8, 'alt': 60 if q else 150, 'nest': 20 if q else 50, 'draw': 14, 'def': 130, 'settings': 36, 'long': 400 if q else 2000}[kind]
    sa = dict(dim=d, box='rect', land='chaos', max_evals=n)
    sb = dict(dim=d, box='rect', land='chaos', max_evals=n) if share else dict(dim=d + 1, box='off', land='bowl', max_evals=n, opt=MAX, repair='reflect')
    parts = [(ca, sa, 7), (cb, sb, 8)]
    want = [solo(*p) for p in parts]
    if any(w is None for w in want):
        o.note('runs that raised or hung (judged by C07)')
        return o
    again = [solo(*p) for p in parts]
    if again != want:
        o.note('runs that are not reproducible alone (judged by C08)')
        return o
    before = snapshot()

    def bad(facet, det, rep):
        o.bad('%s/%s' % (ca.name, facet), det + ' [%s with %s, %s]' % (ida, idb, rep), dict(rep, a=ida, b=idb, spec_a=sa, spec_b=sb))

    def judge(got, rep):
        for i in (0, 1):
            if got[i] is None or isinstance(got[i], str):
                bad('fails', 'run %d ended with %s' % (i, got[i]), rep)
                continue
            for k in ('points', 'result', 'counts'):
                if got[i][k] != want[i][k]:
                    m = ''
                    if k == 'points':
                        t = next((t for t, (u, v) in enumerate(zip(got[i][k], want[i][k])) if u != v), min(len(got[i][k]), len(want[i][k])))
                        m = ' from evaluation %d on' % (t + 1)
                    bad(k, 'run %d (%s) has different %s than alone%s' % (i, parts[i][0].id, k, m), rep)
                    break
    if kind == 'nest':
        for (x, y) in ((0, 1), (1, 0)) if ida != idb else ((0, 1),):
            for at in range(1, n + 1):
                try:
                    g, h = nested(parts[x], parts[y], at)
                except (Hang, Exception) as e:
                    bad('fails', 'nested run raised %r' % e, {'nest_at': at, 'outer': x})
                    continue
                o.execs += 1
                o.trans += len(g['points']) + (len(h['points']) if h else 0)
                o.states.add(hash((ida, idb, x, at)))
                got = [None, None]
                got[x], got[y] = g, h
                if h is None:
                    got[y] = want[y]
                judge(got, {'nest_at': at, 'outer': x})
    else:
        draws = kind == 'draw'
        probe = pair(parts, 0, (), share, draws)[1]
        n0, n1 = probe.points
        if kind == 'def':
            scheds = [(s, (a,)) for s in (0, 1) for a in (1, 20, 49, 51, 70, 99, 101, 125)] + [(0, (k,) * 600) for k in (1, 7)]
        elif kind == 'alt':
            scheds = [(s, (k,) * 2000) for s in (0, 1) for k in (1, 2, 3, 5, 8)] + [(0, (1, 2, 3) * 600)]
        elif kind == 'settings':
            scheds = [(0, (1,) * 2000), (1, (7, 2) * 200)]
        elif kind == 'long':
            scheds = [(0, (1,) * 9000), (1, (11,) * 900), (0, (n0 // 2, n1 // 2))]
        elif kind == 'draw':
            scheds = schedules(n0, n1, 1)
        else:
            scheds = schedules(n0, n1, {'one': 1, 'two': 2, 'three': 3}[kind])
        for start, segs in scheds:
            got, sch, touched = pair(parts, start, segs, share, draws)
            o.execs += 1
            o.trans += sch.total
            o.states.update(hash((ida, idb, kind, start, segs[:i])) for i in range(min(len(segs), 3) + 1))
            o.outcomes.add(hash((ida, idb, start, segs[:3])))
            rep = {'start': start, 'segments': segs[:8], 'shared_problem': share}
            if touched:
                bad('bounds', 'a run changed the bounds of its problem', rep)
            judge(got, rep)
            if len(o.viol) > 3:
                break
    after = snapshot()
    for k in before:
        if after.get(k) != before[k]:
            bad('shared', 'runs changed %s: %s -> %s' % ('.'.join(k), before[k][:80], str(after.get(k))[:80]), {})
            break
    o.samples.append('%s with %s: %s' % (ida, idb, kind))
    return o
