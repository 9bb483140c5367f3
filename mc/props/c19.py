"""C19: settings mean the same however and whenever they are given."""
import importlib
import itertools
import json
import os

import numpy as np
import algos
import altfn
from engine import Out
from env import CtlRNG, Hang, MAX, MIN, arm, disarm, make
from niapy.util import repair
from runprop import ASSUME

ID, LEVEL = 'C19', 'model_checking'
BOUNDS = {'quick': 'every configuration and every single setting varied to one or two other values x constructor / setter on a default object / on an object configured differently / after a run; all sequences of up to 3 operations from {set A, set B, read, run} before the final set and run; three worlds',
          'thorough': 'sequences of up to 4 operations, five worlds, longer runs'}
ASSUMPTIONS = ASSUME + ['settings are the ones accepted by both constructor and setter at the pinned commit (mc/settings.json)', 'all settings are given together; what happens to settings left out of a setter call is not prescribed']
RULE = 'a state is a prefix of the sequence of configuration operations and runs'
HERE = os.path.dirname(os.path.abspath(__file__))
try:
    with open(os.path.join(HERE, '..', 'settings.json')) as fh:
        SET = json.load(fh)
except FileNotFoundError:
    SET = {}


def dec(v):
    if isinstance(v, dict) and 'fn' in v:
        m, n = v['fn'].split(':')
        return getattr(importlib.import_module(m), n)
    if isinstance(v, dict) and 'seq' in v:
        s = [dec(x) for x in v['seq']]
        return tuple(s) if v['tuple'] else s
    return v


def full(cfg, r=None):
    """All settings of a configuration, given explicitly."""
    r = r or SET[cfg.name]
    out = {k: dec(v) for k, v in r['defaults'].items()}
    for k, v in cfg.kw.items():
        out[k] = v
    return out


def eqv(a, b):
    try:
        return bool(np.all(a == b)) and np.shape(a) == np.shape(b) or (a is b)
    except Exception:
        return a is b


DE, GA, ASO = 'niapy.algorithms.basic.de', 'niapy.algorithms.basic.ga', 'niapy.algorithms.other.aso'
FN = {'strategy': (DE, 'cross_best2'), 'crossover': (GA, 'two_point_crossover'), 'mutation': (GA, 'creep_mutation'), 'selection': (GA, 'roulette_selection'), 'age': (DE, 'bilinear'), 'combination': (ASO, 'sequential'), 'cooling_method': ('niapy.algorithms.other.sa', 'cool_linear')}
OWN = {'sexual_crossover': 'swap_crossover', 'brooding': 'middle_brooding', 'neighborhood_function': 'coordinate_neighborhood', 'distance': 'manhattan', 'd': 'manhattan', 'dn': 'manhattan'}
SPECIAL = {'num_of_prides': [3], 'mixture_ratio': [0.7], 'm': [2, 4], 'k': [3], 'hist_mem_size': [3], 'partition': [0.6], 'num_enabled': [1], 'lam': [7], 'mu': [5],
           'ngh': [3], 'bits_per_param': [8], 'tournament_size': [2, 3], 'n_chemotactic': [3], 'loudness': [0.7], 'p_max': [4, 2], 'population_size': None}


def alts(k, v):
    """Other legal values of a setting."""
    if SPECIAL.get(k) is not None and isinstance(v, (int, float)) and not isinstance(v, bool):
        return [a for a in SPECIAL[k] if a != v]
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, (int, np.integer)):
        return [v + 1]
    if isinstance(v, float):
        if v == 0.0:
            return [0.25]
        if not np.isfinite(v):
            return []
        return [v * 0.5, v * 0.9]
    if k in FN and callable(v):
        m = importlib.import_module(FN[k][0])
        a = getattr(m, FN[k][1], None)
        return [a] if a is not None and a is not v else []
    if k in OWN and callable(v):
        return [getattr(altfn, OWN[k])]
    if k == 'repair' and callable(v):
        return [repair.limit, repair.wang]
    if isinstance(v, (tuple, list)) and v and all(isinstance(x, float) or type(x) is int for x in v):
        return [type(v)(x * 0.5 for x in v), type(v)(reversed(v))]
    if k == 'local_searches' and isinstance(v, (tuple, list)):
        return [type(v)(list(v)[:1]), type(v)(list(v)[::-1])]
    if k == 'strategies' and isinstance(v, (tuple, list)):
        return [type(v)(list(v)[1:])]
    return []


def specs(cfg, tier):
    d = max(3, cfg.mindim)
    out = [dict(dim=d, land='bowl', box='rect', max_evals=70), dict(dim=d, land='chaosn', box='wide', max_evals=60), dict(dim=max(2, cfg.mindim), land='chaos', box='sym', max_evals=130)]
    if tier != 'quick':
        out += [dict(dim=max(2, cfg.mindim), land='slope', opt=MAX, box='sym', max_evals=150), dict(dim=5, land='plateau', box='sym', max_iters=12)]
    return out


def longspecs(cfg, tier):
    """Larger runs, for settings that do not show in small ones."""
    d = max(3, cfg.mindim)
    return [dict(dim=d, land='bowl', box='rect', max_iters=8), dict(dim=d, land='chaos', box='wide', max_evals=800), dict(dim=d, land='neg', box='sym', max_iters=12, max_evals=5000)]


def big(cfg, st):
    """The same settings with a population of realistic size."""
    out = dict(st)
    for k in ('population_size', 'mu'):
        if isinstance(out.get(k), int) and out[k] >= 4 and cfg.name not in SMALL:
            out[k] = 30
    return out


SMALL = ('BacterialForagingOptimization', 'KrillHerd', 'MultipleTrajectorySearch', 'MultipleTrajectorySearchV1')


def wild(k, v):
    """Values far away, for settings that show no effect nearby."""
    if isinstance(v, bool) or k == 'population_size':
        return []
    if isinstance(v, (int, np.integer)):
        return [0, 1, v * 10, 200, -v]
    if isinstance(v, float):
        if not np.isfinite(v):
            return [1.0, -1.0, 0.1]
        return [0.0, 1.0, v * 20, v * 0.01, -v]
    return []


def longtrace(c, st, s):
    try:
        return trace(c.cls(**big(c, st)), s)
    except Exception as e:
        return ('err', repr(e)[:80])


def init(o, c, tier, bad):
    """The initialisation function is a setting too."""
    base = full(c)
    st = dict(base, initialization_function=altfn.grid_init)
    for s in specs(c, tier):
        want = trace(c.cls(**st), s)
        plain = trace(c.cls(**base), s)
        o.trans += 2
        if want[0] == 'err':
            bad('raise', 'a run with a custom initialisation function failed: %s' % want[1])
            return
        if want == plain:
            bad('ignored', 'a custom initialisation function given to the constructor is not used')
            return
        for way in ('default', 'base', 'same', 'after run'):
            o.execs += 1
            o.trans += 1
            o.states.add(hash((c.id, 'init', way, s['land'])))
            a = c.cls() if way == 'default' else c.cls(**(st if way == 'same' else base))
            if way == 'after run':
                trace(a, s)
            a.set_parameters(**st)
            if a.get_parameters().get('initialization_function', altfn.grid_init) is not altfn.grid_init:
                bad('reported', 'a custom initialisation function is not reported (object %s)' % way)
                return
            t = trace(a, s)
            if t != want:
                bad('setting', 'initialisation function through the setter (object %s) runs differently from the constructor: %s vs %s' % (way, brief(t), brief(want)))
                return
        o.outcomes.add(hash(want))


def trace(alg, spec, seed=7):
    prob, task = make(spec)
    alg.rng = CtlRNG(seed)
    arm()
    try:
        try:
            r = alg.run(task)
        finally:
            disarm()
    except Hang as e:
        return ('err', 'hang')
    except Exception as e:
        return ('err', '%s %s' % (type(e).__name__, str(e)[:80]))
    return ('ok', tuple(x.tobytes() for x in prob.xs), None if r[0] is None else np.asarray(getattr(r[0], 'x', r[0]), dtype=float).tobytes(), float(r[1]))


def jobs(tier):
    out = []
    for c in algos.TABLE:
        if c.name not in SET:
            continue
        out.append(('seq', c.id, '', tier))
        for k in full(c):
            out.append(('one', c.id, k, tier))
        if SET[c.name].get('init'):
            out.append(('init', c.id, '', tier))
    return out


def reported(alg, want, keys, how, bad):
    try:
        p = alg.get_parameters()
    except Exception as e:
        bad('read', 'get_parameters raised %r (%s)' % (e, how))
        return
    for k in keys:
        if k in want and (k not in p or not eqv(p[k], want[k])):
            bad('reported', 'setting %s=%r is reported as %r (%s)' % (k, want[k], p.get(k, 'missing'), how))
            return


def one(o, c, k, tier, bad):
    """One setting varied on its own."""
    r = SET[c.name]
    base = full(c)
    sp = specs(c, tier)
    ref0 = None
    for alt in alts(k, base[k]):
        st = dict(base)
        st[k] = alt
        ctor = []
        for s in sp:
            try:
                a = c.cls(**st)
            except Exception as e:
                o.note('alternative rejected')
                ctor = None
                break
            reported(a, st, r['reported'], 'constructor', bad)
            ctor.append(trace(a, s))
        if ctor is None or any(t[0] == 'err' for t in ctor):
            o.note('alternative not usable')
            continue
        o.outcomes.add(hash(tuple(ctor)))
        for way in ('default', 'other', 'twice', 'after run'):
            for s, want in zip(sp, ctor):
                o.execs += 1
                o.trans += 2
                o.states.add(hash((c.id, k, repr(alt), way, s['land'])))
                try:
                    if way == 'default':
                        a = c.cls()
                    elif way == 'other':
                        a = c.cls(**base)
                    elif way == 'twice':
                        a = c.cls()
                        a.set_parameters(**base)
                    else:
                        a = c.cls(**base)
                        trace(a, s)
                    a.set_parameters(**st)
                except Exception as e:
                    bad('set', 'set_parameters raised %r (object %s, %s=%r)' % (e, way, k, alt))
                    return
                reported(a, st, r['reported'], 'setter', bad)
                t = trace(a, s)
                if t != want:
                    bad('setting', '%s=%r through the setter (object %s) runs differently from the constructor: %s vs %s' % (k, alt, way, brief(t), brief(want)))
                    return
        if k in r.get('longeffect', {}).get(c.id, ()):
            i = r['longeffect'][c.id][k]
            s = longspecs(c, tier)[i]
            o.execs += 1
            if longtrace(c, st, s) != longtrace(c, base, s):
                o.note('eff|%s|%s' % (c.name, k))
        if k in r.get('effective', ()):
            ref0 = ref0 or [trace(c.cls(**base), s) for s in sp]
            if ctor != ref0:
                o.note('eff|%s|%s' % (c.name, k))
    if k in r.get('wildeffect', {}).get(c.id, ()):
        alt, i = r['wildeffect'][c.id][k]
        s = (specs(c, 'quick') + longspecs(c, 'quick'))[i]
        st = dict(base)
        st[k] = alt
        want = trace(c.cls(**st), s)
        o.execs += 1
        if want[0] == 'ok' and want != trace(c.cls(**base), s):
            o.note('eff|%s|%s' % (c.name, k))
        a = c.cls()
        a.set_parameters(**st)
        reported(a, st, r['reported'], 'setter', bad)
        t = trace(a, s)
        if t != want:
            bad('setting', '%s=%r through the setter runs differently from the constructor: %s vs %s' % (k, alt, brief(t), brief(want)))


def brief(t):
    return t[1] if t[0] == 'err' else '%d evaluations, value %r' % (len(t[1]), t[3])


def seq(o, c, tier, bad):
    r = SET[c.name]
    A = full(c)
    B = dict(A)
    for k in A:            # a second configuration that differs in as many settings as possible
        if k == 'population_size':
            B[k] = A[k] + 2
            continue
        for alt in alts(k, A[k])[-1:]:
            t = dict(B)
            t[k] = alt
            try:
                x = c.cls(**t)
            except Exception:
                continue
            if all(trace(x, s)[0] == 'ok' for s in specs(c, tier)[:1]):
                B = t
    sp = specs(c, tier)
    s = sp[0]
    want = {'A': trace(c.cls(**A), s), 'B': trace(c.cls(**B), s)}
    if any(t[0] == 'err' for t in want.values()):
        o.note('configuration not usable')
        return
    cfgs = {'A': A, 'B': B}
    ops = ('A', 'B', 'get', 'run')
    for first in ('default', 'A', 'B'):
        for n in range(0, (3 if tier == 'quick' else 4) + 1):
            for q in itertools.product(ops, repeat=n):
                for last in ('A', 'B'):
                    cur = first if first != 'default' else None
                    a = c.cls() if cur is None else c.cls(**cfgs[cur])
                    hist = [first] + list(q) + ['set ' + last, 'run']
                    try:
                        for op in q:
                            o.trans += 1
                            if op in cfgs:
                                a.set_parameters(**cfgs[op])
                                cur = op
                            elif op == 'get':
                                p = a.get_parameters()
                                if cur:
                                    reported(a, cfgs[cur], r['reported'], 'history %s' % hist, bad)
                                p.clear()
                            elif cur is None:
                                continue        # default object: population sizes are too large to run here
                            else:
                                t = trace(a, s)
                                if t != want[cur]:
                                    bad('history', 'history %s: run differs from a fresh object with the same settings: %s vs %s' % (hist, brief(t), brief(want[cur])))
                                    return
                        if cur != last or n == 0:
                            a.set_parameters(**cfgs[last])
                        t = trace(a, s)
                    except Exception as e:
                        bad('set', 'history %s raised %r' % (hist, e))
                        return
                    reported(a, cfgs[last], r['reported'], 'history %s' % hist, bad)
                    o.execs += 1
                    o.trans += 2
                    o.states.add(hash((c.id, tuple(hist))))
                    if t != want[last]:
                        bad('history', 'history %s: run differs from a fresh object with the same settings: %s vs %s' % (hist, brief(t), brief(want[last])))
                        return
    o.outcomes.add(hash(want['A']))
    o.outcomes.add(hash(want['B']))


def run_job(job):
    kind, cid, k, tier = job
    c = algos.get(cid)
    o = Out()

    def bad(facet, det):
        o.bad('%s/%s' % (c.name, facet + ('/' + k if k else '')), '%s [%s]' % (det, cid), {'config': cid, 'setting': k})
    if kind == 'one':
        one(o, c, k, tier, bad)
    elif kind == 'init':
        init(o, c, tier, bad)
    else:
        seq(o, c, tier, bad)
    o.samples.append('%s %s %s' % (kind, cid, k))
    return o


def finish(tier, notes):
    """A setting that is known to matter must matter in at least one configuration."""
    seen = {tuple(n.split('|')[1:]) for n in notes if n.startswith('eff|')}
    for n in [n for n in notes if n.startswith('eff|')]:
        del notes[n]
    notes['settings with visible effect'] = len(seen)
    for name, r in SET.items():
        for k in sorted(set(r.get('effective', ())) | {k for v in r.get('longeffect', {}).values() for k in v}):
            if (name, k) not in seen:
                yield ('%s/effect/%s' % (name, k), 'varying the setting %s no longer changes the run' % k, {'algorithm': name, 'setting': k})
