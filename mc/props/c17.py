"""C17: benchmark problems against independent reference formulas on lattices."""
import itertools
import math

import numpy as np
import niapy.problems as NP
import reference as RF
from engine import Out

ID, LEVEL = 'C17', 'model_checking'
BOUNDS = {'quick': 'every problem x dimensions 1..13, 20, 30, 50, 100 (as far as defined) x parameter sets x all points of a lattice (up to 46656 points per dimension) plus every single-component excursion from five base points, points one float beside and at every place where a formula branches, and points up to ten times beyond the default domain',
          'thorough': 'dimensions to 100, finer lattices (to 531441 points per dimension)'}
ASSUMPTIONS = ['agreement up to rounding: relative 1e-9, absolute 1e-9 (1e-6 for HGBat near its cancellation, 1e-4 for Weierstrass, whose terms oscillate at the resolution of floats)',
               'no lattice point is better than the optimum; points between lattice points are not examined']
RULE = 'a state is a (problem, parameters, point) triple'


def classes():
    return [n for n in NP.__all__ if n != 'Problem' and isinstance(getattr(NP, n), type)]


def jobs(tier):
    out = []
    for n in classes():
        if n not in RF.REF:
            out.append((n, tier, None, None))
            continue
        for D in RF.dims(n, tier):
            out.append((n, tier, D, None))
            for i in range(len(RF.PARAMS.get(n, ()))):
                out.append((n, tier, D, i))
    return out


def build(name, D, kw):
    cls = getattr(NP, name)
    if name in RF.TWO:
        return cls(**kw)
    return cls(dimension=D, **kw)


def run_job(job):
    name, tier, D, pi = job
    o = Out()
    if D is None:
        o.note('problem without reference formula: %s' % name)
        return o
    ref, dom, lo_d, opt = RF.REF[name]
    kw = RF.PARAMS[name][pi] if pi is not None else {}
    atol = 1e-4 if name == 'Weierstrass' else 1e-9
    rep = {'problem': name, 'dimension': D, 'parameters': kw}

    def bad(facet, det, x=None):
        o.bad('%s/%s' % (name, facet), '%s [%s D=%s %s]' % (det, name, D, kw), dict(rep, x=None if x is None else list(x)))
    try:
        prob = build(name, D, kw)
    except Exception as e:
        bad('construct', 'constructor raised %r' % e)
        return o
    lo, hi = RF.domain(name, D)
    try:
        if not (np.array_equal(np.asarray(prob.lower, dtype=float), np.full(D, lo)) and np.array_equal(np.asarray(prob.upper, dtype=float), np.full(D, hi))):
            bad('domain', 'default domain %s .. %s, expected %s .. %s' % (prob.lower, prob.upper, lo, hi))
    except Exception as e:
        bad('domain', repr(e))
    n = 0
    best = None
    for x in itertools.chain(RF.lattice(name, D, tier), RF.special(name, D)):
        n += 1
        want = ref(x, D, kw)
        try:
            got = float(prob.evaluate(np.array(x, dtype=float)))
        except Exception as e:
            bad('raise', 'raised %r at %s' % (e, x), x)
            break
        if not (abs(got - want) <= (atol if name != 'HGBat' else 1e-6 + 1e-7 * D) + 1e-9 * abs(want)):
            facet = 'formula'
            if name == 'HappyCat' and abs(got - RF.happycat_known(x, D, kw)) <= 1e-9 + 1e-9 * abs(got):
                facet = 'sum-of-powers'
            bad(facet, '%r at %s, formula gives %r' % (got, list(x), want), x)
            if facet == 'formula':
                break
        if opt is not None and not kw and all(lo <= v <= hi for v in x):
            s = 1 if opt[0] == 'min' else -1
            fo = opt[2](D)
            if s * got < s * fo - opt[3] - 1e-9 * abs(fo):
                bad('better', 'value %r at %s is better than the optimum %r' % (got, list(x), fo), x)
    if opt is not None and not kw and not (name == 'Trid' and D == 1):
        xs = opt[1](D)
        fo = opt[2](D)
        try:
            got = float(prob.evaluate(np.array(xs, dtype=float)))
            if not abs(got - fo) <= opt[3] * max(1, D) + 1e-9 * abs(fo):
                facet = 'optimum'
                if name == 'HappyCat' and abs(got - RF.happycat_known(xs, D, kw)) <= 1e-9:
                    facet = 'sum-of-powers'
                bad(facet, 'value %r at the optimum %s, expected %r' % (got, xs, fo), xs)
        except Exception as e:
            bad('optimum', 'raised %r at the optimum' % e, xs)
    if name == 'Michalewicz' and not kw and D in (2, 5):
        if D == 2:
            got = float(prob.evaluate(np.array([2.202906, 1.570796])))
            if abs(got + 1.8013) > 1e-4:
                bad('optimum', 'value %r at the optimum, expected -1.8013' % got)
    o.execs = n
    o.trans = n
    o.states = set(range(n))
    o.outcomes = {hash((job, i)) for i in range(n)}
    o.samples.append('%s D=%d %s: %d points' % (name, D, kw, n))
    return o
