"""C18: factory names and command-line options."""
import contextlib
import inspect
import io
import itertools

import numpy as np
import niapy.problems as NP
import algos
import reference as RF
from names import ALGORITHMS, PROBLEMS
from engine import Out
from env import MAX, MIN, arm, disarm, make
from niapy.task import Task
from niapy.util import get_argparser, get_args, get_args_dict
from niapy.util.factory import get_algorithm, get_problem

ID, LEVEL = 'C18', 'model_checking'
BOUNDS = {'quick': 'all documented names plus every exported class; problem names in five letter cases x argument forms; all request histories of length 3 over 5 names; all ordered selections of up to 3 of the 9 options x 2-3 values x spellings, plus all 9 options in 36 orders; 25 integers in 3 spellings for every option, lists of up to 39 entries with repetitions; tasks by name for every problem x dimensions x 7 x 7 bounds (zero included)',
          'thorough': 'request histories of length 4 over 8 names; ordered selections of up to 4 options'}
ASSUMPTIONS = ['the names of mc/names.py are the documented ones (further names are allowed)']
RULE = 'a state is a request history (factory) or an argument vector (parser)'

# option -> (destination, spellings, [(tokens after the option, value)])
OPTS = {
    'a': ('algo', ('-a', '--algorithm'), [(['SCA'], 'SCA'), (['jDE'], 'jDE'), (['x y'], 'x y')]),
    'p': ('problem', ('-p', '--problem'), [(['Sphere'], ['Sphere']), (['Ackley', 'Levy'], ['Ackley', 'Levy']), (['Whitley'], ['Whitley'])]),
    'd': ('dimension', ('-d', '--dimension'), [(['7'], 7), (['1'], 1), (['10'], 10)]),
    'e': ('max_evals', ('--max-evals',), [(['100'], 100), (['1'], 1), (['100000000000000000001'], 100000000000000000001)]),
    'i': ('max_iters', ('--max-iters',), [(['50'], 50), (['0'], 0), (['12345678'], 12345678)]),
    'n': ('population_size', ('-n', '--population-size'), [(['20'], 20), (['43'], 43), (['1'], 1)]),
    'r': ('run_type', ('-r', '--run-type'), [(['log'], 'log'), (['plot'], 'plot'), ([''], '')]),
    's': ('seed', ('--seed',), [(['1'], [1]), (['3', '2', '1'], [3, 2, 1]), (['0'], [0])]),
    'o': ('opt_type', ('--opt-type',), [(['max'], MAX), (['min'], MIN)]),
}
DEF = dict(algo='jDE', problem='Ackley', dimension=10, max_evals=np.inf, max_iters=np.inf, population_size=43, run_type='', seed=[None], opt_type=MIN)


def exported_problems():
    return [n for n in NP.__all__ if n != 'Problem' and isinstance(getattr(NP, n), type)]


def jobs(tier):
    out = [('algo', n) for n in sorted(set(ALGORITHMS) | {n for c, n in algos.library_classes().items() if c.__name__ == n})]
    out += [('prob', n) for n in sorted(PROBLEMS)]
    out += [('task', n) for n in sorted(PROBLEMS)] + [('values', '')]
    out += [('cover', '')] + [('hist', k, tier) for k in range(5)] + [('unknown', '')]
    out += [('args', ks, tier) for r in range(0, 4 if tier == 'quick' else 5) for ks in itertools.combinations(OPTS, r)]
    out += [('all', i, tier) for i in range(4)] + [('bad', '')]
    return out


def trace(alg, dim=3, n=60, seed=11):
    prob, task = make(dict(dim=dim, land='bowl', box='rect', max_evals=n))
    alg.rng = np.random.default_rng(seed)
    arm()
    try:
        try:
            alg.run(task)
        finally:
            disarm()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return ('err', type(e).__name__)
    return tuple(x.tobytes() for x in prob.xs)


def algo(o, name, bad):
    cls = algos.NS.get(name)
    if cls is None:
        bad('missing', 'documented algorithm %s is not exported' % name)
        return
    sets = [{}] + [dict(c.kw) for c in algos.TABLE if c.name == name]
    seen = []
    for kw in sets:
        for extra in ({}, {'seed': 5}):
            k = dict(kw, **extra)
            try:
                a = get_algorithm(name, **k)
                b = get_algorithm(name, **k)
            except Exception as e:
                bad('create', 'get_algorithm(%r, %s) raised %r' % (name, k, e))
                return
            o.execs += 1
            o.trans += 2
            o.states.add(hash((name, repr(sorted(k)))))
            if type(a) is not cls or type(b) is not cls:
                bad('class', 'get_algorithm(%r) gives a %s' % (name, type(a).__name__))
                return
            if a is b or any(a is s or b is s for s in seen):
                bad('fresh', 'get_algorithm(%r) gives the same object twice' % name)
                return
            seen += [a, b]
            ref = cls(**k)
            if extra:
                if [a.rng.integers(1 << 40) for _ in range(4)] != [ref.rng.integers(1 << 40) for _ in range(4)]:
                    bad('seed', 'get_algorithm(%r, seed=5) does not use the seed' % name)
            t = trace(a)
            if t != trace(ref):
                bad('arguments', 'get_algorithm(%r, %s) runs differently from %s(...)' % (name, k, name))
            if t != trace(b):
                bad('fresh', 'two objects made by get_algorithm(%r, %s) are not independent' % (name, k))
            o.outcomes.add(hash(t))
    # positional argument
    ps = [p for p in inspect.signature(cls.__init__).parameters.values() if p.name != 'self' and p.kind == p.POSITIONAL_OR_KEYWORD]
    if ps and ps[0].name in ('population_size', 'mu', 'num_sparks'):
        try:
            if trace(get_algorithm(name, 12)) != trace(cls(12)):
                bad('arguments', 'get_algorithm(%r, 12) runs differently from %s(12)' % (name, name))
        except Exception as e:
            bad('create', 'get_algorithm(%r, 12) raised %r' % (name, e))


def prob(o, name, bad):
    cls = getattr(NP, PROBLEMS[name], None)
    if cls is None:
        bad('missing', 'documented problem %s is not exported' % PROBLEMS[name])
        return
    two = PROBLEMS[name] in RF.TWO
    d = 4
    forms = [((), {})] + ([] if two else [((d,), {}), ((), {'dimension': d})])
    if PROBLEMS[name] not in ('Perm', 'Trid'):
        forms += [((), {'lower': -2.0, 'upper': 3.0})]
        if not two:
            forms += [((d, -2.0, 3.0), {}), ((d,), {'lower': [-1.0, -2.0], 'upper': [2.0, 3.0]}), ((), {'upper': 9.0, 'dimension': d})]
    forms += [((), k) for k in RF.PARAMS.get(PROBLEMS[name], [])]
    for nm in dict.fromkeys((name, name.upper(), name.title(), name.capitalize(), name[:-1] + name[-1].upper())):
        for args, kw in forms:
            o.execs += 1
            o.trans += 3
            o.states.add(hash((nm, repr(args), repr(kw))))
            ref = cls(*args, **kw)
            try:
                a, b = get_problem(nm, *args, **kw), get_problem(nm, *args, **kw)
            except Exception as e:
                bad('create', 'get_problem(%r, %s, %s) raised %r' % (nm, args, kw, e))
                return
            if type(a) is not cls or type(b) is not cls:
                bad('class', 'get_problem(%r) gives a %s' % (nm, type(a).__name__))
                return
            if a is b:
                bad('fresh', 'get_problem(%r) gives the same object twice' % nm)
            a.lower[...] = 0
            a.dimension = 77
            x = np.abs(np.asarray(ref.lower, dtype=float) * 0.3 + 0.7 * np.asarray(ref.upper, dtype=float))
            va, vr = b.evaluate(x), ref.evaluate(x)
            if not (b.dimension == ref.dimension and np.array_equal(b.lower, ref.lower) and np.array_equal(b.upper, ref.upper) and va == vr):
                bad('arguments', 'get_problem(%r, %s, %s): dimension %r, bounds %s..%s, value %r, expected %r, %s..%s, %r' % (nm, args, kw, b.dimension, b.lower, b.upper, va, ref.dimension, ref.lower, ref.upper, vr))
            o.outcomes.add(hash((nm, va)))


def task(o, name, bad):
    """A task asked for a problem by name hands on exactly what it was given."""
    cls = getattr(NP, PROBLEMS[name], None)
    if cls is None:
        return
    n = PROBLEMS[name]
    two, fixed = n in RF.TWO, n in ('Perm', 'Trid')
    dims = (None,) if two else (None, 1, 2, 7) if n != 'Trid' else (None, 2, 7)
    arr = lambda d, v: [v + 0.25 * i for i in range(d)]
    for d in dims:
        dd = 2 if two else d or 4
        lows = (None, 0, 0.0, -0.0, -1.5, arr(dd, -3.0), np.array(arr(dd, 0.0))) if not fixed else (None,)
        ups = (None, 0, 0.0, 2.5, 1e9, arr(dd, 4.0), np.array(arr(dd, 3.0))) if not fixed else (None,)
        for lo, up in itertools.product(lows, ups):
            if d is None and not two and (np.ndim(lo) or np.ndim(up)):
                continue
            kw = {k: v for k, v in (('dimension', d), ('lower', lo), ('upper', up)) if v is not None}
            try:
                ref = cls(**kw)
            except Exception:
                continue
            try:
                # keywords in either order, through the task, and through one built from the object itself
                made = [Task(name, **kw), Task(problem=name.upper(), **dict(reversed(list(kw.items())))), Task(name, d, lo, up), Task(ref), Task(problem=ref, dimension=9, lower=-7, upper=77)]
            except Exception as e:
                bad('task', 'Task(%r, %s) raised %r' % (name, kw, e))
                return
            o.execs += 1
            o.trans += len(made)
            o.states.add(hash((name, repr(kw), 'task')))
            x = np.asarray(ref.lower, dtype=float) * 0.3 + 0.7 * np.asarray(ref.upper, dtype=float)
            want = ref.evaluate(x)
            for i, t in enumerate(made):
                p = t.problem
                if type(p) is not cls or (p is ref) != (i > 2) or not (t.dimension == p.dimension == ref.dimension):
                    bad('task', 'Task(%r, %s): a %s of dimension %r' % (name, kw, type(p).__name__, t.dimension))
                    return
                if not all(np.array_equal(a, b) for a, b in ((p.lower, ref.lower), (p.upper, ref.upper), (t.lower, ref.lower), (t.upper, ref.upper))):
                    bad('task', 'Task(%r, %s): bounds %s..%s instead of %s..%s' % (name, kw, t.lower, t.upper, ref.lower, ref.upper))
                    return
                v = p.evaluate(x)
                if not (v == want or v != v and want != want):
                    bad('task', 'Task(%r, %s): value %r instead of %r' % (name, kw, v, want))
                    return
            if any(a.problem is b.problem for a, b in itertools.combinations(made[:3], 2)):
                bad('task', 'two tasks for %r share one problem' % name)
            o.outcomes.add(hash((name, repr(kw))))


def values(o, bad):
    """Many values of every option, alone and together with others; lists keep order, repetitions and length."""
    ints = [1, 2, 3, 9, 10, 42, 43, 44, 99, 100, 101, 255, 256, 999, 1000, 1001, 65535, 65536, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 10 ** 18]
    for v in ints:
        for opt, dest in (('-d', 'dimension'), ('--max-evals', 'max_evals'), ('--max-iters', 'max_iters'), ('-n', 'population_size')):
            for tok in (str(v), '+%d' % v, '00%d' % v):
                judge(o, [opt, tok], dict(DEF, **{dest: v}), bad)
        judge(o, ['--seed', str(v)], dict(DEF, seed=[v]), bad)
        judge(o, ['--seed', str(v), str(v), '0', str(v)], dict(DEF, seed=[v, v, 0, v]), bad)
        judge(o, ['-d', str(v), '-n', str(v), '--max-evals', str(v), '--max-iters', str(v)], dict(DEF, dimension=v, population_size=v, max_evals=v, max_iters=v), bad)
    for k in range(1, 40):
        ss = [(7 * i * i + 3) % 41 for i in range(k)]
        judge(o, ['--seed'] + [str(s) for s in ss] + ['-n', '5'], dict(DEF, seed=ss, population_size=5), bad)
        ps = [exported_problems()[(5 * i) % len(exported_problems())] for i in range(k)]
        judge(o, ['-p'] + ps + ['-d', '3'], dict(DEF, problem=ps, dimension=3), bad)
    for n in exported_problems():
        judge(o, ['-p', n, n, 'Ackley', n], dict(DEF, problem=[n, n, 'Ackley', n]), bad)
    for n in sorted(ALGORITHMS) + sorted({a for c in algos.NS.values() for a in getattr(c, 'Name', ())}) + ['', ' ', 'jde', 'JDE', 'a=b', 'é', '123', 'x' * 300]:
        judge(o, ['-a', n], dict(DEF, algo=n), bad)
        judge(o, ['--algorithm=' + n], dict(DEF, algo=n), bad)
    for r in ('', 'log', 'plot'):
        for ex in ([], ['--max-evals', '10'], ['--max-iters', '10'], ['--max-evals', '10', '--max-iters', '20'], ['--seed', '4'], ['--opt-type', 'max']):
            judge(o, ['-r', r] + ex, dict(DEF, run_type=r, max_evals=10 if '--max-evals' in ex else np.inf, max_iters=(20 if '20' in ex else 10) if '--max-iters' in ex else np.inf, seed=[4] if '--seed' in ex else [None], opt_type=MAX if 'max' in ex else MIN), bad)
    o.outcomes.add(1)


def cover(o, bad):
    known = set(PROBLEMS.values())
    for n in exported_problems():
        if n not in known:
            o.note('exported problem without documented name: %s' % n)
    o.execs = 1
    o.outcomes = {1}


def hist(o, k, tier, bad):
    an = ('DifferentialEvolution', 'GreyWolfOptimizer', 'SineCosineAlgorithm', 'BatAlgorithm', 'FireflyAlgorithm', 'GeneticAlgorithm')[:3 if tier == 'quick' else 5]
    pn = ('sphere', 'ackley', 'perm')[:2 if tier == 'quick' else 3]
    ops = [('a', n) for n in an] + [('p', n) for n in pn]
    ref = {}
    for n in an:
        ref[n] = trace(get_algorithm(n, population_size=5), n=14)
    for seq in itertools.product(ops, repeat=3 if tier == 'quick' else 4):
        if hash_(seq) % 5 != k:
            continue
        objs = []
        for t, n in seq:
            o.trans += 1
            ob = get_algorithm(n, population_size=5) if t == 'a' else get_problem(n, 3)
            if any(ob is q for q in objs):
                bad('fresh', 'request history %s gives one object twice' % (seq,))
                return
            if t == 'a':
                if trace(ob, n=14) != ref[n]:
                    bad('fresh', 'the last object of request history %s behaves differently from a first one' % (seq,))
                    return
                ob.set_parameters(population_size=9)
                ob.population_size = 9
            else:
                if ob.dimension != 3 or ob.evaluate(np.array([0.1, 0.2, 0.3])) != getattr(NP, PROBLEMS[n])(3).evaluate(np.array([0.1, 0.2, 0.3])):
                    bad('fresh', 'the last problem of request history %s is not as requested' % (seq,))
                    return
                ob.dimension = 9
                ob.lower = None
                ob.beta = 99.0
                ob.a = 99.0
            objs.append(ob)
        o.execs += 1
        o.states.add(hash_(seq))
    o.outcomes.add(k)


def hash_(seq):
    import zlib
    return zlib.crc32(repr(seq).encode())


def near(m):
    """Names that resemble m."""
    return [m[:-1], m[1:], m[:4], m[::-1], ' ' + m, m + ' ', m + '\n', '\t' + m, m.replace('_', '-'), m.replace('_', ' '), m.replace('_', ''), m + 's', m + '()',
            m.lower(), m.upper(), m.capitalize(), m + '2', 'the' + m, 'niapy.' + m, m + 'Algorithm', m.replace('Algorithm', ''), m.replace('Optimization', '')]


def unknown(o, bad):
    for f, names in ((get_algorithm, ALGORITHMS), (get_problem, PROBLEMS)):
        for n in ['', 'no such name', '?', 'Algorithm?', '__class__'] + [m + '_x' for m in names] + ['x_' + m for m in names] + [m + m for m in names] + [m + ' ' + m for m in names] + [v for m in names for v in near(m) if v not in names and (f is get_algorithm or v.lower() not in names)]:
            o.trans += 1
            o.execs += 1
            o.states.add(hash((f.__name__, n)))
            try:
                r = f(n)
            except KeyError:
                continue
            except Exception as e:
                bad('unknown', '%s(%r) raised %r instead of KeyError' % (f.__name__, n, e))
                return
            bad('unknown', '%s(%r) gave %r' % (f.__name__, n, r))
            return
    o.outcomes.add(1)


def eq(a, b):
    return type(a) is type(b) and a == b


def parse(argv):
    err = io.StringIO()
    res = []
    for f in (get_args_dict, lambda v: dict(vars(get_args(v))), lambda v: dict(vars(get_argparser().parse_args(v)))):
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            try:
                res.append(f(list(argv)))
            except SystemExit as e:
                res.append('rejected')
            except Exception as e:
                res.append(repr(e))
    return res


def judge(o, argv, exp, bad):
    o.execs += 1
    o.trans += 3
    o.states.add(hash(tuple(argv)))
    for who, d in zip(('get_args_dict', 'get_args', 'get_argparser'), parse(argv)):
        if not isinstance(d, dict):
            bad('parse', '%s(%s): %s' % (who, argv, d))
            return
        for k, v in exp.items():
            if k not in d or not eq(d[k], v):
                bad('parse', '%s(%s): %s is %r, expected %r' % (who, argv, k, d.get(k, 'missing'), v))
                return
        # a caller may change what it received
        if isinstance(d.get('seed'), list):
            d['seed'].append(99)
        if isinstance(d.get('problem'), list):
            d['problem'].append('x')


def args(o, ks, tier, bad):
    for order in itertools.permutations(ks):
        for vals in itertools.product(*[range(len(OPTS[k][2])) for k in order]):
            sp = [OPTS[k][1] for k in order]
            spellings = itertools.product(*sp) if len(ks) <= 2 else [tuple(s[(i + vals[i]) % len(s)] for i, s in enumerate(sp))]
            for sps in spellings:
                for eqform in ((0, 1) if len(ks) <= 2 else (0,)):
                    argv, exp = [], dict(DEF, seed=[None])
                    for k, v, s in zip(order, vals, sps):
                        toks, val = OPTS[k][2][v]
                        if eqform and s.startswith('--') and len(toks) == 1 and toks[0]:
                            argv.append('%s=%s' % (s, toks[0]))
                        else:
                            argv += [s] + toks
                        exp[OPTS[k][0]] = val
                    judge(o, argv, exp, bad)
                    # the same option again: the last one counts
                    if len(ks) == 1:
                        for toks, val in OPTS[ks[0]][2]:
                            judge(o, argv + [sps[0]] + toks, dict(exp, **{OPTS[ks[0]][0]: val}), bad)
    o.outcomes.add(hash(ks))


def allopts(o, i, tier, bad):
    ks = list(OPTS)
    for rot in range(len(ks)):
        order = ks[rot:] + ks[:rot]
        if i % 2:
            order = order[::-1]
        if i // 2:
            order = order[::2] + order[1::2]
        argv, exp = [], dict(DEF)
        for j, k in enumerate(order):
            toks, val = OPTS[k][2][(rot + j) % len(OPTS[k][2])]
            argv += [OPTS[k][1][j % len(OPTS[k][1])]] + toks
            exp[OPTS[k][0]] = val
        judge(o, argv, exp, bad)
    o.outcomes.add(i)


def rejects(o, bad):
    for argv in (['-d', 'x'], ['-d', '1.5'], ['--max-evals', 'many'], ['--max-iters', '1e3'], ['-n', 'ten'], ['-r', 'print'], ['--seed', 'a'], ['--seed'], ['-p', 'NoSuchProblem'], ['-d'], ['--nonsense', '1'], ['stray']):
        o.execs += 1
        o.trans += 3
        o.states.add(hash(tuple(argv)))
        for who, d in zip(('get_args_dict', 'get_args', 'get_argparser'), parse(argv)):
            if isinstance(d, dict):
                bad('reject', '%s(%s) was accepted: %s' % (who, argv, d))
    for n in exported_problems():
        judge(o, ['-p', n], dict(DEF, problem=[n]), bad)
    for v in ('maximum', 'MAX', '', 'minimize'):        # anything else is taken as minimisation
        judge(o, ['--opt-type', v], dict(DEF, opt_type=MIN), bad)
    o.outcomes.add(1)


def run_job(job):
    o = Out()

    def bad(facet, det):
        o.bad('%s/%s' % (job[0] if job[0] in ('args', 'values', 'all', 'bad', 'hist') else job[1] or job[0], facet), det, {'job': list(job)})
    k = job[0]
    if k == 'algo':
        algo(o, job[1], bad)
    elif k == 'prob':
        prob(o, job[1], bad)
    elif k == 'task':
        task(o, job[1], bad)
    elif k == 'values':
        values(o, bad)
    elif k == 'cover':
        cover(o, bad)
    elif k == 'hist':
        hist(o, job[1], job[2], bad)
    elif k == 'unknown':
        unknown(o, bad)
    elif k == 'args':
        args(o, job[1], job[2], bad)
    elif k == 'all':
        allopts(o, job[1], job[2], bad)
    else:
        rejects(o, bad)
    o.samples.append(str(job))
    return o
