"""Closed environment for the real NiaPy code: objective, task monitor, random source, callbacks.

Everything here goes through public seams only (a user-written Problem, a Task subclass, the
documented ``rng`` attribute, a Callback); nothing in niapy is patched.
"""
import os
os.environ.setdefault('MPLBACKEND', 'Agg')
import hashlib
import logging
import signal
import struct
import warnings

import numpy as np

warnings.filterwarnings('ignore')
np.seterr(all='ignore')

from niapy.callbacks import Callback
from niapy.problems import Problem
from niapy.task import OptimizationType, Task
from niapy.algorithms import Individual
from niapy.util import repair as repairs

logging.disable(logging.CRITICAL)

MIN, MAX = OptimizationType.MINIMIZATION, OptimizationType.MAXIMIZATION


class Hang(BaseException):
    """The run did not come back within its step or time budget."""


class Injected(Exception):
    """Fault injected by the explorer."""


# ---------------------------------------------------------------- objective functions (pure in x)
def _h(x, salt=0):
    d = hashlib.blake2b(np.ascontiguousarray(x, dtype=float).tobytes() + bytes([salt]), digest_size=8).digest()
    return struct.unpack('<Q', d)[0] / 2.0 ** 64


LANDSCAPES = {
    'bowl': lambda x: float(np.sum((x - 0.3) ** 2)),                 # >=0, smooth, optimum inside
    'neg': lambda x: float(np.sum((x - 0.3) ** 2)) - 1000.0,         # everywhere negative
    'slope': lambda x: float(np.sum(x)),                             # optimum in a corner, mixed sign
    'flat0': lambda x: 0.0,                                          # all solutions tie, zero fitness
    'flat7': lambda x: 7.0,
    'plateau': lambda x: float(np.floor(np.sum(np.abs(x)))),         # many ties
    'chaos': lambda x: 10.0 * _h(x),                                 # pseudo random but pure
    'chaosn': lambda x: 10.0 * _h(x) - 5.0,
    'valley': lambda x: float(np.sum((x - 0.3) ** 2 * (1 + 0.5 * np.sin(7 * x))) + 0.3 * abs(x[0])),     # >=0, several valleys
}
# what else an objective may answer: other types of numbers, other magnitudes
ANSWERS = {
    'denormal': lambda x: float(np.sum((x - 0.3) ** 2)) * 1e-310,
    'denormaln': lambda x: -float(np.sum((x - 0.3) ** 2)) * 1e-310,
    'huge': lambda x: (_h(x) - 0.5) * 1e300,
    'hugebowl': lambda x: float(np.sum((x - 0.3) ** 2)) * 1e290,
    'steps': lambda x: 10.0 ** (-300 + 600 * _h(x)),
    'close': lambda x: 1.0 + _h(x) * 1e-13,
    'closen': lambda x: -1e6 - _h(x) * 1e-8,
    'two': lambda x: 0.0 if _h(x) < 0.5 else 1e300,
    'negzero': lambda x: -0.0 if _h(x) < 0.5 else 0.0,
    'int': lambda x: int(_h(x) * 10) - 5,
    'intbowl': lambda x: int(np.sum(np.abs(x)) * 3),
    'bigint': lambda x: 10 ** 25 + int(_h(x) * 10 ** 25),
    'npint': lambda x: np.int64(np.sum(np.abs(x)) * 3),
    'float32': lambda x: np.float32(np.sum((x - 0.3) ** 2)),
    'bool': lambda x: bool(_h(x) < 0.5),
    'zerodim': lambda x: np.array(float(np.sum((x - 0.3) ** 2))),
    'mixed': lambda x: int(_h(x) * 10) if _h(x, 1) < 0.5 else _h(x) * 10,
}
LANDSCAPES.update(ANSWERS)


def f64(fn):
    return lambda x: np.float64(fn(x))


# ---------------------------------------------------------------- problem under test
class Obj(Problem):
    """User-written problem: records every call, answers from a pure function or a scripted answerer."""

    def __init__(self, dim, lower, upper, fn, answer=None, cap=None):
        super().__init__(dim, lower, upper)
        self.fn = fn
        self.answer = answer          # optional callable(k, x, memo) -> value, memoised on x
        self.xs, self.fs = [], []
        self.hook = None              # called before every evaluation with its 1-based index
        self.memo = {}
        self.bad_type = None
        self.cap = cap

    def _evaluate(self, x):
        k = len(self.xs) + 1
        if self.hook is not None:
            self.hook(k, x)
        if not isinstance(x, np.ndarray) and self.bad_type is None:
            self.bad_type = repr(type(x))
        xc = np.array(x, dtype=float, copy=True)
        if self.answer is not None:
            key = xc.tobytes()
            if key not in self.memo:
                self.memo[key] = self.answer(k, xc, self)
            v = self.memo[key]
        else:
            v = self.fn(xc)
        self.xs.append(xc)
        self.fs.append(v)
        if self.cap is not None and len(self.xs) > self.cap:
            raise Hang('objective cap')
        return v


class MonTask(Task):
    """Task that counts requests (also the ones made after the stop) and turns endless runs into Hang."""

    after_stop = 0
    calls = 0
    call_cap = 120000
    post_cap = 60000

    def eval(self, x):
        self.calls += 1
        if self.stopping_condition():
            self.after_stop += 1
            if self.after_stop > self.post_cap:
                raise Hang('keeps evaluating after stop')
        if self.calls > self.call_cap:
            raise Hang('evaluation cap')
        return super().eval(x)


# ---------------------------------------------------------------- random source
EPS = 2.0 ** -53


class CtlRNG(np.random.Generator):
    """Generator whose n-th answer can be replaced by an extreme but legal one.

    Default answers come from a seeded stream; ``dev`` maps draw index -> alternative.  Each draw
    (method call) is one choice point; its number of alternatives is recorded in ``points``.
    """

    def __new__(cls, seed, dev=None, log=None):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, seed, dev=None, log=None):
        super().__init__(np.random.PCG64(seed))
        self.dev = dev or {}
        self.n = 0
        self.points = []      # (kind, alternatives)
        self.used = {}
        self.cap = 400000

    def _pt(self, kind, alts):
        i = self.n
        self.n += 1
        if i > self.cap:
            raise Hang('random draw cap')
        self.points.append((kind, alts))
        a = self.dev.get(i, 0)
        if a:
            if a > alts:
                a = 0
            else:
                self.used[i] = (kind, a)
        return a

    def random(self, size=None, dtype=np.float64, out=None):
        a = self._pt('random', 2)
        r = super().random(size=size, dtype=dtype, out=out)
        if a:
            v = 0.0 if a == 1 else 1.0 - EPS
            if np.ndim(r) == 0:
                return v
            r[...] = v
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        a = self._pt('uniform', 2)
        r = super().uniform(low, high, size)
        if a:
            lo, hi = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
            v = lo + (hi - lo) * (0.0 if a == 1 else 1.0 - EPS)
            if np.ndim(r) == 0:
                return float(v)
            r[...] = v
        return r

    def _gauss(self, kind, loc, scale, r):
        a = self._pt(kind, 3)
        if a:
            z = (-4.5, 4.5, 1e-3)[a - 1]
            v = np.asarray(loc, dtype=float) + z * np.asarray(scale, dtype=float)
            if np.ndim(r) == 0:
                return float(v)
            r[...] = v
        return r

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._gauss('normal', loc, scale, super().normal(loc, scale, size))

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self._gauss('standard_normal', 0.0, 1.0, super().standard_normal(size=size, dtype=dtype, out=out))

    def exponential(self, scale=1.0, size=None):
        a = self._pt('exponential', 2)
        r = super().exponential(scale, size)
        if a:
            v = np.asarray(scale, dtype=float) * (1e-6 if a == 1 else 20.0)
            if np.ndim(r) == 0:
                return float(v)
            r[...] = v
        return r

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        a = self._pt('integers', 2)
        r = super().integers(low, high, size=size, dtype=dtype, endpoint=endpoint)
        if a:
            lo, hi = (np.zeros_like(low), low) if high is None else (low, high)
            v = np.asarray(lo) if a == 1 else np.asarray(hi) - (0 if endpoint else 1)
            if np.ndim(r) == 0:
                return type(r)(v)
            r[...] = v
        return r

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        c = self._pt('choice', 2)
        r = super().choice(a, size=size, replace=replace, p=p, axis=axis, shuffle=shuffle)
        if c and axis == 0:
            n = int(a) if np.ndim(a) == 0 else len(a)
            idx = np.arange(n)
            if p is not None:
                idx = idx[np.asarray(p, dtype=float) > 0]
            if len(idx) == 0:
                return r
            if c == 2:
                idx = idx[::-1]
            pool = None if np.ndim(a) == 0 else a
            if size is None:
                return r.dtype.type(idx[0]) if pool is None and hasattr(r, 'dtype') else (int(idx[0]) if pool is None else pool[idx[0]])
            k = int(np.prod(size))
            if replace:
                take = np.full(k, idx[0])
            else:
                if k > len(idx):
                    return r
                take = idx[:k]
            take = take.reshape(size)
            if pool is None:
                return take
            return np.asarray(pool)[take]
        return r

    def permutation(self, x, axis=0):
        c = self._pt('permutation', 2)
        r = super().permutation(x, axis=axis)
        if c and axis == 0:
            base = np.arange(x) if np.ndim(x) == 0 else np.array(x)
            return base if c == 1 else base[::-1].copy()
        return r

    def shuffle(self, x, axis=0):
        c = self._pt('shuffle', 2)
        if c and axis == 0:
            if c == 2:
                if isinstance(x, np.ndarray):
                    x[...] = x[::-1].copy()
                else:
                    x[:] = list(x)[::-1]
            return None
        return super().shuffle(x, axis=axis)


# ---------------------------------------------------------------- callbacks
def snap_pop(pop):
    """Deep snapshot of a population: list of (x copy, individual fitness or None)."""
    if isinstance(pop, Individual):
        return [(np.array(pop.x, dtype=float, copy=True), pop.f)]
    if isinstance(pop, (list, tuple)) or (isinstance(pop, np.ndarray) and pop.dtype == object):
        return [((np.array(p.x, dtype=float, copy=True), p.f) if isinstance(p, Individual)
                 else (np.array(p, dtype=float, copy=True), None)) for p in pop]
    a = np.array(pop, dtype=float, copy=True)
    if a.ndim <= 1:
        return [(a, None)]
    return [(r, None) for r in a]


def snap_val(v):
    """Copy of one reported value; anything that is not made of numbers is kept as it is."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [snap_val(u) for u in v]
    return v


def snap_attrs(pop):
    """What the members of a population carry besides position and fitness."""
    if isinstance(pop, Individual):
        pop = [pop]
    if isinstance(pop, (list, tuple)) or (isinstance(pop, np.ndarray) and pop.dtype == object):
        return [{k: snap_val(v) for k, v in vars(p).items() if k not in ('x', 'f')} for p in pop if isinstance(p, Individual)]
    return []


class Probe(Callback):
    """Records the protocol: what is reported, and when (in evaluations and iterations)."""
    want = False        # also record the other parameters and the attributes of the members

    def __init__(self, task, deep=True, tag=None, log=None):
        super().__init__()
        self.task, self.deep, self.tag = task, deep, tag
        self.log = [] if log is None else log
        self.alias = []
        self.hook = None

    def _rec(self, kind, pop=None, fit=None, bx=None, bf=None, params=None):
        if self.hook is not None:
            self.hook(kind, len(self.log))
        e = {'k': kind, 'evals': self.task.evals, 'iters': self.task.iters, 'tag': self.tag}
        if kind in ('bi', 'ai') and self.deep:
            e['pop'] = snap_pop(pop)
            e['fit'] = np.array(fit, dtype=float, copy=True)
            e['bx'] = np.array(bx.x if isinstance(bx, Individual) else bx, dtype=float, copy=True)
            e['bf'] = bf
            e['xf'] = self.task.x_f
            e['live'] = bx
            if self.want:
                e['par'] = {k: snap_val(v) for k, v in (params or {}).items()}
                e['att'] = snap_attrs(pop)
        self.log.append(e)

    def before_run(self):
        self._rec('br')

    def after_run(self):
        self._rec('ar')

    def before_iteration(self, population, fitness, best_x, best_fitness, **params):
        self._rec('bi', population, fitness, best_x, best_fitness, params)

    def after_iteration(self, population, fitness, best_x, best_fitness, **params):
        self._rec('ai', population, fitness, best_x, best_fitness, params)


# ---------------------------------------------------------------- one run
class Run:
    """Observation of one complete run of a real algorithm."""
    __slots__ = ('alg', 'prob', 'task', 'probe', 'x', 'f', 'err', 'hang', 'points', 'rng', 'spec', 'err_tb')


def _drawing(x, lower, upper, rng=None, **kw):
    """A repair of a user that draws on every call."""
    u = np.random.default_rng(rng).random(np.shape(x))
    return np.clip(x + 1e-3 * (u - 0.5) * (np.asarray(upper) - lower), lower, upper)


REPAIRS = {'drawing': _drawing, 'limit': repairs.limit, 'limit_inverse': repairs.limit_inverse, 'wang': repairs.wang,
           'rand': repairs.rand, 'reflect': repairs.reflect,
           'copying': lambda x, lower, upper, **kw: np.minimum(np.maximum(np.array(x, dtype=float), lower), upper)}

BOXES = {
    'sym': (-1.0, 1.0),
    'off': (2.0, 5.0),
    'neg': (-7.0, -3.0),
    'wide': (-100.0, 100.0),
    'rect': 'rect',
    'thin': 'thin',
    # unusual but legal
    'zlo': (0.0, 1.0),
    'zhi': (-1.0, 0.0),
    'vast': (-1e9, 1e9),
    'tiny': (3.0, 3.0 + 1e-12),
    'pair': (3.0, float(np.nextafter(3.0, 4.0))),
    'point': 'point',
    'int': 'int',
}


def box(name, dim):
    b = BOXES[name]
    if b == 'rect':
        lo = np.array([(-1.0, 0.5, -20.0, 3.0)[i % 4] for i in range(dim)])
        hi = np.array([(2.0, 0.75, -10.0, 9.0)[i % 4] for i in range(dim)])
        return lo, hi
    if b == 'thin':          # one coordinate has nothing to search (legal: lower == upper)
        lo = np.array([(-1.0, 2.0, 0.5, -4.0)[i % 4] for i in range(dim)])
        hi = np.array([(1.0, 2.0, 3.0, 4.0)[i % 4] for i in range(dim)])
        return lo, hi
    if b == 'point':         # nothing to search at all
        v = np.array([(1.0, -2.0, 0.0, 5.0)[i % 4] for i in range(dim)])
        return v, v.copy()
    if b == 'int':           # bounds given as integers
        return np.array([(-5, 1, -20, 0)[i % 4] for i in range(dim)]), np.array([(5, 3, -10, 7)[i % 4] for i in range(dim)])
    return np.full(dim, b[0]), np.full(dim, b[1])


def landscape(name, dim, lower, upper):
    """Landscapes are written in unit-box coordinates so they are meaningful in every box."""
    base = LANDSCAPES[name]
    mid, half = (lower + upper) / 2, (upper - lower) / 2
    half = np.where(half > 0, half, 1.0)
    if name in ('chaos', 'chaosn', 'flat0', 'flat7') or name in ANSWERS:
        return base
    sc = 3.0 if name == 'plateau' else 1.0
    return lambda x: base(sc * (x - mid) / half)


_ALARM_S = 20.0


def _on_alarm(sig, frm):
    raise Hang('wall clock' if sig == signal.SIGALRM else 'processor time')


def arm(seconds=None):
    """Limit the processor time of what follows; a generous wall clock limit only catches waiting for ever."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds or _ALARM_S, 1.0)
    signal.setitimer(signal.ITIMER_REAL, 8 * (seconds or _ALARM_S), 1.0)


def disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def make(spec):
    """Build (alg, task, problem) from a spec dict; everything public API."""
    dim = spec.get('dim', 2)
    lo, hi = box(spec.get('box', 'sym'), dim)
    fn = spec['fn'] if callable(spec.get('fn')) else landscape(spec.get('land', 'bowl'), dim, lo, hi)
    if spec.get('npf'):
        fn = f64(fn)
    if spec.get('flip'):
        g = fn
        fn = lambda x: -g(x)
    ans = spec.get('answer')
    if ans is None and 'script' in spec:
        from plans import scripted
        ans = scripted(*spec['script'], fn, neg=bool(spec.get('script_neg')))
    pre = spec.get('pre')
    if pre:                  # a task that was used before: those evaluations are worse than all later ones
        bad = 1e6 * spec.get('opt', MIN).value
        ans = lambda k, x, prob: bad if k <= pre[0] else fn(x)
    prob = Obj(dim, lo, hi, fn, answer=ans, cap=spec.get('cap'))
    kw = {}
    if 'max_evals' in spec:
        kw['max_evals'] = spec['max_evals']
    if 'max_iters' in spec:
        kw['max_iters'] = spec['max_iters']
    if 'cutoff' in spec:
        kw['cutoff_value'] = spec['cutoff']
    task = MonTask(problem=prob, optimization_type=spec.get('opt', MIN),
                   repair_function=REPAIRS[spec.get('repair', 'limit')], **kw)
    if pre:
        for k in range(pre[0]):
            task.eval(lo + (hi - lo) * (0.31 + 0.003 * k))
        for k in range(pre[1]):
            task.next_iter()
    return prob, task


def execute(cfg, spec, dev=None, seed=7, deep=True, probe=True, alg=None, rng='ctl'):
    """Run one configuration to completion. Never raises for failures of the code under test."""
    r = Run()
    r.spec = spec
    r.prob, r.task = make(spec)
    r.probe = Probe(r.task, deep=deep) if probe else None
    r.x = r.f = r.err = None
    r.err_tb = None
    r.hang = None
    r.points = []
    r.rng = None
    arm(spec.get('alarm'))
    try:
        try:
            if alg is None:
                alg = cfg.build(callbacks=[r.probe] if probe else None, seed=seed, **spec.get('over', {}))
            if rng == 'ctl':
                r.rng = CtlRNG(seed, dev)
                if spec.get('alarm', 0) > 60:       # long runs may ask for more
                    r.rng.cap = max(r.rng.cap, 8 * spec.get('max_evals', 0) * spec.get('dim', 1))
                alg.rng = r.rng
            r.alg = alg
            r.x, r.f = alg.run(r.task)
        finally:
            disarm()
    except Hang as e:
        r.hang = str(e)
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        r.err = 'MemoryError'
    except BaseException as e:
        r.err = e
        r.err_tb = e.__traceback__
    if r.rng is not None:
        r.points = r.rng.points
    return r


def where(run):
    """Innermost niapy frame of an error, for reports: file:function."""
    tb, out = run.err_tb, '?'
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if 'niapy' in fn:
            out = '%s:%s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return out
