"""Job construction and execution shared by the properties that monitor single runs."""
import algos
import plans
from engine import Out
from env import execute, where

SIZE = 160


class RunProp:
    """families: {name: fn(cfg, tier) -> [spec]};  devs: {name: fn(cfg, tier) -> [spec]} (every single
    deviation of the random source from the default stream is explored on these)."""

    def __init__(self, pid, oracle, families, devs=None, default_families=None, skip=(), keep=None, failing=None, deep=True, probe=True, rng='ctl'):
        self.pid, self.oracle = pid, oracle
        self.fam, self.devs = dict(families, marathon=plans.marathon, odd=plans.odd, settings=plans.settings, answers=plans.answers, used=plans.used), devs or {}
        self.deffam = default_families if default_families is not None else {'default': plans.default_specs}
        self.skip = skip
        self.keep = keep
        self.deep, self.probe, self.rng = deep, probe, rng
        self.failing = failing        # oracle also judges runs that hang or raise

    def wanted(self, cfg):
        if any(cfg.name.startswith(s) for s in self.skip):
            return False
        return self.keep is None or self.keep(cfg)

    def jobs(self, tier):
        out = []
        for cfg in algos.DEFAULTS:
            if self.wanted(cfg):
                for f in self.deffam:
                    out.extend(('def', f, cfg.id, tier, i, i + 2) for i in range(0, len(self.deffam[f](cfg, tier)), 2))
        for cfg in algos.TABLE:
            if not self.wanted(cfg):
                continue
            for f in self.devs:
                out.extend(('dev', f, cfg.id, tier, i, i + 1) for i in range(len(self.devs[f](cfg, tier))))
            for f in self.fam:
                n = len(self.fam[f](cfg, tier))
                step = 1 if f == 'marathon' else SIZE
                out.extend(('fam', f, cfg.id, tier, i, min(n, i + step)) for i in range(0, n, step))
        return out

    def run_job(self, job):
        kind, f, cid, tier, a, b = job
        cfg = algos.get(cid)
        o = Out()
        table = {'def': self.deffam, 'dev': self.devs, 'fam': self.fam}[kind]
        specs = table[f](cfg, tier)[a:b]
        for i, spec in enumerate(specs):
            seed = spec.get('seed', 7)
            r = self.one(o, cfg, spec, None, seed, f)
            if kind == 'dev' and r is not None and r.hang is None and r.err is None:
                pts = [n for _, n in r.points]
                for j, n in enumerate(pts):
                    for alt in range(1, n + 1):
                        self.one(o, cfg, spec, {j: alt}, seed, f)
        if specs:
            o.samples.append('%s %s %s' % (cid, f, {k: v for k, v in specs[0].items() if not callable(v)}))
        return o

    def one(self, o, cfg, spec, dev, seed, f):
        r = execute(cfg, spec, dev=dev, seed=seed, deep=self.deep, probe=self.probe, rng=self.rng)
        o.trace(r, (cfg.id, f, spec.get('dim')))
        rep = {'config': cfg.id, 'spec': spec, 'dev': dev, 'seed': seed}
        if r.hang is not None or r.err is not None:
            o.note('runs that raised or hung (judged by C07)')
            if self.failing:
                for facet, det in self.failing(r):
                    o.bad('%s/%s' % (cfg.name, facet), '%s [%s %s dev=%s]' % (det, cfg.id, spec, dev), rep)
            return r
        for facet, det in self.oracle(r):
            o.bad('%s/%s' % (cfg.name, facet), '%s [%s %s dev=%s]' % (det, cfg.id, spec, dev), rep)
        return r

    def export(self, ns, bounds, assumptions=(), rule=''):
        ns.update(ID=self.pid, LEVEL='model_checking', BOUNDS=bounds, ASSUMPTIONS=list(assumptions), RULE=rule,
                  jobs=self.jobs, run_job=self.run_job)


ASSUME = ['the objective is a pure, finite function of the solution',
          'random answers are those of the default PCG64 stream plus single deviations to extreme legal values',
          'the configurations of mc/algos.py (every exported class, small populations plus defaults)']
