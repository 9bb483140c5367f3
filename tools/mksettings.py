"""Derives mc/settings.json from the current tree: which settings every algorithm takes, reports and shows an effect of.

Run by hand (and reviewed) when the library gains settings; the check itself only reads the result.
"""
import inspect, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc', 'props'))
import algos
import c19
SKIP = {'self', 'args', 'kwargs', 'initialization_function', 'individual_type', 'seed', 'callbacks', 'task'}


def chain(cls, meth):
    out = {}
    for k in cls.__mro__:
        f = k.__dict__.get(meth)
        if f is None:
            continue
        sig = inspect.signature(f)
        for p in sig.parameters.values():
            if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY) and p.name not in SKIP and p.name not in out:
                out[p.name] = p.default
        if not any(p.kind == p.VAR_KEYWORD for p in sig.parameters.values()):
            break
    return out


def enc(v):
    if callable(v):
        return {'fn': v.__module__ + ':' + v.__name__}
    if isinstance(v, (tuple, list)):
        return {'seq': [enc(x) for x in v], 'tuple': isinstance(v, tuple)}
    return v


res = {}
for cls, name in sorted(algos.library_classes().items(), key=lambda t: t[1]):
    a, b = chain(cls, '__init__'), chain(cls, 'set_parameters')
    both = {k: a[k] for k in a if k in b and a[k] is not inspect._empty}
    # keep only what both ways accept together
    while True:
        try:
            cls(**both)
            cls().set_parameters(**both)
            break
        except TypeError as e:
            bad = [k for k in both if "'%s'" % k in str(e)]
            assert bad, (name, e)
            for k in bad:
                del both[k]
                print(name, 'not settable explicitly:', k, e)
    if name == 'MultiStrategySelfAdaptiveDifferentialEvolution':
        both.pop('strategy', None)      # its strategy is the multi-strategy operator
    onlyc = [k for k in a if k not in both]
    if onlyc or [k for k in b if k not in both]:
        print(name, 'ctor only', onlyc, 'setter only', [k for k in b if k not in both])
    res[name] = {'defaults': {k: enc(v) for k, v in both.items()}}
for name, r in res.items():
    rep = None
    for c in [c for c in algos.TABLE if c.name == name]:
        full = c19.full(c, r)
        al = c.cls(**full)
        p = al.get_parameters()
        ok = {k for k in full if k in p and c19.eqv(p[k], full[k])}
        nok = [k for k in full if k in p and k not in ok]
        if nok:
            print(c.id, 'reported differently', [(k, full[k], p[k]) for k in nok])
        rep = ok if rep is None else rep & ok
    r['reported'] = sorted(rep or ())
    r['unreported'] = sorted(set(r['defaults']) - set(rep or ()))
    if r['unreported']:
        print(name, 'not reported', r['unreported'])
path = os.path.join(os.path.dirname(c19.__file__), '..', 'settings.json')
json.dump(res, open(path, 'w'), indent=0, sort_keys=True)
c19.SET = res
for name, r in res.items():
    eff, err = set(), set()
    cs = [c for c in algos.TABLE if c.name == name]
    for c in cs:
        full = c19.full(c, r)
        base = [c19.trace(c.cls(**full), s) for s in c19.specs(c, 'quick')]
        assert not any(t[0] == 'err' for t in base), (c.id, [t for t in base if t[0] == 'err'])
        for k in full:
            for alt in c19.alts(k, full[k]):
                try:
                    t = [c19.trace(c.cls(**dict(full, **{k: alt})), s) for s in c19.specs(c, 'quick')]
                except Exception as e:
                    err.add((k, repr(e)[:60]))
                    continue
                if any(x[0] == 'err' for x in t):
                    err.add((k, str([x for x in t if x[0] == 'err'][0])[:60]))
                elif t != base:
                    eff.add(k)
    r['effective'] = sorted(eff)
    if err:
        print(name, 'alternatives that fail', err)
    no = set(r['defaults']) - eff
    r['longeffect'] = {}
    for c in cs:
        full = c19.full(c, r)
        for k in sorted(no):
            hit = None
            for i, s in enumerate(c19.longspecs(c, 'quick')):
                ref = c19.longtrace(c, full, s)
                for alt in c19.alts(k, full[k]):
                    t = c19.longtrace(c, dict(full, **{k: alt}), s)
                    if ref[0] == 'ok' and t[0] == 'ok' and t != ref:
                        hit = i
                if hit is not None:
                    break
            if hit is not None:
                r['longeffect'].setdefault(c.id, {})[k] = hit
        no -= set(r['longeffect'].get(c.id, ()))
    r['wildeffect'] = {}
    for c in cs:
        full = c19.full(c, r)
        ss = c19.specs(c, 'quick') + c19.longspecs(c, 'quick')
        for k in sorted(no):
            hit = None
            for i, s in enumerate(ss):
                ref = c19.trace(c.cls(**full), s)
                for alt in c19.wild(k, full[k]):
                    try:
                        t = c19.trace(c.cls(**dict(full, **{k: alt})), s)
                    except Exception:
                        continue
                    if ref[0] == 'ok' and t[0] == 'ok' and t != ref:
                        hit = [alt, i]
                        break
                if hit:
                    break
            if hit:
                r['wildeffect'].setdefault(c.id, {})[k] = hit
        no -= set(r['wildeffect'].get(c.id, ()))
    import altfn
    r['init'] = bool(cs)
    for c in cs:
        try:
            full = c19.full(c, r)
            s = c19.specs(c, 'quick')[0]
            al = c.cls(**dict(full, initialization_function=altfn.grid_init))
            c.cls().set_parameters(**dict(full, initialization_function=altfn.grid_init))
            t = c19.trace(al, s)
            if t[0] == 'err' or t == c19.trace(c.cls(**full), s):
                print(c.id, 'init function', t[:2] if t[0] == 'err' else 'ignored')
                r['init'] = False
        except TypeError as e:
            r['init'] = False
    if no:
        print(name, 'no visible effect', sorted(no))
json.dump(res, open(path, 'w'), indent=0, sort_keys=True)
print(len(res), 'classes')
