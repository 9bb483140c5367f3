"""Independent reference implementations of the benchmark functions (plain loops over floats).

REF[name] = (function(x, D, params), default domain or function of D, smallest D, optimum or None)
optimum: (kind, function D -> x*, function D -> f*, tolerance); kind 'min' or 'max'.
"""
import math
from math import cos, exp, fabs, floor, fsum, log10, pi, sin, sqrt


def prod(it):
    p = 1.0
    for v in it:
        p *= v
    return p


def rastrigin(x, D, p): return 10.0 * D + fsum(v * v - 10.0 * cos(2 * pi * v) for v in x)
def rosenbrock(x, D, p): return fsum(100.0 * (x[i + 1] - x[i] ** 2) ** 2 + (x[i] - 1) ** 2 for i in range(D - 1))
def griewank(x, D, p): return fsum(v * v / 4000.0 for v in x) - prod(cos(v / sqrt(i + 1)) for i, v in enumerate(x)) + 1.0


def egpr(x, D, p):
    def g(a, b): return 100.0 * (a * a - b) ** 2 + (a - 1) ** 2
    def h(z): return z * z / 4000.0 - cos(z) + 1.0
    return h(g(x[D - 1], x[0])) + fsum(h(g(x[i - 1], x[i])) for i in range(1, D))


def sphere(x, D, p): return fsum(v * v for v in x)
def sphere2(x, D, p): return fsum(fabs(v) ** (i + 2) for i, v in enumerate(x))
def sphere3(x, D, p): return fsum(fsum(x[j] ** 2 for j in range(i + 1)) for i in range(D))


def ackley(x, D, p):
    a, b, c = p.get('a', 20.0), p.get('b', 0.2), p.get('c', 2 * pi)
    return -a * exp(-b * sqrt(fsum(v * v for v in x) / D)) - exp(fsum(cos(c * v) for v in x) / D) + a + exp(1)


def schwefel(x, D, p): return 418.9828872724338 * D - fsum(v * sin(sqrt(fabs(v))) for v in x)
def schwefel221(x, D, p): return max(fabs(v) for v in x)
def schwefel222(x, D, p): return fsum(fabs(v) for v in x) + prod(fabs(v) for v in x)


def modschwefel(x, D, p):
    def g(z):
        if fabs(z) <= 500:
            return z * sin(sqrt(fabs(z)))
        if z > 500:
            m = 500 - math.fmod(z, 500)
            return m * sin(sqrt(fabs(m))) - (z - 500) ** 2 / (10000.0 * D)
        m = math.fmod(fabs(z), 500) - 500
        return m * sin(sqrt(fabs(m))) + (z - 500) ** 2 / (10000.0 * D)
    return 418.9829 * D - fsum(g(v + 420.9687462275036) for v in x)


def whitley(x, D, p):
    def t(a, b):
        z = 100.0 * (a * a - b) ** 2 + (1 - b) ** 2
        return z * z / 4000.0 - cos(z) + 1
    return fsum(t(a, b) for a in x for b in x)


def alpine1(x, D, p): return fsum(fabs(v * sin(v) + 0.1 * v) for v in x)
def alpine2(x, D, p): return prod(sqrt(v) * sin(v) for v in x)


def happycat(x, D, p):
    s2, s1 = fsum(v * v for v in x), fsum(x)
    return fabs(s2 - D) ** (2 * p.get('alpha', 0.25) / 2) + (0.5 * s2 + s1) / D + 0.5


def happycat_known(x, D, p):
    a = p.get('alpha', 0.25)
    return fsum(fabs(v * v - D) ** a for v in x) + fsum((0.5 * v * v + v) / D for v in x) + 0.5


def ridge(x, D, p): return fsum(fsum(x[:i + 1]) ** 2 for i in range(D))
def chung(x, D, p): return fsum(v * v for v in x) ** 2
def csendes(x, D, p): return fsum(v ** 6 * (2 + sin(1.0 / v)) for v in x if v != 0)


def pinter(x, D, p):
    s = 0.0
    for i in range(D):
        a, b, c = x[(i - 1) % D], x[i], x[(i + 1) % D]
        A = a * sin(b) + sin(c)
        B = a * a - 2 * b + 3 * c - cos(b) + 1
        k = i + 1
        s += k * b * b + 20.0 * k * sin(A) ** 2 + k * log10(1 + k * B * B)
    return s


def qing(x, D, p): return fsum((v * v - (i + 1)) ** 2 for i, v in enumerate(x))
def quintic(x, D, p): return fsum(fabs(v ** 5 - 3 * v ** 4 + 4 * v ** 3 + 2 * v * v - 10 * v - 4) for v in x)


def salomon(x, D, p):
    r = sqrt(fsum(v * v for v in x))
    return 1 - cos(2 * pi * r) + 0.1 * r


def schumer(x, D, p): return fsum(v ** 4 for v in x)
def step(x, D, p): return fsum(floor(fabs(v)) for v in x)
def step2(x, D, p): return fsum(floor(v + 0.5) ** 2 for v in x)
def step3(x, D, p): return fsum(floor(v * v) for v in x)
def stepint(x, D, p): return 25.0 + fsum(floor(v) for v in x)
def sumsq(x, D, p): return fsum((i + 1) * v * v for i, v in enumerate(x))
def styblinski(x, D, p): return 0.5 * fsum(v ** 4 - 16 * v * v + 5 * v for v in x)
def bentcigar(x, D, p): return x[0] ** 2 + 1e6 * fsum(v * v for v in x[1:])


def weierstrass(x, D, p):
    a, b, K = p.get('a', 0.5), p.get('b', 3), p.get('k_max', 20)
    return fsum(a ** k * cos(2 * pi * b ** k * (v + 0.5)) for v in x for k in range(K + 1)) - D * fsum(a ** k * cos(pi * b ** k) for k in range(K + 1))


def hgbat(x, D, p):
    s2, s1 = fsum(v * v for v in x), fsum(x)
    return sqrt(fabs(s2 ** 2 - s1 ** 2)) + (0.5 * s2 + s1) / D + 0.5


def katsuura(x, D, p):
    return prod(1 + (i + 1) * fsum(fabs(2.0 ** j * v - round(2.0 ** j * v)) / 2.0 ** j for j in range(1, 33)) for i, v in enumerate(x))


def elliptic(x, D, p): return fsum(1e6 ** (i / (D - 1)) * v * v for i, v in enumerate(x))
def discus(x, D, p): return 1e6 * x[0] ** 2 + fsum(v * v for v in x[1:])
def michalewicz(x, D, p): return -fsum(sin(v) * sin((i + 1) * v * v / pi) ** (2 * p.get('m', 10)) for i, v in enumerate(x))


def levy(x, D, p):
    w = [1 + (v - 1) / 4.0 for v in x]
    return sin(pi * w[0]) ** 2 + fsum((w[i] - 1) ** 2 * (1 + 10 * sin(pi * w[i] + 1) ** 2) for i in range(D - 1)) + (w[-1] - 1) ** 2 * (1 + sin(2 * pi * w[-1]) ** 2)


def trid(x, D, p): return fsum((v - 1) ** 2 for v in x) - fsum(x[i] * x[i - 1] for i in range(1, D))
def perm(x, D, p):
    b = p.get('beta', 0.5)
    return fsum(fsum((j + b) * (x[j - 1] ** i - 1.0 / j ** i) for j in range(1, D + 1)) ** 2 for i in range(1, D + 1))


def zakharov(x, D, p):
    s = fsum(0.5 * (i + 1) * v for i, v in enumerate(x))
    return fsum(v * v for v in x) + s ** 2 + s ** 4


def dixon(x, D, p): return (x[0] - 1) ** 2 + fsum((i + 1) * (2 * x[i] ** 2 - x[i - 1]) ** 2 for i in range(1, D))


def powell(x, D, p):
    s = 0.0
    for k in range(D // 4):
        a, b, c, d = x[4 * k:4 * k + 4]
        s += (a + 10 * b) ** 2 + 5 * (c - d) ** 2 + (b - 2 * c) ** 4 + 10 * (a - d) ** 4
    return s


def cosmix(x, D, p): return -0.1 * fsum(cos(5 * pi * v) for v in x) - fsum(v * v for v in x)
def schaffer2(x, D, p): return 0.5 + (sin(x[0] ** 2 - x[1] ** 2) ** 2 - 0.5) / (1 + 0.001 * (x[0] ** 2 + x[1] ** 2)) ** 2
def schaffer4(x, D, p): return 0.5 + (cos(sin(fabs(x[0] ** 2 - x[1] ** 2))) ** 2 - 0.5) / (1 + 0.001 * (x[0] ** 2 + x[1] ** 2)) ** 2


def expschaffer(x, D, p):
    def g(a, b):
        t = a * a + b * b
        return 0.5 + (sin(sqrt(t)) ** 2 - 0.5) / (1 + 0.001 * t) ** 2
    return g(x[-1], x[0]) + fsum(g(x[i - 1], x[i]) for i in range(1, D))


def Z(D): return [0.0] * D
def O(D): return [1.0] * D
def M(D): return [-1.0] * D
def F0(D): return 0.0


def o(kind='min', at=Z, val=F0, tol=1e-8):
    return (kind, at, val, tol)


REF = {
    'Rastrigin': (rastrigin, (-5.12, 5.12), 1, o()),
    'Rosenbrock': (rosenbrock, (-30.0, 30.0), 1, o(at=O)),
    'Griewank': (griewank, (-100.0, 100.0), 1, o()),
    'ExpandedGriewankPlusRosenbrock': (egpr, (-100.0, 100.0), 1, o(at=O)),
    'Sphere': (sphere, (-5.12, 5.12), 1, o()),
    'Sphere2': (sphere2, (-1.0, 1.0), 1, o()),
    'Sphere3': (sphere3, (-65.536, 65.536), 1, o()),
    'Ackley': (ackley, (-32.768, 32.768), 1, o()),
    'Schwefel': (schwefel, (-500.0, 500.0), 1, o(at=lambda D: [420.968746] * D, tol=1e-6)),
    'Schwefel221': (schwefel221, (-100.0, 100.0), 1, o()),
    'Schwefel222': (schwefel222, (-100.0, 100.0), 1, o()),
    'ModifiedSchwefel': (modschwefel, (-100.0, 100.0), 1, o(tol=3e-4)),
    'Whitley': (whitley, (-10.24, 10.24), 1, o(at=O)),
    'Alpine1': (alpine1, (-10.0, 10.0), 1, o()),
    'Alpine2': (alpine2, (0.0, 10.0), 1, o('max', lambda D: [7.917052698245946] * D, lambda D: (sqrt(7.917052684666207) * sin(7.917052684666207)) ** D, 1e-6)),
    'HappyCat': (happycat, (-100.0, 100.0), 1, o(at=M)),
    'Ridge': (ridge, (-64.0, 64.0), 1, o()),
    'ChungReynolds': (chung, (-100.0, 100.0), 1, o()),
    'Csendes': (csendes, (-1.0, 1.0), 1, o()),
    'Pinter': (pinter, (-10.0, 10.0), 1, o()),
    'Qing': (qing, (-500.0, 500.0), 1, o(at=lambda D: [sqrt(i + 1) for i in range(D)])),
    'Quintic': (quintic, (-10.0, 10.0), 1, o(at=M)),
    'Salomon': (salomon, (-100.0, 100.0), 1, o()),
    'SchumerSteiglitz': (schumer, (-100.0, 100.0), 1, o()),
    'Step': (step, (-100.0, 100.0), 1, o()),
    'Step2': (step2, (-100.0, 100.0), 1, o(at=lambda D: [-0.5] * D)),
    'Step3': (step3, (-100.0, 100.0), 1, o()),
    'Stepint': (stepint, (-5.12, 5.12), 1, o(at=lambda D: [-5.12] * D, val=lambda D: 25.0 - 6 * D)),
    'SumSquares': (sumsq, (-10.0, 10.0), 1, o()),
    'StyblinskiTang': (styblinski, (-5.0, 5.0), 1, o(at=lambda D: [-2.903534018185960] * D, val=lambda D: -39.16616570377142 * D)),
    'BentCigar': (bentcigar, (-100.0, 100.0), 1, o()),
    'Weierstrass': (weierstrass, (-100.0, 100.0), 1, o(tol=1e-4)),
    'HGBat': (hgbat, (-100.0, 100.0), 1, o(at=M)),
    'Katsuura': (katsuura, (-100.0, 100.0), 1, o(val=lambda D: 1.0)),
    'Elliptic': (elliptic, (-100.0, 100.0), 2, o()),
    'Discus': (discus, (-100.0, 100.0), 1, o()),
    'Michalewicz': (michalewicz, (0.0, pi), 1, None),
    'Levy': (levy, (-10.0, 10.0), 1, o(at=O)),
    'Trid': (trid, lambda D: (-float(D * D), float(D * D)), 1, o(at=lambda D: [float((i + 1) * (D - i)) for i in range(D)], val=lambda D: -D * (D + 4) * (D - 1) / 6.0)),
    'Perm': (perm, lambda D: (-float(D), float(D)), 1, o(at=lambda D: [1.0 / (i + 1) for i in range(D)])),
    'Zakharov': (zakharov, (-5.0, 10.0), 1, o()),
    'DixonPrice': (dixon, (-10.0, 10.0), 1, o(at=lambda D: [2.0 ** (-(2.0 ** (i + 1) - 2) / 2.0 ** (i + 1)) for i in range(D)])),
    'Powell': (powell, (-4.0, 5.0), 4, o()),
    'CosineMixture': (cosmix, (-1.0, 1.0), 1, o('max', lambda D: [0.1848728] * D, lambda D: 0.0630122 * D, 1e-6)),
    'SchafferN2': (schaffer2, (-100.0, 100.0), 2, o()),
    'SchafferN4': (schaffer4, (-100.0, 100.0), 2, o(at=lambda D: [0.0, 1.253115], val=lambda D: 0.292579, tol=2e-6)),
    'ExpandedSchaffer': (expschaffer, (-100.0, 100.0), 1, o()),
}
TWO = {'SchafferN2', 'SchafferN4'}
FOUR = {'Powell'}
PARAMS = {'Ackley': [dict(a=5.0, b=0.7, c=1.3), dict(a=20.0, b=0.2, c=6.0)], 'HappyCat': [dict(alpha=0.125), dict(alpha=0.5)],
          'Weierstrass': [dict(a=0.3, b=2, k_max=5), dict(a=0.9, b=5, k_max=3), dict(a=0.5, b=3, k_max=0)], 'Michalewicz': [dict(m=1), dict(m=3)],
          'Perm': [dict(beta=0.0), dict(beta=10.0)]}


def dims(name, tier):
    if name in TWO:
        return [2]
    if name in FOUR:
        return [4, 8, 12, 20, 32, 60]
    lo = REF[name][2]
    return [d for d in ((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 30, 50, 100) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 25, 30, 40, 50, 100)) if d >= lo and not (name == 'Perm' and d > 12)]


def domain(name, D):
    d = REF[name][1]
    return d(D) if callable(d) else d


FR = (0.0, 1.0, 0.5, 0.137, 0.861, 0.31, 0.683, 0.05, 0.94, 0.25, 0.75, 0.4409, 0.5591, 0.499, 0.2071, 0.7777, 0.0123, 0.6181)


def components(name, D, n):
    """The first n component values of the lattice."""
    lo, hi = domain(name, D)
    v = [lo + f * (hi - lo) for f in FR]
    extra = [w for w in (1.0, -1.0, 0.0, 2.0, -2.5, 3.0, 0.3, -0.75, 0.5, -0.5, 7.0, 10.0, -7.5) if lo <= w <= hi]
    out = []
    for a, b in zip(v, extra + v):       # alternate fractions and special values
        out += [b, a]
    out += v
    return list(dict.fromkeys(out))[:n]


def lattice(name, D, tier):
    import itertools
    q = tier == 'quick'
    n = {1: 31, 2: 31, 3: 26, 4: 12, 5: 8, 6: 6, 7: 4, 8: 3, 9: 2, 10: 2, 11: 2}.get(D, 1) if q else {1: 31, 2: 31, 3: 31, 4: 20, 5: 12, 6: 9, 7: 6, 8: 5, 9: 4, 10: 3, 11: 2, 12: 2}.get(D, 1)
    for p in itertools.product(components(name, D, n), repeat=D):
        yield p
    # single-component excursions from three base points, so every index is exercised with every value
    for base in (0.137, 0.6181, 0.31, 0.0, 0.95) if D < 50 or not q else (0.6181, 0.0):
        lo, hi = domain(name, D)
        b = [lo + ((base + 0.17 * i) % 1.0) * (hi - lo) for i in range(D)]
        yield tuple(b)
        for i in range(D):
            for v in components(name, D, 12 if D <= 13 else 5):
                c = list(b)
                c[i] = v
                yield tuple(c)


def special(name, D):
    """Points a step beside, at, and far from the places where formulas branch; also beyond the default domain, where
    the formulas are defined as well (the domain of a problem can be set)."""
    lo, hi = domain(name, D)
    na = math.nextafter
    vals = [0.0, -0.0, 1e-9, -1e-9, 1e-5, -1e-5]
    for v in (0.5, 1.0, 1.5, 2.0, 3.0, 5.0, -0.5, -1.0, -1.5, -2.0, -3.0, -5.0):
        vals += [na(v, -1e9), v, na(v, 1e9)]
    vals += [sqrt(2.0), sqrt(3.0), -sqrt(2.0), pi / 2, pi, -pi, 2 * pi, 79.0312537763964, 79.04, 99.9]
    inside = [v for v in vals if lo <= v <= hi]
    wide = [m * w for m in (1.3, 2.0, 3.7, 10.0) for w in (lo, hi)]
    if name in ('Alpine2', 'Trid', 'Perm'):
        wide = [v for v in wide if v >= 0] if name == 'Alpine2' else []
    base = [lo + ((0.317 + 0.23 * i) % 1.0) * (hi - lo) for i in range(D)]
    vs = inside + wide
    for v in vs:
        yield tuple([v] * D)
    for i in range(D) if D <= 8 else (0, 1, D // 2, D - 2, D - 1):
        for v in vs:
            c = list(base)
            c[i] = v
            yield tuple(c)
            c = [0.0 if lo <= 0 <= hi else lo] * D
            c[i] = v
            yield tuple(c)
